"""C12: damaged ACE tables and matrix files are rejected, never read as something else."""
import copy
import os
import struct

import numpy as np

from .. import core, seams, storemodel
from ..worlda import job_task, run_world
from ..oracleb import describe
from . import c03

ID = 'C12'
BUDGET = {'quick': 12000, 'thorough': 300000}
RULE = ('random ACE library (1-5 tables, text with old or new header, or binary; tables of 1 to 1100 numbers) read as a whole or by table name, '
        'or converted to binary, or random converter matrix file parsed: intact, cut at a random byte (biased to table, block, line and number '
        'borders), with failing, short or torn reads and writes; non-trivial: the file was partial or an '
        'operation failed or was short; distinct by event trace')
REAL = ['ASAPy.data.ace (Library, get_table, ascii_to_binary)', 'ASAPy.EndfToCov.read_boxer_out_matrix', 'Python text and buffered file layers']
STUB = ['the raw files below them (reads, writes, errors and lengths scheduled)', 'the process that wrote the file (killed at the cut)']
ASSUMPTIONS = ['cuts inside the very last number of a text table are not told apart '
               'from a shorter number']
REC = 4096


# ------------------------------------------------------------------ ACE files, written independently of the package
def number(rs):
    """(text of a 20 character field, value)."""
    u = rs.random_sample()
    if u < 0.12:
        v = int(rs.choice([0, 1, 2, 18, 102, 99999, 1234567]))
        return '%20d' % v, float(v)
    if u < 0.17:
        m = rs.uniform(1, 10) * rs.choice([1, -1])
        t = '%.12f-%d' % (m, rs.randint(100, 300))
        if len(t) > 20 or abs(float('%.12f' % m)) >= 10:
            t = '%.11f-%d' % (1.5, rs.randint(100, 300))
        m, e = t.rsplit('-', 1)
        return t.rjust(20), float(m + 'e-' + e)
    v = rs.uniform(1, 10) * 10.0 ** rs.randint(-30, 30) * (1 if rs.random_sample() < 0.9 else -1)
    if u < 0.2:
        v = 0.0
    t = '%20.12E' % v
    return t, float(t)


class Tab:
    """One table and what a reader has to find in it."""

    def __init__(self, spec):
        rs = np.random.RandomState(spec['seed'] % 2 ** 32)
        self.name, self.style, self.ncom = spec['name'], spec['style'], spec['ncom']
        n = spec['n']
        self.awr_t = '%12.6f' % rs.uniform(0.9, 250)
        self.kt_t = '%12.4E' % rs.uniform(1e-9, 2e-7)
        self.awr, self.kt = float(self.awr_t), float(self.kt_t)
        k = rs.randint(0, 5)
        self.pairs = [(int(rs.randint(1001, 99999)), float('%.6f' % rs.uniform(1, 250))) if i < k else (0, 0.0) for i in range(16)]
        self.nxs = [n] + [int(v) for v in rs.randint(0, 10 ** 6, 15)]
        self.jxs = [int(v) for v in rs.randint(0, 10 ** 7, 32)]
        f = [number(rs) for _ in range(n)]
        if spec.get('tail') == 'tiny':
            f[-1] = ('1.234567890120-105'.rjust(20), 1.23456789012e-105)
        self.fields = [t for t, _ in f]
        self.xss = [v for _, v in f]
        self.date = '01/02/%04d' % rs.randint(1990, 2030)
        self.hk = ('comment %d of table %s' % (spec['seed'], self.name)).ljust(70)[:70]
        self.hm = '   mat%4d' % rs.randint(100, 9999)

    def text(self):
        old = ['%10s%s%s %10s\n' % (self.name[:10], self.awr_t, self.kt_t, self.date), self.hk + self.hm + '\n']
        if self.style == 'old':
            head = old
        else:
            c = ['a line of remarks\n'] * max(0, self.ncom - 2) + (old if self.ncom >= 2 else ['another line\n'] * self.ncom)
            head = ['2.0.1     %24s  ENDFB\n' % self.name, '%s %s %10s %4d\n' % (self.awr_t, self.kt_t, self.date, self.ncom)] + c
        out = head
        for i in range(0, 16, 4):
            out.append(''.join('%7d%11.6f' % p if p[0] else '%7d%11s' % (0, '0.') for p in self.pairs[i:i + 4]) + '\n')
        for a in (self.nxs, self.jxs):
            for i in range(0, len(a), 8):
                out.append(''.join('%9d' % v for v in a[i:i + 8]) + '\n')
        for i in range(0, len(self.fields), 4):
            out.append(''.join(self.fields[i:i + 4]) + '\n')
        return ''.join(out)

    def header_bytes(self):
        return struct.pack('=10sdd10s70s10s', ('%10s' % self.name[:10]).encode(), self.awr, self.kt, self.date.encode(), self.hk.encode(), self.hm.encode())

    def binary(self):
        b = self.header_bytes()
        b += struct.pack('=' + 'id' * 16, *[x for p in self.pairs for x in p])
        b += struct.pack('=16i32i', *(self.nxs + self.jxs))
        b += b'\0' * (REC - len(b))
        x = struct.pack('=%dd' % len(self.xss), *self.xss)
        return b + x + b'\0' * (-len(x) % REC)

    def differs(self, t):
        for what, got, want in (('name', t.name, self.name), ('atomic weight ratio', t.atomic_weight_ratio, self.awr), ('temperature', t.temperature, self.kt),
                                ('pairs', [tuple(p) for p in t.pairs], self.pairs), ('NXS', [int(v) for v in t.nxs], [0] + self.nxs),
                                ('JXS', [int(v) for v in t.jxs], [0] + self.jxs)):
            if got != want:
                return what
        x = np.asarray(t.xss, float)
        if x.shape != (len(self.xss) + 1,):
            return 'length of XSS (%d of %d)' % (x.size - 1, len(self.xss))
        bad = np.nonzero(x[1:] != np.array(self.xss))[0]
        if bad.size:
            return 'XSS value %d (%r, not %r)' % (bad[0] + 1, float(x[bad[0] + 1]), self.xss[bad[0]])
        return None


def is_binary_to_readers(b):
    """Ten lines of it are not ASCII: the mark by which text and binary files are told apart."""
    return any(c >= 128 for c in b'\n'.join(b.split(b'\n')[:10]))


def build(sc):
    tabs = [Tab(s) for s in sc['tables']]
    if sc['form'] == 'binary':
        parts = [t.binary() for t in tabs]
    else:
        parts = [t.text().encode() for t in tabs]
    return tabs, parts


# ------------------------------------------------------------------ scenarios
def gen(r, i, tier):
    kind = r.choice(['read', 'read', 'read', 'read', 'convert', 'convert', 'matrix'])
    mode = r.choice(['intact', 'cut', 'cut', 'cut', 'cut', 'fault', 'fault'])
    sc = {'kind': kind, 'mode': mode, 'cut': round(r.random(), 7), 'near': r.choice(['none', 'none', 'table', 'line', 'end', 'field', 'block']),
          'off': r.randrange(-24, 25), 'faults': []}
    if kind == 'matrix':
        m = c03.matrix_spec(r)
        m['feats'] = [f for f in m['feats'] if f in ('zeroxs', 'zerosd', 'bigcorr') or f.startswith('error')]
        sc['m'] = m
        sc['mt'] = r.choice([1, 2, 18, 102, 452])
    else:
        sc['form'] = 'text' if kind == 'convert' else r.choice(['text', 'text', 'binary'])
        nt = r.choice([1, 1, 2, 3, 5])
        names = r.sample(['%d.%02d%s' % (z, k, c) for z in (1001, 8016, 92235, 94239) for k in (0, 70, 80) for c in 'c'] + ['lwtr.20t', 'grph.10t'], nt)
        sc['tables'] = []
        for k in range(nt):
            u = r.random()
            n = r.randrange(1, 13) if u < 0.5 else r.randrange(13, 200) if u < 0.8 else r.choice([511, 512, 513, 1024, 1025, 1100, 700])
            sc['tables'].append({'name': names[k], 'seed': r.randrange(10 ** 9), 'n': n, 'style': 'old' if sc['form'] == 'binary' else r.choice(['old', 'old', 'new']),
                                 'ncom': 3 if r.random() < 0.75 or kind == 'convert' else r.choice([1, 2, 4])})
            if r.random() < 0.08:
                sc['tables'][-1]['tail'] = 'tiny'
        u = r.random()
        if u < 0.4:
            sc['call'] = ['all']
        elif u < 0.5:
            sc['call'] = ['first']
        elif u < 0.7:
            sc['call'] = ['get', r.choice(names + ['99999.99c', names[0][:-1], names[-1][1:]])]
        elif u < 0.8:
            sc['call'] = ['str', r.choice(names + ['99999.99c'])]
        else:
            sc['call'] = ['list', r.sample(names, r.randrange(1, nt + 1)) + (['99999.99c'] if r.random() < 0.2 else [])]
        if sc['form'] == 'binary' and not all(is_binary_to_readers(Tab(t).header_bytes()) for t in sc['tables']):
            sc['form'] = 'text'
    if mode == 'fault':
        op = r.choice(['read', 'read', 'read', 'open']) if kind != 'convert' else r.choice(['read', 'open', 'write', 'write', 'write', 'close', 'any'])
        sc['faults'] = [{'rank': 0, 'op': op, 'n': r.choice([0, 0, 1, 1, 2, 3, 4, 6, 9]), 'act': r.choice(['EIO', 'EIO', 'ENOSPC', 'EMFILE', 'kill'] if kind == 'convert' else ['EIO', 'EIO', 'EMFILE'])}]
        if op == 'open':
            sc['faults'][0]['n'] = r.choice([0, 1])
        if op == 'write':
            sc['faults'][0]['keep'] = r.choice([0, 0, 1, 100, 4000, 8191])
    if r.random() < 0.4:
        sc['faults'] += [{'rank': 0, 'op': r.choice(['read', 'read', 'write']), 'n': k, 'act': 'short', 'keep': r.choice([1, 2, 79, 81, 700, 4000])} for k in range(r.choice([1, 8, 40]))]
    return sc


def shrink(sc):
    if sc.get('tables'):
        for k in range(len(sc['tables'])):
            if len(sc['tables']) > 1:
                v = copy.deepcopy(sc)
                del v['tables'][k]
                yield v
        for k, t in enumerate(sc['tables']):
            for n in (1, 2, 5, 12, 100, 520):
                if n < t['n']:
                    v = copy.deepcopy(sc)
                    v['tables'][k]['n'] = n
                    yield v
            if t['style'] != 'old':
                v = copy.deepcopy(sc)
                v['tables'][k]['style'] = 'old'
                yield v
        if sc['call'] != ['all'] and sc['kind'] == 'read':
            yield dict(sc, call=['all'])
    else:
        for f in sc['m']['feats']:
            v = copy.deepcopy(sc)
            v['m']['feats'].remove(f)
            yield v
        for n in (1, 2, 3):
            if n < sc['m']['n']:
                v = copy.deepcopy(sc)
                v['m']['n'] = n
                yield v
    if sc['faults']:
        yield dict(sc, faults=[])
        for k in range(len(sc['faults'])):
            yield dict(sc, faults=sc['faults'][:k] + sc['faults'][k + 1:])


def cut_at(sc, data, parts):
    n = len(data)
    pos = int(sc['cut'] * (n + 1))
    near = sc['near']
    marks = []
    if near == 'table':
        marks = [sum(len(p) for p in parts[:k]) for k in range(len(parts) + 1)]
    elif near == 'end':
        marks = [n]
    elif near == 'line':
        marks = [k + 1 for k, c in enumerate(data) if c == 10]
    elif near == 'block':
        a = 0
        for p in parts:
            marks += [a + 116, a + 308, a + 372, a + 500, a + REC] if sc.get('form') == 'binary' else [a + len(b''.join(p.splitlines(True)[:k])) for k in (1, 2, 6, 8, 12)]
            a += len(p)
    elif near == 'field':
        pos = pos // 20 * 20
    if marks:
        pos = marks[min(len(marks) - 1, int(sc['cut'] * len(marks)))]
        if sc['off'] % 3:
            pos += sc['off']
    return max(0, min(n, pos))


def in_last_number(sc, parts, pos):
    """The cut leaves part of the last number of a text table."""
    a = 0
    for p in parts:
        end = a + len(p) - 1                    # the line end
        if end - 20 < pos < end:
            return True
        a += len(p)
    return False


def run(sc, ctx):
    root = ctx.fresh('r')
    path = os.path.join(root, 'file')
    if sc['kind'] == 'matrix':
        text, entry, kind = c03.matrix_file(sc['m'], 1234, sc['mt'])
        parts = [text.encode()]
        tabs = None
    else:
        tabs, parts = build(sc)
    data = b''.join(parts)
    pos = cut_at(sc, data, parts) if sc['mode'] == 'cut' else len(data)
    with open(path, 'wb') as f:
        f.write(data[:pos])
    w = core.World(root, faults=sc['faults'], step_limit=60000)
    w.readonly = {'file'}
    w.kill_others_on_failure = False
    w.log.append(('file', core.derive(data.hex()) % 10 ** 9, pos))
    out = os.path.join(root, 'out')

    def read():
        if sc['kind'] == 'matrix':
            from ASAPy import EndfToCov
            return [np.array(a, float) for a in EndfToCov.read_boxer_out_matrix(path).get_block_data()]
        from ASAPy.data import ace
        if sc['kind'] == 'convert':
            ace.ascii_to_binary(path, out)
            return None
        c = sc['call']
        if c[0] == 'all':
            return list(ace.Library(path).tables)
        if c[0] == 'first':
            return [ace.get_table(path)]
        if c[0] == 'get':
            return [ace.get_table(path, c[1])]
        return list(ace.Library(path, c[1]).tables)
    t = job_task(w, read, 1)
    run_world(w, root)
    ctx.add(w, sc['kind'] + ' ' + sc['mode'])
    who = {'read': 'reading a %s ACE file (%s)' % (sc.get('form'), ' '.join(map(str, sc.get('call', [])))), 'convert': 'converting an ACE file', 'matrix': 'reading a matrix file'}[sc['kind']]
    hard = [x for x in w.fired if x[0] != 'short']
    d = '%s %s%s' % (who, 'cut at byte %d of %d' % (pos, len(data)) if pos < len(data) else 'that is intact',
                     ' with ' + describe(sc['faults']) if hard else '')
    whole = pos == len(data)
    ctx.nontrivial = bool(w.fired) or not whole
    if t.status == 'steplimit' or w.deadlock:
        ctx.bad('no-end', '%s does not come to an end' % d)
        return
    ctx.probes['%s_%s' % (sc['kind'], 'accepted' if t.status == 'ok' else 'rejected')] += 1
    if sc['kind'] == 'matrix':
        matrix_judge(sc, ctx, t, entry, kind, whole, hard, d)
    elif sc['kind'] == 'convert':
        convert_judge(sc, ctx, t, tabs, parts, pos, whole, hard, d, out)
    else:
        read_judge(sc, ctx, t, tabs, parts, pos, whole, hard, d)


def matrix_judge(sc, ctx, t, entry, kind, whole, hard, d):
    if kind == 'skip':
        # the converter's report of an error
        if t.status == 'ok':
            ctx.bad('matrix', '%s: data returned although the converter reported an error' % d)
        elif whole and not hard and not isinstance(t.error, RuntimeError):
            ctx.bad('matrix', '%s: a reported error of the converter is not told: %r' % (d, t.error))
        return
    if t.status != 'ok':
        if whole and not hard:
            ctx.bad('intact-rejected', '%s fails: %r' % (d, t.error))
        return
    got = t.result
    b, xs, rel, cov = c03.build_matrix(sc['m'])
    want = [np.array(b, float), np.array(xs, float), np.array(rel, float) * np.array(xs, float), np.array(cov, float)]
    for name, g, x in zip(('group bounds', 'cross sections', 'deviations', 'covariances'), got, want):
        if g.shape != x.shape or not np.allclose(g, x, rtol=1e-12, atol=0):
            ctx.bad('matrix', '%s: other %s than in the intact file' % (d, name))
            return


def read_judge(sc, ctx, t, tabs, parts, pos, whole, hard, d):
    c = sc['call']
    if c[0] == 'all':
        want = tabs
    elif c[0] == 'first':
        want = tabs[:1]
    elif c[0] in ('get', 'str'):
        want = [x for x in tabs if x.name == c[1]]
    else:
        want = [x for x in tabs if x.name in c[1]]
    if t.status != 'ok':
        if whole and not hard and not (c[0] == 'get' and not want):
            ctx.bad('intact-rejected', '%s fails: %r' % (d, t.error))
        return
    got = t.result
    if len(got) > len(want) or (whole or c[0] in ('first', 'get')) and len(got) != len(want):
        ctx.bad('tables', '%s gives tables %s, not %s' % (d, [g.name for g in got], [x.name for x in want]))
        return
    exempt = not whole and sc['form'] == 'text' and in_last_number(sc, parts, pos)
    for k, (g, x) in enumerate(zip(got, want)):
        p = x.differs(g)
        if p and exempt and k == len(got) - 1 and p.startswith('XSS value %d ' % len(x.xss)):
            ctx.probes['cut_last_number'] += 1
            p = None
        if p:
            ctx.bad('content', '%s: table %s differs in its %s' % (d, x.name, p))
            return


def parse_binary(b):
    """Own reader of binary ACE files."""
    res, a = [], 0
    while a < len(b):
        h = struct.unpack('=10sdd10s70s10s', b[a:a + 116])
        iz = struct.unpack('=' + 'id' * 16, b[a + 116:a + 308])
        nj = struct.unpack('=48i', b[a + 308:a + 500])
        n = nj[0]
        x = struct.unpack('=%dd' % n, b[a + REC:a + REC + 8 * n])
        res.append((h, iz, nj, x))
        a += REC + (8 * n + REC - 1) // REC * REC
    if a != len(b):
        raise ValueError('last record incomplete')
    return res


def convert_judge(sc, ctx, t, tabs, parts, pos, whole, hard, d, out):
    if t.status != 'ok':
        if whole and not hard:
            ctx.bad('intact-rejected', '%s fails: %r' % (d, t.error))
        return
    if hard:
        ctx.probes['fault_survived'] += 1
    with open(out, 'rb') as f:
        b = f.read()
    try:
        got = parse_binary(b)
    except Exception as e:
        ctx.bad('converted', '%s reports success, its output is not a binary ACE file: %s' % (d, e))
        return
    if len(got) > len(tabs) or (whole and len(got) != len(tabs)):
        ctx.bad('converted', '%s reports success with %d of %d tables' % (d, len(got), len(tabs)))
        return
    if not whole:
        ends = [sum(len(p) for p in parts[:k]) for k in range(len(parts) + 1)]
        full = sum(1 for e in ends[1:] if e <= pos + 1)
        if len(got) < full:
            ctx.bad('converted', '%s reports success with %d of %d complete tables' % (d, len(got), full))
            return
    exempt = not whole and in_last_number(sc, parts, pos)
    for k, (g, x) in enumerate(zip(got, tabs)):
        h, iz, nj, xs = g
        for what, a, c in (('name', h[0].decode().strip(), x.name[:10].strip()), ('atomic weight ratio', h[1], x.awr), ('temperature', h[2], x.kt),
                           ('date', h[3].decode(), x.date), ('comment', h[4].decode(), x.hk), ('material', h[5].decode(), x.hm),
                           ('pairs', list(zip(iz[::2], iz[1::2])), x.pairs), ('NXS and JXS', list(nj), x.nxs + x.jxs), ('length', len(xs), len(x.xss))):
            if a != c:
                ctx.bad('converted', '%s: table %s differs in its %s: %r, not %r' % (d, x.name, what, a, c))
                return
        bad = [i for i in range(len(xs)) if xs[i] != x.xss[i]]
        if bad and not (exempt and bad == [len(xs) - 1] and k == len(got) - 1):
            ctx.bad('converted', '%s: table %s: number %d is %r, not %r' % (d, x.name, bad[0] + 1, xs[bad[0]], x.xss[bad[0]]))
            return
