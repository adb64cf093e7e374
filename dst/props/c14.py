"""C14: the table editor is a faithful store over any history of edits."""
import copy
import os
import random
import warnings

import numpy as np

from .. import core, gen_ace, genb, seams
from ..oracleb import describe, resolve

ID = 'C14'
BUDGET = {'quick': 900, 'thorough': 20000}
RULE = ('one to three users in one process, each with an editor and a text writer on the same file, run random operation histories interleaved '
        'at every file operation, with rejected operations and failing reads and writes; every answer is compared with a reference model; '
        'non-trivial: at least three accepted edits; distinct by event trace')
REAL = ['ASAPy/AceIO.py AceEditor and WriteAce', 'ASAPy/data/* (ACE reader)', 'numpy']
STUB = ['file system calls (simulated per call: schedule, faults)']
ASSUMPTIONS = ['operations of one editor are not called from two threads at once']
ACE = 'base.ace'


# ------------------------------------------------------------------ generation
def gen(r, i, tier):
    z = r.choice(genb.NUCLIDES)
    fis = z in genb.FISSILE
    b = genb.bounds(r, 3)
    mts = genb.ace_mts(r, fis)
    ace = {'seed': r.randrange(10 ** 6), 'Z': z[0], 'A': z[1], 'n': r.choice([8, 12, 20]), 'mts': mts, 'bounds': b, 'zeros': r.random() < 0.3}
    if r.random() < 0.25:
        ace['header'] = '2.0'
    if fis:
        ace['chi_nin'] = r.choice([1, 2, 3])
    # which reactions the history concentrates on
    model = gen_ace.build(ace)[1]
    can = gen_ace.present_mts(model)
    pool = r.sample(can, min(len(can), r.choice([2, 3, 4, 6])))
    if 18 in mts and r.random() < 0.5:
        pool += [452, 1018]
    fam = [m for m in can if m in (4, 103, 104, 107, 16, 18) or m in model['virtual'] or 50 <= m <= 91 or m >= 600]
    if fam and r.random() < 0.6:
        pool += r.sample(fam, min(len(fam), 3))
    users = []
    nu = r.choice([1, 2, 2, 3])
    for u in range(nu):
        ops = [op(r, pool) for _ in range(r.choice([4, 8, 15, 25]))]
        users.append(ops)
    sc = {'ace': ace, 'users': users, 'sched': genb.sched(r, r.choice([40, 200])), 'seed': r.randrange(10 ** 6)}
    if r.random() < 0.4:
        sc['faults'] = []
        for _ in range(r.choice([1, 1, 2])):
            f = {'rank': r.randrange(nu), 'op': r.choice(['any', 'write', 'read', 'open', 'close']), 'frac': round(r.random(), 6),
                 'act': r.choice(['EIO', 'ENOSPC', 'EMFILE', 'short'])}
            if r.random() < 0.5:
                f['keepfrac'] = round(r.random(), 4)
            sc['faults'].append(f)
    return sc


def op(r, pool):
    k = r.choice(['set', 'set', 'set', 'set', 'bad', 'get', 'get', 'apply', 'apply', 'check', 'write', 'reopen', 'replace', 'replace', 'badrep', 'save', 'temp'])
    s = r.randrange(10 ** 6)
    m = r.choice(pool)
    if k == 'set':
        return ['set', m, s, r.random() < 0.4]
    if k == 'bad':
        return ['bad', m, r.choice(['short', 'long', 'absent', 'text', 'inner', 'empty']), s]
    if k == 'get':
        return ['get', m, s, r.random() < 0.3, r.random() < 0.4, r.random() < 0.5]
    if k == 'temp':
        return ['temp', r.choice(['K', 'plain', 'number', 'home', 'wrong', 'wrong'])] if r.random() < 0.5 else ['check']
    if k == 'reopen':
        return ['reopen'] if r.random() < 0.4 else ['check']
    if k in ('replace', 'badrep'):
        return [k, s, r.choice([1, 1, 2, 99])]
    return [k]


def shrink(sc):
    if len(sc['users']) > 1:
        for u in range(len(sc['users'])):
            v = copy.deepcopy(sc)
            v['users'][u] = []
            if v != sc:
                yield v
    if sc.get('faults'):
        for i in range(len(sc['faults'])):
            v = copy.deepcopy(sc)
            del v['faults'][i]
            yield v
    if sc.get('sched'):
        v = copy.deepcopy(sc)
        v['sched'] = []
        yield v
    for u, ops in enumerate(sc['users']):
        n = len(ops)
        for k in (n // 2, n // 4, 1):
            if k < 1:
                continue
            for at in range(0, n, k):
                v = copy.deepcopy(sc)
                del v['users'][u][at:at + k]
                yield v


# ------------------------------------------------------------------ reference model
class Ref:
    """What one editor has to hold."""

    def __init__(self, model):
        self.m = model
        self.e = np.array(model['energy']) * gen_ace.EV
        n = len(self.e)
        self.thr, self.base = {}, {}
        for mt, (at, thr, v) in model['arrays'].items():
            if mt != 452:
                self.thr[mt], self.base[mt] = thr, np.array(v, float)
        for mt, comp in model['virtual'].items():
            t = min(self.thr[c] for c in comp)
            d = np.zeros(n)
            for c in comp:
                d[self.thr[c]:self.thr[c] + len(self.base[c])] += self.base[c]
            self.thr[mt], self.base[mt] = t, d[t:]
        if 452 in model['arrays']:
            self.base[452] = np.array(model['arrays'][452][2], float)
            self.chi = [(np.array(eo) * gen_ace.EV, np.array(p) / gen_ace.EV, np.array(c)) for eo, _, p, _, c in model['chi']]
            self.base[1018] = [p for _, p, _ in self.chi]
        self.now = {k: ([x.copy() for x in v] if k == 1018 else v.copy()) for k, v in self.base.items()}
        self.cdf = [c.copy() for _, _, c in getattr(self, 'chi', [])]
        self.scale = {k: np.abs(v) for k, v in self.base.items() if k != 1018}
        self.adj = set()
        self.present = [k for k in self.base if k not in (452, 1018)]

    def dense(self, v, mt):
        d = np.zeros(len(self.e))
        d[self.thr[mt]:self.thr[mt] + len(v)] = v
        return d

    def set(self, mt, values):
        if mt == 1018:
            new, cdf = [], []
            for (x, p, c), q in zip(self.chi, values):
                area = np.cumsum(q * np.concatenate([[0.0], np.diff(x)]))
                # the tabulated cumulative distribution may not be the exact integral of the tabulated density
                new.append(q / area[-1])
                cdf.append(area / area[-1])
            self.now[1018], self.cdf = new, cdf
        else:
            self.now[mt] = np.array(values, float)
            self.scale[mt] = np.maximum(np.abs(self.base[mt]), np.abs(self.now[mt]))
        self.adj.add(mt)

    def apply(self):
        for s in gen_ace.SUM_ORDER:
            if s not in self.present:
                continue
            comp = [c for c in gen_ace.constituents(s, set(self.present) - {s}) if c in self.adj]
            if not comp:
                continue
            d = np.zeros(len(self.e))
            sc = self.dense(np.abs(self.base[s]), s)
            for c in comp:
                d += self.dense(self.now[c] - self.base[c], c)
                sc = np.maximum(sc, self.dense(self.scale[c], c))
            t, k = self.thr[s], len(self.base[s])
            self.now[s] = self.base[s] + d[t:t + k]
            self.scale[s] = np.maximum(sc[t:t + k], np.abs(self.now[s]))
            self.adj.add(s)

    def energies(self, mt):
        if mt == 452:
            return np.array(self.m['nu_energy']) * gen_ace.EV
        t = self.thr[mt]
        return self.e[t:t + len(self.base[mt])]


def same(got, want, scale, rtol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= rtol * np.maximum(scale, 1e-300)))


# ------------------------------------------------------------------ execution
class User:
    def __init__(self, sc, rank, root, model, ctx):
        self.sc, self.rank, self.root, self.model, self.ctx = sc, rank, root, model, ctx
        self.ed = self.ref = self.w = None
        self.tok = None
        self.done = 0
        self.accepted = 0

    def bad(self, cls, text):
        self.ctx.bad(cls, 'user %d, operation %d %s: %s' % (self.rank, self.done, self.cur, text))
        raise Stop()

    def path(self, n):
        return os.path.join(self.root, n)

    def open(self):
        from ASAPy import AceIO
        self.ed = None
        ed = AceIO.AceEditor(self.path(ACE))
        self.ed, self.ref = ed, Ref(self.model)

    def run(self):
        w = core.World.current
        ops = [['open']] + list(self.sc['users'][self.rank]) + [['check']]
        for o in ops:
            self.cur = o
            w.op('edit', '%d %s' % (self.rank, o))
            for attempt in range(3):
                n = sum(1 for f in w.fired if f[0] != 'short')
                try:
                    if self.ed is None and o[0] != 'open':
                        self.open()
                    getattr(self, 'do_' + o[0])(*o[1:])
                    break
                except (Stop, core.SimKill, core.StepLimit):
                    raise
                except Exception as e:
                    if sum(1 for f in w.fired if f[0] != 'short') > n:
                        # the operation was refused by the disk: nothing may have changed
                        self.ctx.probes['failed_io_operations'] += 1
                        continue
                    self.bad('error', 'failed with %s: %s' % (type(e).__name__, e))
            self.done += 1

    def do_open(self):
        self.open()

    def do_reopen(self):
        self.open()

    def do_temp(self, how):
        """Another editor on the file, for a named temperature (the table is for 293.6 K)."""
        from ASAPy import AceIO
        path = self.path(ACE)
        if how == 'home':
            os.environ['HOME'] = self.root
            path = '~/' + ACE
        t = {'K': '294K', 'plain': '294', 'number': 294, 'wrong': '600K', 'home': None}[how]
        hard = lambda: sum(1 for f in core.World.current.fired if f[0] != 'short')
        n = hard()
        try:
            ed = AceIO.AceEditor(path, t)
        except (core.SimKill, core.StepLimit):
            raise
        except Exception:
            if how != 'wrong' or hard() > n:
                raise
            return
        if how == 'wrong':
            self.bad('temperature', 'a table for 294 K was taken for one of %s' % t)
        got = ed.get_sigma(102)
        if not same(got, Ref(self.model).base[102], np.abs(got)):
            self.bad('value', 'a new editor does not show the values of the file')

    def values(self, mt, seed):
        r = random.Random(seed)
        if mt == 1018:
            return [np.array([x * r.uniform(0.5, 1.7) for x in p]) for p in self.ref.base[1018]]
        kind = r.choice(['scale', 'scale', 'random', 'base', 'zero'])
        b = self.ref.base[mt]
        if kind == 'scale':
            return b * np.array([r.uniform(0.3, 2.0) for _ in b])
        if kind == 'random':
            return np.array([r.uniform(0.01, 50.0) for _ in b])
        if kind == 'base':
            return b.copy()
        v = b * r.uniform(0.5, 1.5)
        v[r.randrange(len(v))] = 0.0
        return v

    def do_set(self, mt, seed, mutate):
        v = self.values(mt, seed)
        keep = copy.deepcopy(v)
        self.ed.set_sigma(mt, v)
        self.ref.set(mt, keep)
        self.accepted += 1
        if mutate:
            for a in (v if mt == 1018 else [v]):
                a *= 7.5
            self.ctx.probes['passed_arrays_changed_later'] += 1
        self.look(mt)

    def do_bad(self, mt, how, seed):
        v = self.values(mt, seed)
        if how == 'absent':
            mt = [m for m in (5, 41, 108, 111, 20) if m not in self.ref.base][0]
        elif how == 'short':
            v = v[:-1]
        elif how == 'empty':
            v = v[:0]
        elif how == 'long':
            v = list(v) + [v[-1]]
            if mt != 1018:
                v = np.array(v)
        elif how == 'inner' and mt == 1018:
            v[-1] = v[-1][:-1]
        elif how in ('text', 'inner'):
            if mt == 1018:
                v[-1] = v[-1][:-1]
            else:
                v = ['x'] * len(v)
        try:
            self.ed.set_sigma(mt, v)
        except (core.SimKill, core.StepLimit):
            raise
        except Exception:
            self.ctx.probes['rejected_edits'] += 1
        else:
            self.bad('accepted', 'accepted an edit that does not fit the table')
        self.look(mt) if how != 'absent' else None

    def look(self, mt):
        ref = self.ref
        got, un = self.ed.get_sigma(mt), self.ed.get_sigma(mt, unadjusted=True)
        if mt == 1018:
            _, _, p, c = self.ed.get_chi_distro()
            ok = len(got) == len(ref.now[1018])
            for k in range(len(ref.now[1018])):
                q, cd = ref.now[1018][k], ref.cdf[k]
                # a base table is consistent only to its printed accuracy
                ok = ok and same(got[k], q, np.abs(q), 1e-8) and same(p[k], q, np.abs(q), 1e-8) and same(c[k], cd, 1.0, 1e-8)
            oku = len(un) == len(ref.base[1018]) and all(same(a, b, np.abs(b)) for a, b in zip(un, ref.base[1018]))
            _, _, pu, cu = self.ed.get_chi_distro(unadjusted=True)
            oku = oku and all(same(a, b[1], np.abs(b[1])) for a, b in zip(pu, ref.chi)) and all(same(a, b[2], 1.0) for a, b in zip(cu, ref.chi))
        else:
            ok = same(got, ref.now[mt], ref.scale[mt])
            oku = same(un, ref.base[mt], np.abs(ref.base[mt]))
        if not ok:
            self.bad('value', 'MT %d does not hold the values last set: %s, expected %s' % (mt, short(got), short(ref.now[mt])))
        if not oku:
            self.bad('unadjusted', 'unadjusted MT %d is %s, expected %s' % (mt, short(un), short(ref.base[mt])))

    def do_check(self):
        for mt in sorted(self.ref.base):
            self.look(mt)
            if mt != 1018 and not same(self.ed.get_energy(mt), self.ref.energies(mt), self.ref.energies(mt)):
                self.bad('energy', 'energies of MT %d changed' % mt)
        if set(self.ed.adjusted_mts) != self.ref.adj:
            self.bad('adjusted', 'list of adjusted reactions is %s, expected %s' % (sorted(self.ed.adjusted_mts), sorted(self.ref.adj)))

    def do_get(self, mt, seed, unadj, at, mutate):
        ref, r = self.ref, random.Random(seed)
        want = ref.base[mt] if unadj else ref.now[mt]
        if at and mt not in (452, 1018):
            x, y = ref.energies(mt), want
            pts = [float(r.choice(list(ref.e))) for _ in range(3)]
            k = r.randrange(len(ref.e) - 1)
            pts.append(float((ref.e[k] + ref.e[k + 1]) / 2))
            pts.sort()
            got = self.ed.get_sigma(mt, at_energies=np.array(pts), unadjusted=unadj)
            w = np.interp(pts, x, y, left=0.0, right=0.0)
            if not same(got, w, np.max(np.abs(y)) if len(y) else 1.0, 1e-9):
                self.bad('interpolated', 'MT %d at %s is %s, expected %s' % (mt, pts, short(got), short(w)))
        else:
            got = self.ed.get_sigma(mt, unadjusted=unadj)
        if mutate:
            for a in (got if mt == 1018 else [got]):
                a *= 3.25
            self.ctx.probes['handed_out_arrays_changed'] += 1
        self.look(mt)

    def do_apply(self):
        self.ed.apply_sum_rules()
        self.ref.apply()
        first = {m: self.ed.get_sigma(m) for m in self.ref.adj if m != 1018}
        for m in sorted(self.ref.adj):
            self.look(m)
        self.ed.apply_sum_rules()
        for m, v in first.items():
            if not same(self.ed.get_sigma(m), v, self.ref.scale[m], 1e-12):
                self.bad('idempotent', 'applying the sum rules again changed MT %d' % m)

    # ---- whole table written through the text writer, as the sampling program does
    def do_write(self):
        from ASAPy import AceIO
        self.ed.apply_sum_rules()
        self.ref.apply()
        w = AceIO.WriteAce(self.path(ACE))
        base = AceIO.AceEditor(self.path(ACE))
        done = set()
        for mt in sorted(self.ref.adj):
            if mt == 1018:
                _, _, p0, c0 = base.get_chi_distro()
                _, _, p1, c1 = self.ed.get_chi_distro()
                for a, b in zip(p0, p1):
                    w.replace_array(a * 1e6, b * 1e6)
                for a, b in zip(c0, c1):
                    w.replace_array(a, b)
            else:
                try:
                    w.replace_array(base.get_sigma(mt), self.ed.get_sigma(mt), 9999 if mt == 452 else 1)
                except ValueError:
                    if mt not in self.ref.m['virtual']:
                        raise
                    continue
            done.add(mt)
        name = 'table_%d' % self.rank
        w.write_ace(self.path(name))
        w.write_ace(self.path(name))
        m = self.model
        with seams._real['open'](self.path(name)) as f:
            hdr, tok = gen_ace.parse_text(f.read(), len(m['header']))
        if hdr != m['header'] or len(tok) != len(m['tokens']):
            self.bad('written', 'header or number of values of the written table changed')
        # an array is found by its text: where two arrays hold the same values (known finding of C07), nothing is decided here
        texts = {mt: ' ' + ' '.join(m['tokens'][at:at + len(b)]) + ' ' for mt, (at, _, b) in m['arrays'].items()}
        if any(texts[a] in texts[b] for a in done if a != 1018 for b in texts if a != b):
            self.ctx.probes['same_values_twice'] += 1
            return
        may = {}
        for mt in done:
            if mt == 1018:
                for k, (eo, pa, p, ca, c) in enumerate(m['chi']):
                    may.update({pa + i: (x * 1e6, abs(x * 1e6), 1e-8) for i, x in enumerate(self.ref.now[1018][k])})
                    may.update({ca + i: (x, 1.0, 1e-8) for i, x in enumerate(self.ref.cdf[k])})
            else:
                at = m['arrays'][mt][0]
                may.update({at + i: (x, s, 1e-9) for i, (x, s) in enumerate(zip(self.ref.now[mt], self.ref.scale[mt]))})
        for i, (t, b) in enumerate(zip(tok, m['tokens'])):
            if i in may:
                x, s, tol = may[i]
                if not abs(float(t) - x) <= tol * max(s, 1e-300):
                    self.bad('written', 'value %d of the written table is %s, expected %.11E' % (i + 1, t, x))
            elif t != b:
                self.bad('written', 'value %d of the written table is %s, expected unchanged %s' % (i + 1, t, b))
        self.ctx.probes['tables_written'] += 1

    # ---- the text writer on its own
    def text(self):
        if self.w is None:
            from ASAPy import AceIO
            self.w = AceIO.WriteAce(self.path(ACE))
            self.tok = list(self.model['tokens'])

    def piece(self, seed):
        r = random.Random(seed)
        n = r.randrange(3, 9)
        for _ in range(200):
            at = r.randrange(0, max(1, len(self.tok) - n))
            p = self.tok[at:at + n]
            if all('E' in x for x in p) and not p[0].startswith('-'):
                return at, p, r
        return None, None, r

    def do_replace(self, seed, maxrep):
        self.text()
        at, p, r = self.piece(seed)
        if p is None:
            return
        new = [r.uniform(0.1, 9.9) for _ in p]
        self.w.replace_array([float(x) for x in p], new, max_replaces=maxrep)
        self.accepted += 1
        i = n = 0
        nt = ['{:.11E}'.format(x) for x in new]
        while i <= len(self.tok) - len(p) and n < maxrep:
            if self.tok[i:i + len(p)] == p:
                self.tok[i:i + len(p)] = nt
                i += len(p)
                n += 1
            else:
                i += 1

    def do_badrep(self, seed, how):
        self.text()
        at, p, r = self.piece(seed)
        if p is None:
            return
        try:
            if how == 1:
                self.w.replace_array([float(x) for x in p], [1.0] * (len(p) + (1 if seed % 2 or len(p) < 2 else -1)))
            else:
                self.w.replace_array([float(x) * 1.37 + 0.123 for x in p], [1.0] * len(p))
        except (core.SimKill, core.StepLimit):
            raise
        except Exception:
            self.ctx.probes['rejected_edits'] += 1
        else:
            self.bad('accepted', 'accepted a replacement that does not fit')

    def do_save(self):
        self.text()
        name = 'text_%d' % self.rank
        self.w.write_ace(self.path(name))
        with seams._real['open'](self.path(name)) as f:
            hdr, tok = gen_ace.parse_text(f.read(), len(self.model['header']))
        if hdr != self.model['header']:
            self.bad('written', 'header changed')
        if tok != self.tok:
            k = next((i for i, (a, b) in enumerate(zip(tok, self.tok)) if a != b), min(len(tok), len(self.tok)))
            self.bad('written', 'value %d of the written text is %s, expected %s' % (k + 1, tok[k:k + 1], self.tok[k:k + 1]))


class Stop(BaseException):
    pass


def short(v):
    try:
        return np.array2string(np.asarray(v, float), threshold=6, edgeitems=2, precision=6)
    except Exception:
        return '%s' % (str(v)[:60])


def world(sc, ctx, faults=()):
    root = ctx.fresh('t')
    os.makedirs(root, exist_ok=True)
    text, model = gen_ace.build(sc['ace'])
    with open(os.path.join(root, ACE), 'w') as f:
        f.write(text)
    w = core.World(root, sched=sc['sched'], faults=faults)
    w.kill_others_on_failure = False
    proc = core.ProcessState(['users'], sc['seed'], {})        # all users live in one process
    users = []
    for k in range(len(sc['users'])):
        u = User(sc, k, root, model, ctx)
        users.append(u)

        def go(u=u):
            try:
                u.run()
            except Stop:
                pass
        w.spawn(k, go, proc)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w.run()
    for t in w.tasks:
        if t.error is not None:
            raise ValueError('user %d: %r' % (t.rank, t.error))         # not one of the errors an editor reports
        if t.status == 'steplimit':
            ctx.bad('no-end', 'operations do not end')
    with open(os.path.join(root, ACE)) as f:
        if f.read() != text:
            ctx.bad('input', 'the table file itself was changed')
    return w, users


def run(sc, ctx):
    w0, users = world(sc, ctx)
    ctx.add(w0, 'undisturbed')
    if sc.get('faults'):
        f = resolve(sc['faults'], w0)
        w, users = world(sc, ctx, f)
        ctx.add(w, 'with ' + describe(f))
    n = sum(u.accepted for u in users)
    ctx.nontrivial = n >= 3
    ctx.probes['accepted_edits'] += n
