"""C04: extraction under disk faults or kills: no false success, and reruns converge."""
import copy
import os
import shutil

from .. import chain, gen_endf, storemodel, worlda
from ..oracleb import describe
from . import c02, c03

ID = 'C04'
BUDGET = {'quick': 420, 'thorough': 14000}
RULE = ('random extraction (command line or API) in a fresh or used folder, disturbed 1-3 times in a row by failing or short file operations, '
        'kills of the parent, of a program or of everything at any operation, then repeated undisturbed; non-trivial: a fault fired after the first '
        'program was started; distinct by event trace')
REAL = c02.REAL + ['pandas / PyTables / HDF5 on a scratch folder']
STUB = c03.STUB
ASSUMPTIONS = c03.ASSUMPTIONS + ['a program whose own file operation fails ends with a non-zero status',
                                 'programs left running by a killed extraction have ended before it is repeated']
ACTS = ['EIO', 'ENOSPC', 'EMFILE', 'EACCES', 'EDQUOT', 'short', 'kill', 'kill', 'kill', 'kill']
OPS = ['any', 'any', 'any', 'open', 'write', 'close', 'read', 'unlink', 'rename', 'hdf_put', 'hdf_open', 'hdf_close', 'spawn', 'mkdir']


def setup():
    import sys
    worlda.build_boxer(sys.modules[__name__].scratch_root)


def fault(r):
    u = r.random()
    f = {'who': 'parent' if u < 0.65 else 'child', 'pick': round(r.random(), 4), 'op': r.choice(OPS), 'frac': round(r.random() if r.random() < 0.6 else 1 - 0.35 * r.random(), 6),
         'act': r.choice(ACTS)}
    if f['who'] == 'child':
        f['op'] = r.choice(['any', 'any', 'open', 'write', 'close', 'read'])
    if f['act'] == 'kill' and r.random() < 0.4:
        f['all'] = True
    if r.random() < 0.6:
        f['keepfrac'] = round(r.random(), 4)
    if r.random() < 0.3:
        f['after'] = True
    return f


def gen(r, i, tier):
    specs = [gen_endf.random_spec(r) for _ in range(r.choice([1, 1, 2]))]
    kind = r.choice(['cli', 'cli', 'api'])
    req = chain.random_request(r, specs, kind)
    if kind == 'cli':
        req['bins'] = 'SCALE_3' if r.random() < 0.95 else 'SCALE_44'
    req['out'] = r.choice([None, 'path'])
    earlier = []
    if r.random() < 0.5:
        for _ in range(r.choice([1, 1, 2])):
            e = copy.deepcopy(req) if r.random() < 0.4 else chain.random_request(r, specs, r.choice(['cli', kind]))
            if e['kind'] == 'cli':
                e['bins'] = 'SCALE_3'
                if req['kind'] == 'cli' and r.random() < 0.6:
                    e['store'] = req['store']
            e['out'] = None
            earlier.append(e)
    runs = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        runs.append({'faults': [fault(r) for _ in range(r.choice([1, 1, 1, 2]))], 'sched': [r.choice([0, 1]) for _ in range(r.choice([0, 30, 200]))],
                     'cap': r.choice([64, 4096, 65536])})
    return {'specs': specs, 'tapeid': True, 'crlf': r.random() < 0.1, 'req': req, 'earlier': earlier, 'runs': runs, 'seed': r.randrange(10 ** 9)}


def shrink(sc):
    for k in range(len(sc['runs'])):
        if len(sc['runs']) > 1:
            v = copy.deepcopy(sc)
            del v['runs'][k]
            yield v
    for k in range(len(sc['earlier'])):
        v = copy.deepcopy(sc)
        del v['earlier'][k]
        yield v
    for k, c in enumerate(sc['runs']):
        for j in range(len(c['faults'])):
            if len(c['faults']) > 1:
                v = copy.deepcopy(sc)
                del v['runs'][k]['faults'][j]
                yield v
        if c['sched']:
            v = copy.deepcopy(sc)
            v['runs'][k]['sched'] = []
            yield v
    q = sc['req']
    for name in ('mts', 'temps'):
        if isinstance(q.get(name), list) and len(q[name]) > 1:
            for j in range(len(q[name])):
                v = copy.deepcopy(sc)
                del v['req'][name][j]
                yield v
    for name in ('nu', 'chi'):
        if q.get(name):
            v = copy.deepcopy(sc)
            v['req'][name] = False
            yield v


def resolve(faults, w0):
    out = []
    kids = sorted(t.rank for t in w0.tasks if t.rank >= 100)
    for f in faults:
        f = dict(f)
        who, pick = f.pop('who'), f.pop('pick')
        rank = 0 if who == 'parent' or not kids else kids[int(pick * len(kids))]
        t = [t for t in w0.tasks if t.rank == rank][0]
        n = t.total_ops if f['op'] == 'any' else t.opcount.get(f['op'], 0)
        f['rank'], f['n'] = rank, min(max(n - 1, 0), int(f.pop('frac') * n))
        if 'keepfrac' in f:
            f['keep'] = int(f.pop('keepfrac') * 4096)
        out.append(f)
    return out


def entries(sc, req, texts, nonce):
    return c03.cli_entries(sc, {'req': req}, texts, nonce) if req['kind'] == 'cli' else {}


def unchanged_inputs(sc, root, texts):
    for j, txt in enumerate(texts):
        try:
            with open(os.path.join(root, 'eval%d.endf' % j), newline='') as f:
                if f.read() != txt:
                    return False
        except OSError:
            return False
    return True


def complete(sc, req, root, texts, nonce, old, d):
    """Problem of a run that reported success, or None."""
    work = os.path.join(root, 'work')
    bad = chain.compare_results(chain.Expect(req, sc['specs'], texts, nonce), work)
    if bad:
        return '%s: %s' % (d, bad)
    return None


def run(sc, ctx):
    root = ctx.fresh('r')
    texts = chain.materialise(sc, root)
    work = os.path.join(root, 'work')
    state = {}
    req = sc['req']
    for k, e in enumerate(sc['earlier']):
        nonce = '%d.e%d' % (sc['seed'], k)
        w, t, nj, bx = chain.run_extraction(sc, {'req': e}, root, nonce)
        ctx.add(w, 'earlier extraction %d' % (k + 1))
        if t.status != 'ok':
            ctx.bad('failed', 'undisturbed extraction failed: %s %s' % (t.status, repr(t.error)[:300]))
            return
        state = c03.snapshot(work)
    for k, c in enumerate(sc['runs']):
        nonce = '%d.r%d' % (sc['seed'], k)
        twin = ctx.fresh('twin')
        shutil.rmtree(twin)
        shutil.copytree(root, twin, symlinks=True)
        w0, t0, _, _ = chain.run_extraction(sc, {'req': req}, twin, nonce, sched=c['sched'], cap=c['cap'])
        ctx.add(w0, 'undisturbed twin of run %d' % (k + 1))
        if t0.status != 'ok':
            ctx.bad('repeat-failed' if k else 'failed', 'undisturbed extraction%s failed: %s %s' % (
                ' after a disturbed one' if k else '', t0.status, repr(t0.error)[:300]))
            return
        f = resolve(c['faults'], w0)
        w, t, nj, bx = chain.run_extraction(sc, {'req': req}, root, nonce, sched=c['sched'], cap=c['cap'], faults=f)
        d = 'run %d with %s' % (k + 1, describe(f))
        ctx.add(w, d)
        ctx.nontrivial |= bool(w.fired) and len(w.children) > 0
        if w.deadlock or any(x.status == 'steplimit' for x in w.tasks):
            ctx.bad('no-end', '%s does not end: %s' % (d, w.deadlock))
            return
        if not unchanged_inputs(sc, root, texts):
            ctx.bad('input', '%s changed its evaluation file' % d)
            return
        try:
            new = c03.snapshot(work)
        except ValueError as e:
            ctx.bad('store', '%s: %s' % (d, e))
            return
        bad = c03.judge(state, new, entries(sc, req, texts, nonce), t.status, False, d)
        if bad:
            ctx.bad(*bad)
            return
        if t.status == 'ok':
            ctx.probes['success_despite_fault'] += bool(w.fired)
            if any(chain.child_codes(w)):
                ctx.bad('false-success', '%s reported success although a program ended with %s' % (d, [x for x in chain.child_codes(w) if x][0]))
                return
            bad = complete(sc, req, root, texts, nonce, state, d)
            if bad:
                ctx.bad('false-success', bad + ', but success was reported')
                return
        else:
            ctx.probes['disturbed_failed'] += 1
        state = new
    nonce = '%d.z' % sc['seed']
    w, t, nj, bx = chain.run_extraction(sc, {'req': req}, root, nonce)
    ctx.add(w, 'repeated')
    if t.status != 'ok':
        ctx.bad('repeat-failed', 'repeated extraction failed: %s %s' % (t.status, repr(t.error)[:300]))
        return
    bad = complete(sc, req, root, texts, nonce, state, 'repeated extraction')
    if bad:
        ctx.bad('repeat-differs', bad)
        return
    try:
        new = c03.snapshot(work)
    except ValueError as e:
        ctx.bad('store', 'repeated extraction: %s' % e)
        return
    bad = c03.judge(state, new, entries(sc, req, texts, nonce), t.status, False, 'repeated extraction')
    if bad:
        ctx.bad('repeat-' + bad[0], bad[1])
        return
    if not unchanged_inputs(sc, root, texts):
        ctx.bad('input', 'repeated extraction changed its evaluation file')
    ctx.probes['repeats_compared'] += 1
