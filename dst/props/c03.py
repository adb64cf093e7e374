"""C03: the covariance store holds only complete and consistent entries."""
import copy
import os
import shutil

import numpy as np

from .. import chain, core, gen_endf, njoysim, popen, storemodel, worlda
from ..oracleb import describe

ID = 'C03'
BUDGET = {'quick': 700, 'thorough': 20000}
RULE = ('random history of 1-7 extractions into one folder (matrix files of every shape given to the store writer, and whole command line runs), '
        'with invalid matrices, converter errors, failing programs, one failing operation or a kill per extraction, compared with a reference '
        'store after each one; non-trivial: at least one entry was stored; distinct by event trace')
REAL = ['ASAPy.EndfToCov (process_cov_to_h5, matrix parser, command line)', 'ASAPy.AsapyCovStorage', 'ASAPy.CovManipulation.cov_to_correlation',
        'pandas / PyTables / HDF5 on a scratch folder', 'boxer2mat.f (compiled, in command line runs)']
STUB = ['NJOY', 'subprocess.Popen and pipes', 'raw file layer', 'HDF5 calls fail or are the point of a kill between calls; what HDF5 had not '
        'written to the system by then is lost']
ASSUMPTIONS = ['data handed to the system by a killed process survives (no power failure)', 'kills do not strike inside a single HDF5 library call',
               'one extraction at a time works on a store']
ZAIDS = [92235, 92238, 26056, 1001, 94239]
FAULT_OPS = ['any', 'any', 'hdf_put', 'hdf_put', 'hdf_open', 'hdf_close', 'open', 'read', 'write', 'close', 'rename', 'unlink', 'hdf_remove']


def setup():
    import sys
    worlda.build_boxer(sys.modules[__name__].scratch_root)


def matrix_spec(r):
    n = r.choice([1, 2, 3, 3, 4, 5, 8, 9, 17]) if r.random() < 0.95 else 44
    feats = []
    for f, p in (('zeroxs', .25), ('zerosd', .2), ('bigcorr', .15), ('nodiag', .07), ('exp3', .05)):
        if r.random() < p:
            feats.append(f)
    u = r.random()
    if u < 0.08:
        feats.append('error%d' % r.randrange(4))
    elif u < 0.20:
        feats.append(r.choice(['badbounds', 'equalbounds', 'short', 'blocks', 'nofile', 'rowgone']))
    return {'n': n, 'seed': r.randrange(10 ** 9), 'feats': feats}


def build_matrix(m):
    """(bounds, xs, rel, cov) high to low, as written to the file."""
    rs = np.random.RandomState(m['seed'] % (2 ** 32))
    n = m['n']
    f3 = njoysim.f3
    b = set()
    while len(b) < n + 1:
        b.add(f3(10 ** rs.uniform(-5, 7.3)))
    b = sorted(b, reverse=True)
    xs = [f3(v) for v in 10 ** rs.uniform(-6, 4, n)]
    rel = [f3(v) for v in 10 ** rs.uniform(-3, 0.2, n)]
    a = rs.randn(n, max(1, n // 2))
    c = a @ a.T + np.diag(rs.uniform(0.1, 1, n))
    d = np.sqrt(np.diag(c))
    cov = c / np.outer(d, d) * np.outer(rel, rel)
    if 'zerosd' in m['feats']:
        k = rs.randint(n)
        rel[k] = 0.0
        cov[k, :] = cov[:, k] = 0
    if 'zeroxs' in m['feats']:
        k = rs.randint(1, n + 1)
        for i in range(k):
            xs[-1 - i] = 0.0
            if rs.rand() < 0.7:
                rel[-1 - i] = 0.0
                cov[-1 - i, :] = cov[:, -1 - i] = 0
    if 'bigcorr' in m['feats'] and n > 1:
        i, j = rs.choice(n, 2, replace=False)
        cov[i, j] = cov[j, i] = rs.choice([-1, 1]) * rs.choice([rs.uniform(1.0, 3), rs.uniform(1.0, 1.001)]) * np.sqrt(cov[i, i] * cov[j, j])
    if 'nodiag' in m['feats'] and n > 1:
        cov[0, 0] = 0.0
    cov = [[f3(v) if abs(v) > 1e-90 else 0.0 for v in row] for row in cov]
    if 'exp3' in m['feats'] and n > 1:
        cov[0][1] = cov[1][0] = 1.234e-105
    return b, xs, rel, cov


def matrix_file(m, mat, mt):
    """(text or None, entry or None, kind: 'ok', 'skip', 'bad')."""
    b, xs, rel, cov = build_matrix(m)
    fe = m['feats']
    err = [f for f in fe if f.startswith('error')]
    if err:
        return storemodel.matrix_text(mat, mt, b, xs, rel, cov, error_at=int(err[0][5:])), None, 'skip'
    if 'nofile' in fe:
        return None, None, 'bad'
    if 'badbounds' in fe or 'equalbounds' in fe:
        if m['n'] < 2:
            return storemodel.matrix_text(mat, mt, b, xs, rel, cov), storemodel.Entry(b, xs, rel, cov), 'ok'
        i = m['seed'] % m['n']
        b = list(b)
        b[i], b[i + 1] = (b[i + 1], b[i]) if 'badbounds' in fe else (b[i], b[i])
        # between first and last two bounds the order shows only within one group
        return storemodel.matrix_text(mat, mt, b, xs, rel, cov), None, 'bad'
    t = storemodel.matrix_text(mat, mt, b, xs, rel, cov)
    if 'short' in fe:
        return t.rstrip('\n')[:-10], None, 'bad'
    if 'rowgone' in fe:
        return t.rstrip('\n').rsplit('\n', 1)[0] + '\n', None, 'bad'
    if 'blocks' in fe:
        k = m['seed'] % 4
        parts = t.split('\n\n\n\n')[1:]
        del parts[k]
        return ''.join('\n\n\n\n' + p for p in parts), None, 'bad'
    if 'exp3' in fe:
        return t, storemodel.Entry(b, xs, rel, cov), 'either'
    return t, storemodel.Entry(b, xs, rel, cov), 'ok'


def gen(r, i, tier):
    specs = [gen_endf.random_spec(r) for _ in range(r.choice([1, 1, 2]))]
    zaids = r.sample(ZAIDS, r.choice([1, 2, 2]))
    mts = r.sample([1, 2, 4, 16, 18, 102, 452, 1018, 51], r.choice([1, 2, 3]))
    cli = r.random() < 0.22
    steps, shape = [], r.choice([0, r.randrange(10 ** 6)])
    for k in range(r.choice([1, 2, 3, 3, 4, 5, 7]) if not cli else r.choice([1, 2, 3])):
        if cli and r.random() < 0.7:
            req = chain.random_request(r, specs, 'cli') if k == 0 or r.random() < 0.4 else copy.deepcopy(steps[0].get('req') or chain.random_request(r, specs, 'cli'))
            req['bins'] = 'SCALE_3' if r.random() < 0.9 else 'SCALE_44'
            s = {'k': 'cli', 'req': req, 'plan': {}, 'boxer': {}}
            u = r.random()
            if u < 0.12:
                s['plan'] = {'die_at': r.randrange(0, 14), 'die_how': r.choice([['exit', 1], ['signal', 11]])}
            elif u < 0.2:
                s['plan'] = {'omit': ['covr:%d' % r.randrange(3)]}
            elif u < 0.3:
                s['boxer'] = {str(r.randrange(5)): r.choice([{'die': ['exit', 2]}, {'omit': True}])}
        else:
            m = matrix_spec(r)
            if r.random() < 0.5 and steps and steps[0]['k'] == 'mat':
                m['n'] = steps[0]['m']['n']
            s = {'k': 'mat', 'zaid': r.choice(zaids), 'mt': r.choice(mts), 'fmt': r.choice(['{0}g.h5', '{0}g.h5', '{0}g.h5', 'U_{0}g.h5']), 'm': m}
        if r.random() < 0.35:
            f = {'rank': 0, 'op': r.choice(FAULT_OPS), 'frac': round(r.random() if r.random() < 0.5 else 1 - 0.3 * r.random(), 6),
                 'act': r.choice(['EIO', 'ENOSPC', 'EMFILE', 'EACCES', 'EDQUOT', 'kill', 'kill', 'short'])}
            if r.random() < 0.4:
                f['after'] = True
            if r.random() < 0.6:
                f['keepfrac'] = round(r.random(), 4)
            s['fault'] = f
        steps.append(s)
    return {'specs': specs, 'steps': steps, 'seed': r.randrange(10 ** 9), 'tapeid': True, 'crlf': False}


def shrink(sc):
    for k in range(len(sc['steps'])):
        if len(sc['steps']) > 1:
            v = copy.deepcopy(sc)
            del v['steps'][k]
            yield v
    for k, s in enumerate(sc['steps']):
        if s.get('fault'):
            v = copy.deepcopy(sc)
            del v['steps'][k]['fault']
            yield v
            if s['fault'].get('after'):
                v = copy.deepcopy(sc)
                del v['steps'][k]['fault']['after']
                yield v
        if s['k'] == 'mat':
            for f in s['m']['feats']:
                v = copy.deepcopy(sc)
                v['steps'][k]['m']['feats'].remove(f)
                yield v
            for n in (1, 2, 3):
                if n < s['m']['n']:
                    v = copy.deepcopy(sc)
                    v['steps'][k]['m']['n'] = n
                    yield v
        else:
            for key in ('plan', 'boxer'):
                if s[key]:
                    v = copy.deepcopy(sc)
                    v['steps'][k][key] = {}
                    yield v
            q = s['req']
            if not q['mts'] or len(q['mts']) > 1:
                sp = sc['specs'][q['spec']]
                for mt in q['mts'] or sorted(mt for mf, mt, _ in sp['sections'] if mf == 33):
                    v = copy.deepcopy(sc)
                    v['steps'][k]['req']['mts'] = [mt]
                    yield v


def run_matrix(step, root, faults):
    """process_cov_to_h5 on the matrix file of the step."""
    w = popen.world(root, {}, faults=faults, step_limit=20000)
    work = os.path.join(root, 'work')

    def go():
        from ASAPy import EndfToCov
        EndfToCov.process_cov_to_h5(work, step['zaid'], step['mt'], boxer_matrix_name='m_{mt}_matrix.txt', output_h5_format=step['fmt'])
    t = worlda.job_task(w, go, 3)
    worlda.run_world(w, work)
    return w, t


def execute(sc, step, root, nonce, faults):
    if step['k'] == 'mat':
        text, entry, kind = matrix_file(step['m'], 1234, step['mt'])
        p = os.path.join(root, 'work', 'm_%d_matrix.txt' % step['mt'])
        if os.path.exists(p):
            os.remove(p)
        if text is not None:
            with open(p, 'w') as f:
                f.write(text)
        w, t = run_matrix(step, root, faults)
        return w, t, {(step['fmt'].format(step['m']['n']), step['zaid'], step['mt']): (entry, kind)}, None
    w, t, nj, bx = chain.run_extraction(sc, dict(step, req=dict(step['req'], out='path')), root, nonce, faults=faults)
    return w, t, None, (nj, bx)


def cli_entries(sc, step, texts, nonce):
    """{(store, zaid, mt): (entry, kind)} of an undisturbed command line run."""
    req = step['req']
    sp = sc['specs'][req['spec']]
    ex = chain.Expect(req, sc['specs'], texts, nonce)
    mts, temps, groups, iwt, wf, nu, chi = chain.resolved(req, sc['specs'])
    n = len(groups) - 1
    zaid = sp['Z'] * 1000 + sp['A']
    name = req['store'] + '%dg.h5' % n if req['store'] else '%s%d_%dg.h5' % (gen_endf.SYM[sp['Z']], sp['A'], n)
    todo = [('covr_%s.txt' % temps[0], mt) for mt in mts]
    if nu:
        todo.append(('covr_nu_%s.txt' % temps[0], 452))
    if chi:
        todo.append(('covr_chi_%s.txt' % temps[0], 1018))
    res = {}
    for fn, mt in todo:
        m = ex.matrix(fn, mt)
        res[(name, zaid, mt)] = (storemodel.Entry(*m), 'ok') if m is not None else (None, 'skip')
    return res


def snapshot(work):
    """Everything in the stores of the folder: {(store, zaid, mt): tables}."""
    res = {}
    for f in storemodel.stores(work):
        try:
            for (z, mt), tabs in storemodel.read(os.path.join(work, f)).items():
                res[(f, z, mt)] = tabs
        except ValueError as e:
            raise ValueError('store %s: %s' % (f, e))
    return res


def resolve(fault, w0):
    f = dict(fault)
    t = [t for t in w0.tasks if t.rank == 0][0]
    n = t.total_ops if f['op'] == 'any' else t.opcount.get(f['op'], 0)
    f['n'] = min(max(n - 1, 0), int(f.pop('frac') * n))
    if 'keepfrac' in f:
        f['keep'] = int(f.pop('keepfrac') * 4096)
    return f


def judge(old, new, touched, status, killed, d):
    """(class, text) of the first problem of a step, or None."""
    for e in sorted(set(old) | set(new) | set(touched)):
        what = '%s: nuclide %d reaction %d in %s' % (d, e[1], e[2], e[0])
        was, now = old.get(e), new.get(e)
        same = (was is None and now is None) or (was is not None and now is not None and storemodel.same(was, now))
        if e not in touched:
            if not same:
                return 'untouched', '%s changed although it is not part of this extraction' % what
            continue
        entry, kind = touched[e]
        if kind == 'skip' or entry is None:
            if not same:
                return 'skip' if kind == 'skip' else 'invalid', '%s changed although %s' % (
                    what, 'the converter reported an error' if kind == 'skip' else 'its matrix file is not valid')
            continue
        if now is None:
            diff = 'is missing'
        else:
            diff = entry.differs(*now)
            diff = diff and 'differs in its %s' % diff
        if diff is None:
            continue
        if status == 'ok' and kind == 'ok':
            return 'content', '%s %s from what was extracted' % (what, diff)
        if not same:
            return 'torn', '%s is neither as before nor as extracted (%s) after the extraction failed' % (what, diff)
    return None


def run(sc, ctx):
    root = ctx.fresh('r')
    texts = chain.materialise(sc, root)
    work = os.path.join(root, 'work')
    state = {}
    for k, step in enumerate(sc['steps']):
        nonce = '%d.%d' % (sc['seed'], k)
        faults = []
        if step.get('fault'):
            twin = ctx.fresh('twin')
            shutil.rmtree(twin)
            shutil.copytree(root, twin)
            w0 = execute(sc, step, twin, nonce, [])[0]
            ctx.add(w0, 'undisturbed')
            faults = [resolve(step['fault'], w0)]
        w, t, touched, progs = execute(sc, step, root, nonce, faults)
        ctx.add(w, 'extraction %d' % (k + 1))
        d = 'extraction %d (%s)%s' % (k + 1, 'matrix' if step['k'] == 'mat' else 'command line', ' with ' + describe(faults) if w.fired and faults else '')
        if w.deadlock or any(x.status == 'steplimit' for x in w.tasks):
            ctx.bad('no-end', '%s does not end: %s' % (d, w.deadlock))
            return
        if touched is None:
            touched = cli_entries(sc, step, texts, nonce)
            disturbed = bool(w.fired)
        else:
            disturbed = bool(w.fired) or any(kind in ('bad', 'either') for _, kind in touched.values())
        if t.status != 'ok' and not disturbed:
            ctx.bad('failed', '%s failed although nothing was wrong: %s: %s' % (d, t.status, repr(t.error)[:300]))
            return
        try:
            new = snapshot(work)
        except ValueError as e:
            ctx.bad('store', '%s: %s' % (d, e))
            return
        bad = judge(state, new, touched, t.status, False, d)
        if bad:
            ctx.bad(*bad)
            return
        ctx.probes['entries_compared'] += len(new)
        ctx.probes['stored'] += sum(1 for e in touched if e in new)
        ctx.probes['extraction_failed'] += t.status != 'ok'
        ctx.nontrivial |= bool(new)
        state = new
