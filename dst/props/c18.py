"""C18: resonance parameters and samples of them have the values and covariances of the evaluation."""
import copy
import os

import numpy as np

from .. import core, gen_res
from ..oracleb import describe
from ..worlda import job_task, run_world
from .c04 import resolve

ID = 'C18'
BUDGET = {'quick': 2000, 'thorough': 15000}
RULE = ('random process reading 1-2 evaluations with resolved resonances (single- and multi-level Breit-Wigner, Reich-Moore), unresolved ones and covariances in every '
        'format, taking subsets by any parameter, subsets of subsets and samples of them, under failing and short reads, again after a failure; '
        'random stream of the process simulated; non-trivial: parameters were sampled or a read failed; distinct by event trace')
REAL = ['ASAPy.data (resonance, resonance_covariance, endf, IncidentNeutron.from_endf)', 'numpy, pandas']
STUB = ['the raw files below the ENDF reader (errors, lengths)', 'the random stream of the process (seeded)']
ASSUMPTIONS = ['samples are compared by chi-square statistics with bounds that a right sampler exceeds with probability below 1e-9 per run',
               'one isotope and one resolved range per evaluation, as many resonances in MF=32 as in MF=2, blocks of covariances with the same number of parameters per resonance']


# ------------------------------------------------------------------ scenarios
def item(r):
    lrf = r.choice([1, 2, 3, 3])
    nls = r.choice([1, 1, 2, 3])
    nro = r.choice([0, 0, 1])
    s = {'seed': r.randrange(10 ** 9), 'nuclide': r.randrange(len(gen_res.NUCLIDES)), 'lrf': lrf, 'lcomp': r.choice([0, 1, 2, 2]) if lrf < 3 else r.choice([1, 2]), 'fission': r.choice([0, 0, 1, 2]),
         'competitive': lrf < 3 and r.random() < 0.3, 'nls': nls, 'nres': [r.choice([1, 1, 2, 3, 4]) for _ in range(nls)], 'nro': nro, 'naps': r.choice([0, 1, 2] if nro else [0, 1]),
         'unresolved': r.choice([None, None, 'AB', 'C']), 'urrcov': r.random() < 0.5, 'order': r.choice(['l', 'energy']), 'mpar': r.choice([3, 4, 5]), 'sparse': r.random() < 0.3, 'ndigit': r.choice([2, 3, 4, 5]),
         'blank': r.random() < 0.5, 'exact': r.random() < 0.3, 'wide': r.random() < 0.2, 'blocks': r.choice([1, 1, 1, 2, 3]), 'crlf': r.random() < 0.2}
    return s


def gen(r, i, tier):
    items = [item(r) for _ in range(r.choice([1, 1, 2]))]
    acts = []
    for _ in range(r.choice([1, 2, 2, 3])):
        a = {'item': r.randrange(len(items)), 'via': r.choice(['file', 'file', 'evaluation', 'parts']), 'cuts': [], 'n': r.choice([0, 1, 60, 250, 250])}
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            a['cuts'].append([r.choice(['energy', 'energy', 'captureWidth', 'neutronWidth', 'J', 'L']), round(r.random() * 0.5, 3), round(0.5 + 0.5 * r.random(), 3), r.random() < 0.3])
        acts.append(a)
    sc = {'items': items, 'acts': acts, 'seed': r.randrange(10 ** 6)}
    if r.random() < 0.35:
        sc['fault'] = {'who': 'parent', 'pick': 0.0, 'op': r.choice(['any', 'read', 'open']), 'frac': round(r.random(), 4), 'act': r.choice(['EIO', 'EIO', 'EMFILE', 'short', 'short'])}
        if sc['fault']['act'] == 'short':
            sc['fault']['keepfrac'] = round(r.random() ** 3, 4)
        sc['retry'] = r.random() < 0.7
    return sc


def shrink(sc):
    for k in range(len(sc['acts'])):
        if len(sc['acts']) > 1:
            v = copy.deepcopy(sc)
            del v['acts'][k]
            yield v
    if 'fault' in sc:
        v = copy.deepcopy(sc)
        del v['fault']
        yield v
    for k, a in enumerate(sc['acts']):
        for j in range(len(a['cuts'])):
            v = copy.deepcopy(sc)
            del v['acts'][k]['cuts'][j]
            yield v
        for key, val in (('n', 0), ('via', 'file')):
            if a[key] != val:
                v = copy.deepcopy(sc)
                v['acts'][k][key] = val
                yield v
    for k, s in enumerate(sc['items']):
        for key, val in (('unresolved', None), ('competitive', False), ('fission', 0), ('nro', 0), ('crlf', False), ('sparse', False), ('exact', False), ('wide', False), ('blocks', 1), ('nls', 1)):
            if s[key] != val:
                v = copy.deepcopy(sc)
                v['items'][k][key] = val
                if key == 'nls':
                    v['items'][k]['nres'] = s['nres'][:1]
                if key == 'nro' and s['naps'] == 2:
                    continue
                yield v


# ------------------------------------------------------------------ execution
def frame(df):
    return {str(c): [float(v) for v in df[c].values] for c in df.columns}


def bounds(rows, cut):
    """Limits for a cut: values (which belong to the subset) or well between values or beyond them."""
    v = sorted({x[cut[0]] for x in rows})
    lo, hi = int(cut[1] * len(v)), int(cut[2] * len(v))
    if cut[3]:
        return [v[lo], v[min(hi, len(v) - 1)]]
    a = v[0] - abs(v[0]) / 2 - 1 if lo == 0 else (v[lo - 1] + v[lo]) / 2
    b = v[-1] + abs(v[-1]) + 1 if hi >= len(v) - 1 else (v[hi] + v[hi + 1]) / 2
    return [a, b]


def execute(sc, root, trees, faults=()):
    w = core.World(root, faults=faults, step_limit=60000)
    w.readonly = {'i%d.endf' % j for j in range(len(sc['items']))}
    w.kill_others_on_failure = False
    done = []

    def load(a):
        from ASAPy.data.endf import Evaluation
        from ASAPy.data.neutron import IncidentNeutron
        from ASAPy.data.resonance import Resonances
        from ASAPy.data.resonance_covariance import ResonanceCovariances
        p = os.path.join(root, 'i%d.endf' % a['item'])
        if a['via'] == 'file':
            d = IncidentNeutron.from_endf(p, covariance=True)
            return d.resonances, d.resonance_covariance
        ev = Evaluation(p)
        if a['via'] == 'evaluation':
            d = IncidentNeutron.from_endf(ev, True)
            return d.resonances, d.resonance_covariance
        x = Resonances.from_endf(ev)
        return x, ResonanceCovariances.from_endf(ev, x)

    def view(x, c):
        g = x.ranges[0]
        at = [1.0, 50.0, 700.0]
        rad = {int(l): [[float(f[l](e)) for e in at] for f in (g.scattering_radius, g.channel_radius)] for l in g.scattering_radius}
        out = {'kinds': [type(q).__name__ for q in x.ranges], 'ckinds': [type(q).__name__ for q in c.ranges], 'range': [float(g.energy_min), float(g.energy_max)], 'spin': float(g.target_spin),
               'rows': frame(g.parameters), 'radius': rad, 'unresolved': None}
        if len(x.ranges) > 1:
            u = x.ranges[1]
            fr = u.parameters if isinstance(u.parameters, list) else [u.parameters]
            out['unresolved'] = {'range': [float(u.energy_min), float(u.energy_max)], 'background': bool(u.add_to_background), 'spin': float(u.target_spin), 'radius': float(u.scattering_radius),
                                 'energies': None if u.energies is None else [float(e) for e in u.energies], 'frames': [[[float(v) for v in row] for row in f.values.tolist()] for f in fr]}
        k = c.ranges[0]
        out['cov'] = {'range': [float(k.energy_min), float(k.energy_max)], 'mpar': int(k.mpar), 'lcomp': int(k.lcomp), 'rows': frame(k.parameters), 'matrix': np.array(k.covariance, dtype=float), 'file2': frame(k.file2res.parameters)}
        return out

    def samples(c, n):
        return [frame(s.parameters) for s in c.sample(n)] if n else []

    def work():
        np.random.seed(sc['seed'])
        for a in sc['acts']:
            for attempt in (0, 1):
                before = len([x for x in w.fired if x[0] != 'short'])
                done.append([a, None, None, True, None])
                try:
                    loaded = False
                    x, c = load(a)
                    loaded = True
                    res = {'view': view(x, c), 'cuts': []}
                    k = c.ranges[0]
                    w.log.append([0, 'parameters', a['via'], [float(e) for e in k.parameters['energy'].values]])
                    rows = trees[a['item']]['rows']
                    for cut in a['cuts']:
                        b = bounds(rows, cut)
                        rows = [q for q in rows if b[0] <= q[cut[0]] <= b[1]]
                        if not rows:
                            break
                        k = k.subset(cut[0], b)
                        w.log.append([0, 'subset', cut[0], [float(e) for e in k.parameters['energy'].values]])
                        res['cuts'].append({'rows': frame(k.parameters), 'matrix': np.array(k.covariance, dtype=float), 'file2': frame(k.file2res.parameters)})
                    if rows:
                        w.log.append([0, 'sample', a['n'], len(rows)])
                        res['samples'] = samples(k, a['n'])
                        res['more'] = samples(k, min(a['n'], 2))
                    res['after'] = view(x, c)
                    err = None
                except Exception as e:
                    res, err = None, '%s: %s' % (type(e).__name__, str(e)[:200])
                hit = not loaded and len([x for x in w.fired if x[0] != 'short']) > before     # nothing is read later
                done[-1][1:] = [err is None, err, hit, res]
                if err is None or not hit or not sc.get('retry'):
                    break
        return True
    t = job_task(w, work, 5)
    run_world(w, root)
    return w, t, done


def run(sc, ctx):
    root = ctx.fresh('r')
    trees = []
    for j, s in enumerate(sc['items']):
        text, tree = gen_res.build(s)
        with open(os.path.join(root, 'i%d.endf' % j), 'w', newline='') as f:
            f.write(text)
        trees.append(tree)
    faults = []
    if sc.get('fault'):
        w0 = execute(sc, root, trees)[0]
        ctx.add(w0, 'undisturbed')
        faults = resolve([sc['fault']], w0)
    w, t, done = execute(sc, root, trees, faults)
    ctx.add(w, 'process')
    where = 'the process%s' % (' with ' + describe(faults) if w.fired else '')
    if t.status != 'ok':
        ctx.bad('no-end', '%s: %s %r' % (where, t.status, t.error))
        return
    ctx.nontrivial = bool([x for x in w.fired if x[0] != 'short'])
    for a, ok, err, hit, res in done:
        tree = trees[a['item']]
        d = '%s: %s of evaluation %d (LRF=%d, LCOMP=%d)' % (where, 'resonances', a['item'], tree['lrf'], tree['lcomp'])
        if not ok:
            ctx.probes['failed'] += 1
            if not hit:
                ctx.bad('failed', '%s cannot be had although nothing was wrong: %s' % (d, err))
                return
            continue
        ctx.probes['read'] += 1
        p = viewed(res['view'], tree)
        if p:
            ctx.bad('content', '%s: %s' % (d, p))
            return
        if not same_view(res['view'], res['after']):
            ctx.bad('changed', '%s: taking subsets or samples changed the data they were taken from' % d)
            return
        order = tree['order']
        rows = [tree['rows'][k] for k in order]
        cov = np.array(tree['cov'])
        mpar = tree['mpar']
        pick = list(range(len(rows)))
        for cut, got in zip(a['cuts'], res['cuts']):
            b = bounds([rows[k] for k in pick], cut)
            pick = [k for k in pick if b[0] <= rows[k][cut[0]] <= b[1]]
            i = [k * mpar + m for k in pick for m in range(mpar)]
            what = 'the subset with %s' % ', '.join('%s in %s' % (c[0], 'bounds') for c in a['cuts'])
            p = table(got['rows'], [rows[k] for k in pick], tree['columns'], what) or matrix(got['matrix'], cov[np.ix_(i, i)], what)
            mine = [rows[k]['energy'] for k in pick]
            p = p or table(got['file2'], [x for x in tree['rows'] if x['energy'] in mine], tree['columns'], what + ', parameters of MF=2')
            if p:
                ctx.bad('subset', '%s: %s' % (d, p))
                return
            ctx.probes['subset'] += 1
        if res.get('samples'):
            i = [k * mpar + m for k in pick for m in range(mpar)]
            p = sampled(res, [rows[k] for k in pick], cov[np.ix_(i, i)], tree, a['n'])
            if p:
                ctx.bad('sample', '%s: %s' % (d, p))
                return
            ctx.probes['sampled'] += 1
            ctx.nontrivial = True


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-12


def table(got, rows, columns, what):
    if set(got) != set(columns):
        return '%s has columns %s instead of %s' % (what, sorted(got), sorted(columns))
    for c in columns:
        want = [x[c] for x in rows]
        if len(got[c]) != len(want):
            return '%s has %d resonances instead of %d' % (what, len(got[c]), len(want))
        for k, (a, b) in enumerate(zip(got[c], want)):
            if not near(a, b):
                return '%s: %s of resonance %d is %r instead of %r' % (what, c, k, a, b)


def matrix(got, want, what):
    """The upper triangle counts; the lower one may hold the same or nothing."""
    n = len(want)
    if got.shape != (n, n):
        return '%s: the covariances have shape %s instead of %s' % (what, got.shape, (n, n))
    scale = np.sqrt(np.outer(want.diagonal(), want.diagonal()))
    bad = ~(np.abs(got - want) <= 1e-6 * scale + 1e-300) & np.triu(np.ones((n, n), bool))
    if bad.any():
        i, j = [int(v) for v in np.argwhere(bad)[0]]
        return '%s: the covariance of parameters %d and %d is %r instead of %r' % (what, i, j, float(got[i, j]), float(want[i, j]))
    low = np.tril(got, -1)
    if low.any() and (np.abs(low - np.tril(want, -1)) > 1e-6 * scale + 1e-300).any():
        return '%s: the covariances are not symmetric' % what


def viewed(v, tree):
    name = {1: 'SingleLevelBreitWigner', 2: 'MultiLevelBreitWigner', 3: 'ReichMoore'}[tree['lrf']]
    u = tree['unresolved']
    if v['kinds'] != [name] + ['Unresolved'] * (u is not None) or v['ckinds'] != [name + 'Covariance']:
        return 'ranges of kinds %s with covariances of kinds %s' % (v['kinds'], v['ckinds'])
    for g in (v['range'], v['cov']['range']):
        if not all(near(a, b) for a, b in zip(g, tree['range'])):
            return 'the range is %s instead of %s' % (g, tree['range'])
    if not near(v['spin'], tree['spin']):
        return 'the spin is %r instead of %r' % (v['spin'], tree['spin'])
    p = table(v['rows'], tree['rows'], tree['columns'], 'MF=2')
    if p:
        return p
    if set(v['radius']) != set(tree['radius']):
        return 'radii for l = %s instead of %s' % (sorted(v['radius']), sorted(tree['radius']))
    for l in tree['radius']:
        for k, n in enumerate(('scattering', 'channel')):
            if not all(near(a, b, 1e-6) for a, b in zip(v['radius'][l][k], tree['radius'][l][k])):
                return 'the %s radius for l = %d is %s instead of %s' % (n, l, v['radius'][l][k], tree['radius'][l][k])
    if u is not None:
        g = v['unresolved']
        for k in ('range', 'background', 'spin', 'radius', 'energies'):
            a, b = g[k], u[k]
            if isinstance(b, list) and a is not None and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b)) or not isinstance(b, list) and a == b:
                continue
            return 'the %s of the unresolved range is %s instead of %s' % (k, a, b)
        want = u['records'] if u['case'] == 'B' else [u['records']]
        if len(g['frames']) != len(want) or any(len(a) != len(b) or any(len(x) != len(y) or not all(near(m, n) for m, n in zip(x, y)) for x, y in zip(a, b)) for a, b in zip(g['frames'], want)):
            return 'the unresolved parameters are %s instead of %s' % (g['frames'], want)
    c = v['cov']
    if c['mpar'] != tree['mpar'] or c['lcomp'] != tree['lcomp']:
        return 'covariances of %d parameters per resonance, LCOMP=%d' % (c['mpar'], c['lcomp'])
    return table(c['file2'], tree['rows'], tree['columns'], 'MF=2 with the covariances') or table(c['rows'], [tree['rows'][k] for k in tree['order']], tree['columns'], 'MF=32') or matrix(c['matrix'], np.array(tree['cov']), 'MF=32')


def same_view(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_view(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def sampled(res, rows, cov, tree, n):
    got = res['samples']
    if len(got) != n:
        return '%d samples instead of %d' % (len(got), n)
    names = tree['names']
    fixed = [c for c in tree['columns'] if c not in names and c != 'totalWidth']
    for k, s in enumerate(got):
        if set(s) != set(tree['columns']) or any(len(s[c]) != len(rows) for c in s):
            return 'sample %d has columns %s and %s resonances' % (k, sorted(s), sorted({len(v) for v in s.values()}))
        for j, x in enumerate(rows):
            for c in fixed:
                if not near(s[c][j], x[c]):
                    return 'sample %d: %s of resonance %d is %r although it has no covariances and is %r' % (k, c, j, s[c][j], x[c])
            if 'totalWidth' in s:
                t = sum(s[c][j] for c in ('neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth'))
                if not near(s['totalWidth'][j], t):
                    return 'sample %d: the total width of resonance %d is %r although its parts give %r' % (k, j, s['totalWidth'][j], t)
    if res['more'] and n > 1 and res['more'][0] == got[0]:
        return 'sampling twice gave the same sample'
    X = np.array([[s[c][j] for j in range(len(rows)) for c in names] for s in got])
    mean = np.array([x[c] for x in rows for c in names])
    sd = np.sqrt(cov.diagonal())
    dead = sd == 0
    scale = np.abs(mean) + sd.max()
    if (np.abs(X - mean)[:, dead] > 1e-6 * scale[dead]).any():
        return 'a parameter without uncertainty was sampled'
    live = ~dead
    if n < 50:
        z = np.abs((X - mean)[:, live] / sd[live])
        return 'a sample is %.1f standard deviations from the evaluation' % z.max() if z.max() > 9 else None
    Z = (X - mean)[:, live] / sd[live]
    if n >= 200:                                                 # one tail may neither be cut off nor folded back
        lacks = (Z.min(axis=0) > -1) | (Z.max(axis=0) < 1) | (sd[live] > 0.8 * np.abs(mean[live])) & ((X[:, live] * np.sign(mean[live])).min(axis=0) > 0)
        if lacks.any():
            return 'a tail of the distribution of parameter %d does not occur in %d samples' % (int(np.argmax(lacks)), n)
    C = cov[np.ix_(live, live)] / np.outer(sd[live], sd[live])
    W = np.linalg.solve(np.linalg.cholesky(C), Z.T)
    m = len(W)
    S = W @ W.T / n

    def limit(k):
        return k + 10 * np.sqrt(2 * k) + 80
    for what, chi, k in (('means', n * (W.mean(axis=1) ** 2).sum(), m), ('variances', n * ((S.diagonal() - 1) ** 2).sum() / 2, m), ('correlations', n * (np.triu(S, 1) ** 2).sum(), m * (m - 1) / 2)):
        if chi > limit(k):
            return 'the %s of %d samples are not those of the evaluation (chi-square %.0f for %d degrees of freedom)' % (what, n, chi, k)
    return None
