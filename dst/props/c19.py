"""C19: decay data, fission yields and atomic masses are those of their sources."""
import copy
import os

from .. import core, gen_decay
from ..oracleb import describe
from ..worlda import job_task, run_world
from .c04 import resolve

ID = 'C19'
BUDGET = {'quick': 4000, 'thorough': 30000}
RULE = ('random process reading 1-3 decay evaluations and fission product yields, asking for atomic masses and weights of the package in between, looking at the same data twice, '
        'under failing and short reads of the evaluations and of the mass table, again after a failure; non-trivial: an operation failed or several things were read in one process; distinct by event trace')
REAL = ['ASAPy.data (decay, data, endf)', 'uncertainties, the mass table of the package']
STUB = ['the raw files below the ENDF reader and of the package (errors, lengths)']
ASSUMPTIONS = ['decays of unknown origin and spontaneous fission have no daughter that is judged', 'independent and cumulative yields are given at the same energies']
WEIGHTS = {'H': 1.008, 'Li': 6.94, 'B': 10.81, 'C': 12.011, 'O': 15.999, 'Cl': 35.45, 'Fe': 55.845, 'Zn': 65.38, 'Zr': 91.224, 'Ag': 107.8682, 'Sn': 118.71, 'Gd': 157.25, 'Os': 190.23, 'Pt': 195.084,
           'Tl': 204.38, 'Pb': 207.2, 'U': 238.0289}
NATURAL = ['C', 'Zn', 'Pt', 'Os', 'Tl']
NUCLIDES = ['H1', 'n1', 'He4', 'C12', 'O16', 'Fe56', 'fe57', 'Zr90', 'Zr96', 'Ag107', 'Xe135', 'Cs137', 'Pb208', 'U235', 'U238', 'Pu239', 'Am242_m1', 'Tc99_m1', 'Bh270', 'Cf252']


# ------------------------------------------------------------------ scenarios
def item(r):
    if r.random() < 0.65:
        stable = r.random() < 0.12
        return {'kind': 'decay', 'seed': r.randrange(10 ** 9), 'm': r.choice([0, 0, 1, 2]), 'stable': stable, 'nospin': r.random() < 0.2, 'long': r.random() < 0.6, 'nmodes': r.choice([0, 1, 1, 2, 3]),
                'nsp': r.choice([0, 1, 2, 4]), 'crlf': r.random() < 0.2}
    sp = r.random() < 0.25
    return {'kind': 'yields', 'seed': r.randrange(10 ** 9), 'm': r.choice([0, 0, 1]), 'spontaneous': sp, 'n': 1 if sp else r.randrange(1, 5), 'crlf': r.random() < 0.2}


def gen(r, i, tier):
    items = [item(r) for _ in range(r.choice([1, 2, 3]))]
    acts = []
    for _ in range(r.choice([1, 2, 3, 4])):
        if r.random() < 0.35:
            k = r.random()
            ask = ['mass', r.choice(NUCLIDES)] if k < 0.25 else ['mass', r.randrange(10 ** 6)] if k < 0.4 else ['name', [r.randrange(0, 119), r.randrange(0, 300), r.choice([0, 0, 1, 2, 11])]] if k < 0.5 else ['mass', r.choice(NATURAL) + '0'] if k < 0.7 else ['weight', r.choice(sorted(WEIGHTS))]
            acts.append({'do': 'ask', 'ask': ask})
        else:
            acts.append({'do': 'read', 'item': r.randrange(len(items)), 'via': r.choice(['file', 'file', 'evaluation', 'class'])})
    sc = {'items': items, 'acts': acts}
    if r.random() < 0.45:
        sc['fault'] = {'who': 'parent', 'pick': 0.0, 'op': r.choice(['any', 'any', 'read', 'open']), 'frac': round(r.random(), 4), 'act': r.choice(['EIO', 'EIO', 'EMFILE', 'short', 'short'])}
        if sc['fault']['act'] == 'short':
            sc['fault']['keepfrac'] = round(r.random() ** 3, 4)
        sc['retry'] = r.random() < 0.7
    return sc


def shrink(sc):
    for k in range(len(sc['acts'])):
        if len(sc['acts']) > 1:
            v = copy.deepcopy(sc)
            del v['acts'][k]
            yield v
    if 'fault' in sc:
        v = copy.deepcopy(sc)
        del v['fault']
        yield v
    for k, s in enumerate(sc['items']):
        for key, val in (('nsp', 0), ('nsp', 1), ('nmodes', 0), ('nmodes', 1), ('long', False), ('m', 0), ('n', 1), ('crlf', False), ('nospin', False)):
            if key in s and s[key] != val and not (isinstance(val, int) and s[key] < val):
                v = copy.deepcopy(sc)
                v['items'][k][key] = val
                yield v


# ------------------------------------------------------------------ execution
def pair(u):
    return [float(u.n), float(u.s)]


def view_decay(d):
    n = d.nuclide
    out = {'nuclide': {k: n[k] for k in n}, 'half_life': pair(d.half_life), 'constant': pair(d.decay_constant), 'means': {k: pair(v) for k, v in d.average_energies.items()}, 'modes': [], 'spectra': {}}
    for m in d.modes:
        out['modes'].append([list(m.modes), m.daughter, pair(m.energy), pair(m.branching_ratio), m.parent])
    for k, s in d.spectra.items():
        x = {'type': s['type'], 'flag': s['continuous_flag'], 'norms': [pair(s[q]) for q in ('discrete_normalization', 'energy_average', 'continuous_normalization')], 'discrete': None, 'continuous': None}
        if 'discrete' in s:
            x['discrete'] = [{q: v if isinstance(v, (str, list)) or v is None else pair(v) for q, v in e.items()} for e in s['discrete']]
        if 'continuous' in s:
            c = s['continuous']
            f = c['probability']
            x['continuous'] = {'type': list(c['type']), 'function': [[float(v) for v in f.x], [float(v) for v in f.y], [int(v) for v in f.breakpoints], [int(v) for v in f.interpolation]],
                               'lb': c.get('covariance_lb'), 'covariance': [[float(v) for v in p] for p in c['covariance']] if 'covariance' in c else None}
        out['spectra'][k] = x
    return out


def view_yields(y):
    return {'nuclide': dict(y.nuclide), 'energies': [float(e) for e in y.energies], 'independent': [{k: pair(v) for k, v in d.items()} for d in y.independent],
            'cumulative': [{k: pair(v) for k, v in d.items()} for d in y.cumulative]}


def nuclide(n, table):
    return sorted(table)[n % len(table)] if isinstance(n, int) else n


def execute(sc, root, table, faults=()):
    w = core.World(root, faults=faults, step_limit=60000)
    w.mounts = {os.path.join(os.path.abspath(core.REPO), 'ASAPy', 'data', 'mass.mas12'): 'package/mass.mas12'}
    w.readonly = {'i%d.endf' % j for j in range(len(sc['items']))} | set(w.mounts.values())
    w.kill_others_on_failure = False
    done = []

    def work():
        from ASAPy.data import data
        from ASAPy.data.decay import Decay, FissionProductYields
        from ASAPy.data.endf import Evaluation
        for a in sc['acts']:
            for attempt in (0, 1):
                before = len([x for x in w.fired if x[0] != 'short'])
                done.append([a, None, None, True, None])
                loaded = False
                try:
                    if a['do'] == 'ask':
                        w.log.append([0, a['ask'][0], a['ask'][1]])
                        if a['ask'][0] == 'name':
                            x = data.gnd_name(*a['ask'][1])
                            res = [x, list(data.zam(x))]
                        else:
                            res = [float(getattr(data, 'atomic_' + a['ask'][0])(nuclide(a['ask'][1], table)))]
                        loaded = True
                    else:
                        s = sc['items'][a['item']]
                        p = os.path.join(root, 'i%d.endf' % a['item'])
                        make, view = (Decay, view_decay) if s['kind'] == 'decay' else (FissionProductYields, view_yields)
                        x = make(Evaluation(p)) if a['via'] == 'evaluation' else make(p) if a['via'] == 'file' else make.from_endf(p)
                        loaded = True
                        res = [view(x), view(x)]
                        w.log.append([0, s['kind'], res[0]['nuclide']['name']])
                    err = None
                except Exception as e:
                    res, err = None, '%s: %s' % (type(e).__name__, str(e)[:200])
                hit = not loaded and len([x for x in w.fired if x[0] != 'short']) > before
                done[-1][1:] = [err is None, err, hit, res]
                if err is None or not hit or not sc.get('retry'):
                    break
        return True
    t = job_task(w, work, 5)
    run_world(w, root)
    return w, t, done


def run(sc, ctx):
    root = ctx.fresh('r')
    trees = []
    for j, s in enumerate(sc['items']):
        text, tree = getattr(gen_decay, s['kind'])(s)
        with open(os.path.join(root, 'i%d.endf' % j), 'w', newline='') as f:
            f.write(text)
        trees.append(tree)
    table = gen_decay.masses(os.path.join(os.path.abspath(core.REPO), 'ASAPy', 'data', 'mass.mas12'))
    faults = []
    if sc.get('fault'):
        w0 = execute(sc, root, table)[0]
        ctx.add(w0, 'undisturbed')
        faults = resolve([sc['fault']], w0)
    w, t, done = execute(sc, root, table, faults)
    ctx.add(w, 'process')
    where = 'the process%s' % (' with ' + describe(faults) if w.fired else '')
    if t.status != 'ok':
        ctx.bad('no-end', '%s: %s %r' % (where, t.status, t.error))
        return
    ctx.nontrivial = bool([x for x in w.fired if x[0] != 'short']) or len(done) > 1
    for a, ok, err, hit, res in done:
        d = '%s: %s' % (where, 'the atomic %s of %s' % tuple(a['ask']) if a['do'] == 'ask' else '%s of evaluation %d' % (sc['items'][a['item']]['kind'], a['item']))
        if not ok:
            ctx.probes['failed'] += 1
            if not hit:
                ctx.bad('failed', '%s cannot be had although nothing was wrong: %s' % (d, err))
                return
            continue
        if a['do'] == 'ask':
            what, n = a['ask'][0], nuclide(a['ask'][1], table)
            if what == 'name':
                if res != [gen_decay.name(*n), n]:
                    ctx.bad('name', '%s is %s instead of %s' % (d, res, [gen_decay.name(*n), n]))
                    return
                continue
            natural = WEIGHTS[n.rstrip('0')] if what == 'weight' or n[-1] == '0' and n[:-1] in NATURAL else None
            m = n.split('_')[0]
            want = natural or table[m[0].upper() + m[1:] if m != 'n1' else m]
            if abs(res[0] - want) > (1.2e-3 if natural else 1e-12) * want:
                ctx.bad('mass', '%s is %r instead of %r' % (d, res[0], want))
                return
            ctx.probes['asked'] += 1
            continue
        tree = trees[a['item']]
        for k, got in enumerate(res):
            p = (decay if sc['items'][a['item']]['kind'] == 'decay' else yields)(got, tree)
            if p:
                ctx.bad('content', '%s%s: %s' % (d, ', seen a second time' if k else '', p))
                return
        ctx.probes['compared'] += 1


def near(a, b):
    return len(a) == len(b) and all(x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y)) for x, y in zip(a, b))


def same(what, a, b):
    if isinstance(b, dict):
        if not isinstance(a, dict) or set(a) != set(b):
            return '%s: %s instead of %s' % (what, sorted(a) if isinstance(a, dict) else a, sorted(b))
        for k in b:
            p = same('%s %s' % (what, k), a[k], b[k])
            if p:
                return p
        return None
    if isinstance(b, list):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            return '%s is %s instead of %s' % (what, a, b)
        for x, y in zip(a, b):
            p = same(what, x, y)
            if p:
                return p
        return None
    if isinstance(b, float):
        return None if isinstance(a, (int, float)) and near([a], [b]) else '%s is %r instead of %r' % (what, a, b)
    return None if a == b else '%s is %r instead of %r' % (what, a, b)


def decay(g, t):
    p = same('nuclide', g['nuclide'], t['nuclide'])
    if p:
        return p
    h = t['half_life']
    if h is None:
        if g['half_life'][0] != float('inf') or g['constant'][0] != 0 or g['modes'] or g['spectra']:
            return 'stable, but half-life %s, constant %s' % (g['half_life'], g['constant'])
        return None
    c = 0.6931471805599453 / h[0]
    if len(g['modes']) != len(t['modes']):
        return '%d modes instead of %d' % (len(g['modes']), len(t['modes']))
    for k, (a, b) in enumerate(zip(g['modes'], t['modes'])):
        p = same('mode %d' % k, [a[0]] + a[2:], [b[0]] + b[2:] + [t['nuclide']['name']]) or b[1] is not None and same('daughter of mode %d (%s)' % (k, ', '.join(b[0])), a[1], b[1])
        if p:
            return p
    return same('half-life', g['half_life'], h) or same('decay constant', g['constant'], [c, c * h[1] / h[0]]) or same('mean energies', g['means'], t['means']) or \
        same('spectra', g['spectra'], {k: dict(x, type=k) for k, x in t['spectra'].items()})


def yields(g, t):
    return same('yields', g, t)
