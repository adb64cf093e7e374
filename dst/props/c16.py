"""C16: data made from an evaluation through NJOY: what NJOY wrote in this run, or an error."""
import copy
import json
import os
import shutil

import numpy as np

from .. import core, gen_endf, gen_lib, njoysim, popen, worlda
from ..oracleb import describe
from .c04 import resolve
from .c13 import THERMAL, plan
from .c15 import contents, neutron_spec, thermal_spec

ID = 'C16'
BUDGET = {'quick': 1000, 'thorough': 20000}
RULE = ('random history of 1-5 processes in a folder: neutron data or thermal scattering data made from evaluations through NJOY at 1-3 temperatures (with '
        'heating, probability tables, energy release of fission), exported to HDF5, read back; programs that fail, omit tapes or talk a lot, failing, short or '
        'torn file operations and kills in parent or program; non-trivial: a program was started; distinct by event trace')
REAL = ['ASAPy.data (IncidentNeutron.from_njoy, ThermalScattering.from_njoy, FissionEnergyRelease.from_endf, njoy, endf, ace, export and import)', 'h5py and the HDF5 library', 'shutil and tempfile on a scratch folder']
STUB = ['NJOY (reads the real deck card by card; its ACE and PENDF tapes are synthetic tables that follow from the run, the evaluation, the temperature and the modules used)',
        'subprocess.Popen and pipes', 'raw file layer']
ASSUMPTIONS = ['NJOY behaves as its manual says for the modules used; the physics of its numbers is not modelled', 'one process at a time works in the folder']
# the nuclides as (index in gen_lib.NUCLIDES, Z, A, isomeric state)
NUCLIDES = [(k, n[3], n[4], n[5]) for k, n in enumerate(gen_lib.NUCLIDES) if n[0] in (1001, 8016, 26056, 47510, 92235, 94239, 27458)]
MATERIALS = {1: 'H_in_H2O', 2: 'para_H', 3: 'ortho_H', 5: 'H_in_YH2', 7: 'H_in_ZrH', 8: 'H_in_CaH2', 10: 'H_in_H2O_solid', 11: 'D_in_D2O', 12: 'para_D', 13: 'ortho_D', 26: 'Be',
             27: 'Be_in_BeO', 31: 'Graphite', 33: 'H_in_CH4_liquid', 34: 'H_in_CH4_solid', 37: 'H_in_CH2', 39: 'H_in_C5O2H8', 40: 'C6H6', 41: 'O_in_D2O', 43: 'Si_in_SiC',
             44: 'C_in_SiC', 46: 'O_in_BeO', 47: 'SiO2_alpha', 48: 'U_in_UO2', 49: 'SiO2_beta', 50: 'O_in_H2O_ice', 52: 'Mg24', 53: 'Al27', 55: 'Y_in_YH2', 56: 'Fe56',
             58: 'Zr_in_ZrH', 59: 'Ca_in_CaH2', 75: 'O_in_UO2'}
ISOTOPES = {'Be': [9], 'C': [12, 13], 'O': [16, 17, 18], 'Si': [28, 29, 30], 'U': [234, 235, 238], 'Mg': [24, 25, 26], 'Al': [27], 'Y': [89], 'Zr': [90, 91, 92, 94, 96],
            'Ca': [40, 42, 43, 44, 46, 48]}
SYMBOL = {1: 'H', 4: 'Be', 6: 'C', 8: 'O', 12: 'Mg', 13: 'Al', 14: 'Si', 20: 'Ca', 26: 'Fe', 39: 'Y', 40: 'Zr', 92: 'U'}
TEMPS = [0.0, 293, 293.6, 300.0, 600.0, 900.5, 1200.25, 2400]


def nuclides_of(zaids):
    out = []
    for z in zaids:
        e = SYMBOL[z // 1000]
        for n in [e + str(z % 1000)] if e in ('H', 'Fe') else [e + '0'] + [e + str(a) for a in ISOTOPES[e]]:
            if n not in out:
                out.append(n)
    return out


# ------------------------------------------------------------------ scenarios
def neutron_item(r):
    s = neutron_spec(r)
    k, Z, A, m = r.choice(NUCLIDES)
    s.update(nuclide=k, orphans=False, photon_seed=r.randrange(10 ** 9))
    e = gen_endf.random_spec(r, cov=False)
    e.update(Z=Z, A=A, liso=m, fiss=s['fission'], sections=[x for x in e['sections'] if x[1] != 18])
    if s['fission'] and r.random() < 0.7:
        n = r.choice([1, 1, 1, 2, 3])
        co = {str(j): [float('%.4e' % r.uniform(1e5, 2e8))] for j in range(1, 10)}
        big = r.random() < 0.3                               # second-order coefficients left in MeV, see ASAPy.data.fission_energy
        for j in co:
            if n > 1:
                co[j].append(float('%.4e' % r.uniform(-0.9, 0.9)))
            if n > 2:
                co[j].append(float('%.4e' % (r.uniform(-3e-7, 3e-7) * (1e4 if big and r.random() < 0.5 else 1))))
        tabs = []
        for j in sorted(r.sample([1, 2, 3, 4, 5, 6, 7, 8, 9], r.choice([0, 0, 1, 2, 3]))):
            x = [1e-5] + sorted(r.sample([1.0, 2.5e5, 1e6, 4e6, 1.4e7], r.randrange(0, 4))) + [2e7]
            tabs.append([j, [x, [float('%.4e' % r.uniform(1e5, 2e8)) for _ in x]]])
        e['release'] = {'coeffs': co, 'tabs': tabs}
    s['endf'] = e
    return s


def thermal_item(r):
    s = thermal_spec(r)
    s.pop('as', None)
    e = gen_endf.random_spec(r, cov=False)
    e.update(mat=r.choice(sorted(THERMAL)), liso=0, fiss=False, sections=[], nsub=12,
             thermal={'temps': sorted(r.sample([293.6, 296.0, 350.0, 400.0, 600.0, 1200.0], r.choice([1, 2, 3]))), 'elastic': r.choice([None, 1, 2]),
                      'emax': r.choice([4.95, 1.855, 10.0]), 'natom': r.choice([1, 2]), 'nalpha': r.randrange(2, 15), 'nreg': r.choice([1, 2]), 'ns': r.choice([0, 1]), 'nbeta': 2})
    s['endf'] = e
    return s


def fault(r, child=True):
    f = {'who': 'parent' if r.random() < 0.8 or not child else 'child', 'pick': round(r.random(), 4), 'op': r.choice(['any', 'any', 'open', 'write', 'close', 'read', 'unlink', 'rename', 'truncate']),
         'frac': round(r.random() if r.random() < 0.5 else 1 - 0.4 * r.random(), 6), 'act': r.choice(['EIO', 'ENOSPC', 'EMFILE', 'EACCES', 'EDQUOT', 'short', 'kill', 'kill'])}
    if f['act'] == 'kill' and r.random() < 0.3:
        f['all'] = True
    if r.random() < 0.6:
        f['keepfrac'] = round(r.random(), 4)
    return f


def gen(r, i, tier):
    items = [neutron_item(r) for _ in range(r.choice([1, 1, 2]))] + ([thermal_item(r)] if r.random() < 0.5 else [])
    if r.random() < 0.15:
        items = [thermal_item(r)] + items[:1]
    steps = []
    for k in range(r.choice([1, 1, 2, 3])):
        j = r.randrange(len(items))
        s = {'do': 'make', 'item': j, 'temps': r.sample(TEMPS, r.choice([1, 1, 2, 3])) if r.random() < 0.85 else None, 'heatr': r.random() < 0.7, 'purr': r.random() < 0.7,
             'abs': r.random() < 0.3, 'input': r.choice([None, None, 'deck.txt']), 'stdout': r.random() < 0.3, 'plan': plan(r) if r.random() < 0.35 else {},
             'sched': [r.choice([0, 1]) for _ in range(r.choice([0, 30, 200]))], 'cap': r.choice([64, 4096, 65536]),
             'path': '%s%d.h5' % (items[j]['kind'], j) if r.random() < 0.7 else None}
        if r.random() < 0.35:
            s['fault'] = fault(r)
        steps.append(s)
        if s['path'] and r.random() < 0.8:
            v = {'do': 'load', 'item': j, 'path': s['path']}
            if r.random() < 0.15:
                v['fault'] = fault(r, False)
            steps.append(v)
    return {'items': items, 'steps': steps, 'seed': r.randrange(10 ** 9), 'tapeid': r.random() < 0.8}


def shrink(sc):
    for k in range(len(sc['steps'])):
        if len(sc['steps']) > 1:
            v = copy.deepcopy(sc)
            del v['steps'][k]
            yield v
    for k, s in enumerate(sc['steps']):
        if 'fault' in s:
            v = copy.deepcopy(sc)
            del v['steps'][k]['fault']
            yield v
        for q in s.get('plan', {}):
            if q != 'die_how':
                v = copy.deepcopy(sc)
                del v['steps'][k]['plan'][q]
                yield v
        for key, val in (('sched', []), ('heatr', False), ('purr', False), ('path', None), ('input', None), ('stdout', False), ('abs', False)):
            if s['do'] == 'make' and s[key] != val:
                v = copy.deepcopy(sc)
                v['steps'][k][key] = val
                yield v
        if len(s.get('temps') or []) > 1:
            for j in range(len(s['temps'])):
                v = copy.deepcopy(sc)
                del v['steps'][k]['temps'][j]
                yield v
    for k, s in enumerate(sc['items']):
        for m in s.get('mts', []):
            if m not in gen_lib.FISSION:
                v = copy.deepcopy(sc)
                v['items'][k]['mts'].remove(m)
                yield v
        for key, val in (('photons', 0), ('urr', False), ('delayed', 0), ('elastic', None), ('n', 6)):
            if s.get(key, val) != val:
                v = copy.deepcopy(sc)
                v['items'][k][key] = val
                yield v
        if s['endf'].get('release'):
            v = copy.deepcopy(sc)
            del v['items'][k]['endf']['release']
            yield v
            for j in range(len(s['endf']['release']['tabs'])):
                v = copy.deepcopy(sc)
                del v['items'][k]['endf']['release']['tabs'][j]
                yield v


# ------------------------------------------------------------------ the simulated NJOY and what follows from it
def seed_of(*a):
    return core.derive('c16', *[str(x) for x in a]) % 10 ** 12


def neutron_table(item, nonce, h, T, mods, suffix, za):
    spec = {k: v for k, v in item.items() if k not in ('endf', 'kind')}
    spec.update(T=T, seed=seed_of(nonce, h, T, *mods), ext=suffix + 'c', urr=item['urr'] and 'purr' in mods, zaid=za)
    return gen_lib.neutron(spec)


def thermal_table(item, nonce, h, T, suffix, extra):
    name, zaids = json.loads(extra)[1:3]
    mat = [m for m in THERMAL if THERMAL[m][0] == name]
    spec = {k: v for k, v in item.items() if k not in ('endf', 'kind')}
    spec.update(T=T, seed=seed_of(nonce, h, T, extra), ext=suffix + 't', custom=[name, 'c_' + MATERIALS[mat[0]] if mat else '?', zaids, nuclides_of(zaids) if mat else []])
    return gen_lib.thermal(spec)


def pendf(item, nonce, h):
    e = item['endf']
    sp = dict(e, sections=[[3, 1, 5], [3, 2, 4 + seed_of('n', nonce, h) % 9], [3, 102, 3]], seed=seed_of('pendf', nonce, h) % 10 ** 9, nreg=1, text=1, thermal=None, release=None)
    text, models = gen_endf.build([sp])
    n = models[0]['numbers'][3, 2]
    return text, [[gen_endf.fv(v) for v in n['x']], [gen_endf.fv(v) for v in n['y']]]


class Njoy(njoysim.Njoy):
    """NJOY whose tapes for the reader are real tables."""

    def __init__(self, nonce, plan, neutron, thermal):
        super().__init__(nonce, plan, self.make)
        self.neutron, self.thermal, self.mem = neutron, thermal, {}

    def make(self, nj, h, mat, T, sfx, za, d, extra=None):
        if extra is None:
            return neutron_table(self.neutron, self.nonce, h, T, d['mods'], sfx, za)[0]
        return thermal_table(self.thermal, self.nonce, h, T, sfx, extra)[0]

    def put(self, c, n, d, role=None):
        n = abs(int(n))
        self.mem.pop(n, None)
        if isinstance(d, dict) and d['k'] == 'pendf' and d['mods'] == ['reconr'] and self.neutron is not None:
            self.mem[n] = d
            d = pendf(self.neutron, self.nonce, d['h'])[0]
        super().put(c, n, d, role)

    def get(self, c, n):
        d = super().get(c, n)
        return self.mem.get(abs(int(n)), d)


def release_tree(rel, tree):
    co = {p: rel['coeffs'][str(k + 1)] for k, p in enumerate(gen_lib.PARTS)}
    out = {}
    for p, c in co.items():
        if len(c) == 1:
            if p == 'prompt_neutrons':
                m = 18 if 18 in tree['reactions'] and not tree['reactions'][18]['redundant'] else 19
                y = [q['yield'] for q in tree['reactions'][m]['products'] if q['particle'] == 'neutron' and q['mode'] != 'delayed'][0]
                if y[0] == 'poly':
                    nu = y[1] + [0.0]
                    f = ['poly', [c[0], 1.307 - 8.07e6 * nu[1]] + [-8.07e6 * v for v in nu[2:-1]]]
                else:
                    f = ['tab', y[1], [c[0] + 1.307 * e - 8.07e6 * (v - y[2][0]) for e, v in zip(y[1], y[2])]]
            else:
                f = ['poly', c + {'delayed_photons': [-0.075], 'betas': [-0.075], 'neutrinos': [-0.105]}.get(p, [])]
        else:
            f = ['poly', c[:2] + [v / 1e6 if abs(v) * 25e12 > 1e8 else v for v in c[2:]]]
        out[p] = f
    for j, (x, y) in rel['tabs']:
        if j <= len(gen_lib.PARTS):
            out[gen_lib.PARTS[j - 1]] = ['tab', x, y]
    x = ([f[1] for f in out.values() if f[0] == 'tab'] + [[1e6, 2e6]])[0]
    # sums are kept at the points of all their tabulated parts together and are linear in between
    sums = {}
    for s, (ps, k) in gen_lib.TOTALS.items():
        grid = sorted({v for p in ps if out[p][0] == 'tab' for v in out[p][1]})

        def at(u):
            return sum((np.interp(u, out[p][1], out[p][2]) if out[p][0] == 'tab' else sum(c * u ** i for i, c in enumerate(out[p][1]))) for p in ps) + k * u
        sums[s] = gen_lib.L(np.interp(x, grid, at(np.array(grid))) if grid else at(np.array(x)))
    return {'parts': out, 'x': x, 'sums': sums}


def usable_release(rel, tree):
    """The formula for single coefficients needs nu, given by a polynomial or linearly interpolated."""
    if len(rel['coeffs']['1']) > 1:
        return True
    m = 18 if 18 in tree['reactions'] and not tree['reactions'][18]['redundant'] else 19
    if m not in tree['reactions']:
        return False
    y = [q['yield'] for q in tree['reactions'][m]['products'] if q['particle'] == 'neutron' and q['mode'] != 'delayed']
    return len(y) == 1 and (y[0][0] == 'poly' or set(y[0][4]) == {2} or 2 in [j for j, _ in rel['tabs']])


def expected(sc, step, texts, nonce):
    """(tree of the object, 0 K elastic cross section or None)."""
    item = sc['items'][step['item']]
    h, _ = njoysim.endf_info(texts[step['item']])
    if item['kind'] == 'n':
        temps = step['temps'] if step['temps'] is not None else [293.6]
        mods = ['reconr', 'broadr'] + (['heatr'] if step['heatr'] else []) + (['purr'] if step['purr'] else [])
        e = item['endf']
        tree = gen_lib.merge([neutron_table(item, nonce, h, float(T), mods, '%02d' % (k + 1), 1000 * e['Z'] + e['A'])[1] for k, T in enumerate(temps)])
        tree['release'] = release_tree(e['release'], tree) if e.get('release') and usable_release(e['release'], tree) else None
        return tree, None if '0K' in tree['energy'] else pendf(item, nonce, h)[1], bool(e.get('release')) and not tree['release']
    th = item['endf']['thermal']
    temps = step['temps'] if step['temps'] is not None else th['temps']
    name, zaids, nmix = THERMAL[item['endf']['mat']]
    k = [j for j, x in enumerate(sc['items']) if x['kind'] == 'n']
    hn, _ = njoysim.endf_info(texts[k[0] if k else 'host'])
    el = th['elastic']
    opts = [222, 64, 223 if el else 0, el - 1 if el else 0, nmix, th['emax'], 2]
    extra = njoysim.thermal_extra(h, name, zaids[:3], opts, 1 if el else 0, th['natom'], th['emax'], ['reconr', 'broadr', 'thermr221', 'thermr222'])
    return gen_lib.merge_thermal([thermal_table(item, nonce, hn, float(T), '%02d' % (j + 1), extra)[1] for j, T in enumerate(temps)]), None, False


# ------------------------------------------------------------------ execution
def materialise(sc, root):
    texts = {}
    items = dict(enumerate(sc['items']))
    if not any(s['kind'] == 'n' for s in sc['items']):
        items['host'] = {'endf': {'mat': 125, 'Z': 1, 'A': 1, 'liso': 0, 'fiss': False, 'lib': [0, 8, 0], 'nsub': 10, 'text': 1, 'sections': [[3, 1, 3]], 'seed': sc['seed']}}
    for k, s in items.items():
        texts[k] = gen_endf.build([s['endf']], sc['tapeid'])[0]
        with open(os.path.join(root, 'e%s.endf' % k), 'w', newline='') as f:
            f.write(texts[k])
    os.makedirs(os.path.join(root, 'work'))
    return texts


def trees_of(kind):
    if kind == 'n':
        from ASAPy.data.neutron import IncidentNeutron

        def of(d):
            t = gen_lib.of_neutron(d)
            t['release'] = gen_lib.of_release(d.fission_energy) if d.fission_energy is not None else None
            zero = None
            if '0K' in d.energy and '0K' not in d.temperatures:
                e = t['energy'].pop('0K')
                f = d[2].xs['0K']
                zero = [e, gen_lib.L(f.x), gen_lib.L(f.y), [int(v) for v in f.interpolation], [int(v) for v in f.breakpoints]]
                for m in t['reactions']:
                    v = t['reactions'][m]['xs'].pop('0K', None)
                    t['dense'][m].pop('0K', None)
                    if m != 2 and v is not None and m not in (1, 3, 4, 16, 18, 27, 101, 103, 104, 105, 106, 107):
                        zero.append('MT %d' % m)
            return t, zero
        return IncidentNeutron, of
    from ASAPy.data.thermal import ThermalScattering
    return ThermalScattering, lambda d: (gen_lib.of_thermal(d), None)


def execute(sc, step, root, nonce, faults=()):
    item = sc['items'][step['item']]
    k = [j for j, x in enumerate(sc['items']) if x['kind'] == 'n']
    work = os.path.join(root, 'work')
    neutron = item if item['kind'] == 'n' else None
    nj = Njoy(nonce, step.get('plan'), neutron, item)
    w = popen.world(root, {'njoy': nj, '/sim/bin/njoy': nj}, pipe_capacity=step.get('cap', 4096), sched=step.get('sched', []), faults=faults, step_limit=60000)
    w.readonly = {n for n in os.listdir(root) if n.endswith('.endf')}

    def make():
        C, of = trees_of(item['kind'])
        kw = {'stdout': step['stdout']}
        if step['abs']:
            kw['njoy_exec'] = '/sim/bin/njoy'
        if step['input']:
            kw['input_filename'] = os.path.join(work, step['input']) if step['abs'] else step['input']
        temps = copy.deepcopy(step['temps'])
        if item['kind'] == 'n':
            d = C.from_njoy(os.path.join(root, 'e%d.endf' % step['item']), temps, heatr=step['heatr'], purr=step['purr'], **kw)
        else:
            d = C.from_njoy(os.path.join(root, 'e%s.endf' % (k[0] if k else 'host')), os.path.join(root, 'e%d.endf' % step['item']), temps, **kw)
        tree = of(d)
        if step['path']:
            d.export_to_hdf5(os.path.join(work, step['path']) if step['abs'] else step['path'], 'w')
        return tree

    def load():
        C, of = trees_of(item['kind'])
        return of(C.from_hdf5(step['path']))
    t = worlda.job_task(w, make if step['do'] == 'make' else load, 16)
    worlda.run_world(w, work)
    return w, t, nj


def differs(kind, got, want, zero, back):
    tree, z = got
    if kind != 'n':
        return gen_lib.diff(tree, want)
    d = gen_lib.neutron_differs(tree, want, back)
    if d:
        return d
    if (z is None) != (zero is None):
        return 'the 0 K elastic cross section is %s' % ('missing' if z is None else 'there although 0 K was asked for')
    if z is not None:
        return gen_lib.diff(z, [zero[0], zero[0], zero[1], [2], [len(zero[0])]], '0 K elastic')
    return None


def run(sc, ctx):
    root = ctx.fresh('r')
    texts = materialise(sc, root)
    work = os.path.join(root, 'work')
    files = {}                        # path: None | (tree, zero) | ('partial', tree, zero) | 'unknown'
    for k, step in enumerate(sc['steps']):
        item = sc['items'][step['item']]
        nonce = '%d.%d' % (sc['seed'], k)
        faults = []
        if step.get('fault'):
            twin = ctx.fresh('twin')
            shutil.rmtree(twin)
            shutil.copytree(root, twin)
            w0 = execute(sc, step, twin, nonce)[0]
            ctx.add(w0, 'undisturbed')
            faults = resolve([step['fault']], w0)
        target = step['path'] if step['do'] == 'make' else None
        before = {n: contents(os.path.join(work, n)) for n in os.listdir(work)}
        tmp = os.path.join(root, 'tmp')
        tmp_before = os.listdir(tmp) if os.path.isdir(tmp) else []
        w, t, nj = execute(sc, step, root, nonce, faults)
        ctx.add(w, step['do'])
        ctx.nontrivial |= bool(w.children)
        d = 'process %d (%s)%s' % (k + 1, '%s from NJOY' % item['kind'] if step['do'] == 'make' else 'read ' + step['path'], ' with ' + describe(faults) if w.fired else '')
        if w.deadlock or any(x.status == 'steplimit' for x in w.tasks):
            ctx.bad('no-end', '%s does not end: %s' % (d, w.deadlock))
            return
        for n, txt in texts.items():
            with open(os.path.join(root, 'e%s.endf' % n), newline='') as f:
                if f.read() != txt:
                    ctx.bad('input', '%s changed the evaluation e%s.endf' % (d, n))
                    return
        for n in sorted(set(before) | set(os.listdir(work))):
            if n not in (target, step.get('input')) and contents(os.path.join(work, n)) != before.get(n):
                ctx.bad('other-file', '%s changed or left %s' % (d, n))
                return
        ok = t.status == 'ok'
        hard = [x for x in w.fired if x[0] != 'short']
        ctx.probes['%s_%s' % (step['do'], 'ok' if ok else 'failed')] += 1
        if step['do'] == 'load':
            st = files.get(step['path'])
            if st == 'unknown':
                continue
            if st is None:
                if ok:
                    ctx.bad('content', '%s: data are returned although there are none' % d)
                    return
                continue
            if not ok:
                if not hard and st[0] != 'partial':
                    ctx.bad('failed', '%s failed although nothing was wrong: %s: %s' % (d, t.status, repr(t.error)[:300]))
                    return
                continue
            p = differs(item['kind'], t.result, gen_lib.exported(st[-2]) if item['kind'] == 'n' else st[-2], st[-1], True)
            if p:
                ctx.bad('content', '%s: %s' % (d, p))
                return
            ctx.probes['compared'] += 1
            continue
        want, zero, unusable = expected(sc, step, texts, nonce)
        if nj.report.get('deck_error') and not any(x[0] != 'omit' and x[1] != 'program' for x in w.fired):
            ctx.bad('deck', '%s: NJOY cannot use its input: %s' % (d, nj.report['deck_error']))
            return
        if ok:
            codes = [getattr(c, 'exit_code', -9) for c in w.children]
            if any(codes) or not codes:
                ctx.bad('false-success', '%s reported success although NJOY ended with %s' % (d, codes))
                return
            if nj.report.get('omitted'):
                ctx.bad('false-success', '%s reported success although NJOY wrote no %s' % (d, nj.report['omitted'][0]))
                return
            if unusable:
                if t.result[0]['release'] is None:
                    ctx.bad('data', '%s: the energy release of fission is missing' % d)
                    return
                t.result[0]['release'] = None
            p = differs(item['kind'], t.result, want, zero, False)
            if p:
                ctx.bad('data', '%s: %s' % (d, p))
                return
            left = [n for n in os.listdir(tmp) if n not in tmp_before]
            if left:
                ctx.bad('leftover', '%s left %s' % (d, left))
                return
            ctx.probes['made_compared'] += 1
            if target:
                files[target] = (want, zero) if not unusable else 'unknown'
        else:
            if not w.fired and not step['plan'].get('omit') and not unusable:
                ctx.bad('failed', '%s failed although nothing was wrong: %s: %s' % (d, t.status, repr(t.error)[:300]))
                return
            if target and contents(os.path.join(work, target)) != before.get(target):
                files[target] = ('partial', want, zero) if t.status == 'killed' else 'unknown'
