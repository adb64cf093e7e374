"""Synthetic photo-atomic data (ACE tables, ENDF evaluations) with known content, and what an exported
library entry has to hold, as a tree of plain values."""
import math
import os
import random

import numpy as np

from . import core, gen_endf
from .gen_ace import q
from .gen_endf import cont, fv, lst, tab1
from .gen_lib import EV, Xss, body, header

SHELLS = ('K L1 L2 L3 M1 M2 M3 M4 M5 N1 N2 N3 N4 N5 N6 N7 O1 O2 O3 O4 O5 O6 O7 O8 O9 '
          'P1 P2 P3 P4 P5 P6 P7 P8 P9 P10 P11 Q1 Q2 Q3').split()
ELEMENTS = {1: 'H', 2: 'He', 6: 'C', 7: 'N', 8: 'O', 13: 'Al', 26: 'Fe', 40: 'Zr', 47: 'Ag', 79: 'Au', 82: 'Pb', 92: 'U', 94: 'Pu', 98: 'Cf', 99: 'Es', 100: 'Fm'}
X_COH = [0.0, 0.01, 0.02, 0.03, 0.04, 0.05, 0.06, 0.08, 0.1, 0.12, 0.15, 0.18, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.3, 1.4, 1.5,
         1.6, 1.7, 1.8, 1.9, 2.0, 2.2, 2.4, 2.6, 2.8, 3.0, 3.2, 3.4, 3.6, 3.8, 4.0, 4.2, 4.4, 4.6, 4.8, 5.0, 5.2, 5.4, 5.6, 5.8, 6.0]
X_INC = [0.0, 0.005, 0.01, 0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 8.0]


# ------------------------------------------------------------------ tabulated functions, restated
def value(f, x):
    """Possible values of the tabulated function f = (x, y, breakpoints, schemes) at x."""
    xs, ys, bp, it = f
    if x < xs[0] or x > xs[-1]:
        return [0.0]
    same = [ys[i] for i, v in enumerate(xs) if v == x]
    if same:
        return same
    i = max(k for k, v in enumerate(xs) if v < x)
    s = it[[k for k, b in enumerate(bp) if i + 1 < b][0]]
    a, b, u, v = xs[i], xs[i + 1], ys[i], ys[i + 1]
    if s == 1:
        return [u]
    if s == 2:
        return [u + (v - u) * (x - a) / (b - a)]
    if s == 3:
        return [u + (v - u) * math.log(x / a) / math.log(b / a)]
    if s == 4:
        return [u * (v / u) ** ((x - a) / (b - a))]
    return [u * (v / u) ** (math.log(x / a) / math.log(b / a))]


def integral(f):
    """Integrals from the first point to every point."""
    xs, ys, bp, it = f
    out = [0.0]
    for i in range(len(xs) - 1):
        s = it[[k for k, b in enumerate(bp) if i + 1 < b][0]]
        a, b, u, v = xs[i], xs[i + 1], ys[i], ys[i + 1]
        if s == 1:
            d = u * (b - a)
        elif s == 2:
            d = (u + v) / 2 * (b - a)
        elif s == 3:
            m = (v - u) / math.log(b / a)
            d = u * (b - a) + m * (b * math.log(b / a) - b + a)
        elif s == 4:
            d = (v - u) / math.log(v / u) * (b - a) if u != v else u * (b - a)
        else:
            m = math.log(v / u) / math.log(b / a)
            z = (m + 1) * math.log(b / a)
            d = u * a * math.log(b / a) * (math.expm1(z) / z if z else 1.0)
        out.append(out[-1] + d)
    return out


# ------------------------------------------------------------------ ACE
def shells_of(r, Z):
    most = 1 if Z <= 2 else 4 if Z <= 10 else 7 if Z <= 18 else 16 if Z <= 54 else 39
    n = r.randrange(1, most + 1) if r.random() < 0.5 else min(most, r.choice([1, 2, 3, 5]))
    return sorted(r.sample(range(1, most + 1), n)) if r.random() < 0.4 else list(range(1, n + 1))


def transitions(r, shells, own, num):
    """Rows (second shell, third shell or 0, energy in eV, probability)."""
    later = [s for s in shells if s > own]
    n = r.choice([0, 1, 2, 3, 5]) if later else 0
    p = [r.uniform(0.1, 1) for _ in range(n)]
    t = sum(p) / r.uniform(0.5, 1) if p else 1
    return [[r.choice(later), r.choice([0, r.choice(later)]), num(10 ** r.uniform(1, 5)), num(v / t)] for v in p]


def ace(spec):
    """The text of an ACE table, and what it holds."""
    r = random.Random('photon %d' % spec['seed'])
    Z, n = spec['Z'], spec['n']
    X, nxs, jxs = Xss(), [0] * 17, [0] * 33
    logs = [q(math.log(1e-6) + math.log(1e11) * (k + (r.uniform(0.2, 0.8) if 0 < k < n - 1 else 0)) / (n - 1)) for k in range(n)]
    energy = [math.exp(v) * EV for v in logs]

    def xs(first):
        """n logarithms of cross sections, zero below the threshold."""
        out = [0.0] * first + [q(r.uniform(-20, 8)) for _ in range(n - first)]
        return [v if v or k < first else 0.5 for k, v in enumerate(out)]

    def func(l, first):
        return [energy, [0.0 if k < first else math.exp(v) for k, v in enumerate(l)], [n], [5]]
    jxs[1] = 1
    nxs[1:5] = [0, Z, n, 4]
    X.put(logs)
    rx = {}
    for mt in (504, 502, 522, 515):
        first = 0 if mt != 515 else spec.get('pair', r.randrange(1, n))
        l = xs(first)
        X.put(l)
        rx[mt] = func(l, first)
    tree = {'Z': Z, 'reactions': rx, 'anomalous_real': None, 'anomalous_imag': None}
    new = spec['new']
    nxs[6] = r.choice([1, 2, 3]) if new else 0
    x = sorted({q(r.uniform(0, 9)) for _ in range(r.randrange(3, 12))} | {0.0}) if new else X_INC
    y = [q(r.uniform(0, Z)) for _ in x]
    jxs[2] = X.at()
    X.put((x if new else []) + y)
    tree['incoherent_factor'] = [x, y, [len(x)], [2]]
    x = sorted({q(r.uniform(0, 9)) for _ in range(r.randrange(3, 12))} | {0.0}) if new else X_COH
    y = [q(r.uniform(0, Z)) for _ in x]
    jxs[3] = X.at()
    X.put((x if new else []) + [q(r.uniform(0, 99)) for _ in x] + y)
    tree['coherent_factor'] = [x, y, [len(x)], [2]]
    jxs[4] = X.at()
    X.put([q(r.uniform(0, 9)) for _ in range(16)])
    jxs[5] = X.at()
    X.put([q(r.uniform(0, 9)) for _ in range(n)])
    tree['compton'] = None
    nc = spec['compton']
    if nc:
        nxs[5] = nc
        el, be = [float(r.randrange(1, 9)) for _ in range(nc)], [q(10 ** r.uniform(-6, -1)) for _ in range(nc)]
        jxs[6] = X.at()
        X.put(el)
        jxs[7] = X.at()
        X.put(be)
        jxs[8] = X.at()
        X.put([q(r.random()) for _ in range(nc)])
        m = r.randrange(2, 9)
        pz = [0.0] + sorted({q(r.uniform(0.1, 99)) for _ in range(m)})
        m = len(pz)
        J = [[q(r.uniform(0.01, 9)) for _ in pz] for _ in range(nc)]
        order = list(range(nc))
        if r.random() < 0.3:
            r.shuffle(order)
        jxs[9] = X.at()
        loc = [0] * nc
        for p, k in enumerate(order):
            loc[k] = 1 + p * (2 + 3 * m)
        X.put(loc)
        jxs[10] = X.at()
        for k in order:
            X.put([r.choice([1, 2]), m] + pz + J[k] + [q(r.random()) for _ in pz])
        tree['compton'] = {'num_electrons': el, 'binding_energy': [v * EV for v in be], 'pz': pz, 'J': J}
    tree['shells'] = {}
    if spec['shells']:
        sh = shells_of(r, Z)
        nxs[7] = len(sh)
        el, be = [float(r.randrange(1, 9)) for _ in sh], [q(10 ** r.uniform(-6, -1)) for _ in sh]
        tr = [transitions(r, sh, s, q) for s in sh]
        jxs[11] = X.at()
        X.put(sh)
        jxs[12] = X.at()
        X.put(el)
        jxs[13] = X.at()
        X.put(be)
        jxs[14] = X.at()
        X.put([q(r.random()) for _ in sh])
        jxs[15] = X.at()
        X.put([len(t) for t in tr])
        jxs[16] = X.at()
        for k, s in enumerate(sh):
            first = r.choice([0, r.randrange(0, n - 1)])
            l = xs(first)
            X.put(l)
            rx[533 + s] = func(l, first)
            tree['shells'][SHELLS[s - 1]] = {'binding_energy': be[k] * EV, 'num_electrons': el[k]}
        jxs[18] = X.at()
        for k, s in enumerate(sh):
            cum, rows = 0.0, []
            for a, b, e, p in tr[k]:
                new_cum = q(cum + p)
                rows.append([a, b, e, new_cum - cum])
                X.put([a, b, q(e / EV), new_cum])
                rows[-1][2] = q(e / EV) * EV
                cum = new_cum
            tree['shells'][SHELLS[s - 1]]['transitions'] = rows or None
    tree['stopping'] = tree['brems'] = None
    nxs[1] = len(X)
    name = '%d.%02dp' % (1000 * Z, r.choice([1, 4, 12, 70, 84]))
    return ''.join(header(name, spec['awr'], 0.0, [], nxs[1:], jxs[1:], spec.get('style'))) + body(X), tree


# ------------------------------------------------------------------ ENDF
LATTICE = [fv(1.0 * 10 ** (0.02 * k)) for k in range(550)]               # 1 eV to 100 GeV, well apart


def endf(spec):
    """The texts of the photo-atomic and of the relaxation evaluation (or None), and what they hold."""
    r = core.rng_for('photon-endf', spec['seed'])
    Z = spec['Z']
    za, awr = 1000.0 * Z, fv(round(2.2 * Z, 3))
    secs, rx = {}, {}

    def table(c1, c2, x, y, reg=None):
        """Lines of a TAB1 record and the function."""
        n = len(x)
        k = r.choice([1, 1, 2, 3]) if reg is None else reg
        s = r.choice([1, 2, 3, 4, 5])
        f = gen_endf.regions(n, k, s)
        return tab1(c1, c2, 0, 0, x, y, s, k), [x, y, f[0::2], f[1::2]]

    def grid(lo, n):
        return sorted(r.sample([e for e in LATTICE if e >= lo], n))
    shells = shells_of(r, Z)
    head = [cont(za, awr, 0, 0, 0, 0)]
    relax = {s: {'binding_energy': fv(10 ** r.uniform(1, 5)), 'num_electrons': float(r.randrange(1, 9)), 'transitions': transitions(r, shells, s, fv)} for s in shells}
    mts = [501, 502, 504, 522] + [m for m in (515, 516, 517) if r.random() < 0.7]
    mts += [533 + s for s in shells if not spec['relax'] or r.random() < 0.9]
    for mt in mts:
        thr = 1.022e6 if mt in (515, 516, 517) else 10 ** r.uniform(0, 4) if mt >= 534 else 1.0
        x = grid(thr, r.randrange(2, 14))
        if mt == 522 and len(x) > 4 and r.random() < 0.5:       # an absorption edge
            k = r.randrange(1, len(x) - 2)
            x = x[:k + 1] + x[k:]
        y = [fv(10 ** r.uniform(-8, 4)) for _ in x]
        t, f = table(relax[mt - 533]['binding_energy'] if mt >= 534 else 0.0, fv(r.random()) if mt >= 534 else 0.0, x, y)
        if f[3][0] in (1, 2, 3) and mt in (515, 516, 517) and f[2][0] > 1:
            y[0] = 0.0
            t = tab1(0.0, 0.0, 0, 0, x, y, f[3][0], 1)
            f = [x, y, [len(x)], [f[3][0]]]
        secs[23, mt] = head + t
        rx[mt] = f
    tree = {'Z': Z, 'reactions': rx}
    for mt, key in ((502, 'coherent_factor'), (504, 'incoherent_factor'), (505, 'anomalous_imag'), (506, 'anomalous_real')):
        tree[key] = None
        if r.random() < 0.85:
            n = r.randrange(2, 14)
            x = sorted({fv(10 ** r.uniform(-3, 9)) for _ in range(n)} | {1e-4})
            y = [fv(r.uniform(0.01, Z)) for _ in x]
            if mt == 502:                                        # falls or rises like a moderate power
                for k in range(1, len(x)):
                    y[k] = fv(max(y[k - 1], 1e-30) * (x[k] / x[k - 1]) ** r.choice([r.uniform(-4, 2)] * 6 + [0, -1]))
            if mt > 504:
                y = [v if r.random() < 0.5 else -v for v in y]
            t, tree[key] = table(0.0, float(Z), x, y)
            if len(x) < 2:
                tree[key] = None
                continue
            secs[27, mt] = head + t
    base = {'mat': 100 * Z if Z < 100 else 9920, 'Z': Z, 'A': 0, 'liso': 0, 'fiss': False, 'lib': [0, 8, 0], 'text': r.choice([0, 3]), 'sections': [], 'seed': spec['seed']}
    text, _ = gen_endf.build([dict(base, nsub=3, extra=secs)], crlf=spec.get('crlf', False))
    rtext = None
    tree['shells'] = {SHELLS[m - 534]: None for m in mts if m >= 534}
    if spec['relax']:
        s = [cont(za, awr, 0, 0, len(shells), 0)]
        for i in shells:
            t = relax[i]
            v = [t['binding_energy'], t['num_electrons'], 0.0, 0.0, 0.0, 0.0]
            for a, b, e, p in t['transitions']:
                v += [float(a), float(b), e, p, 0.0, 0.0]
            s += lst(float(i), 0.0, 0, 0, len(t['transitions']), v)
        rtext, _ = gen_endf.build([dict(base, nsub=6, extra={(28, 533): s})])
        for i in shells:
            if 533 + i in mts:
                tree['shells'][SHELLS[i - 1]] = dict(relax[i], transitions=relax[i]['transitions'] or None)
    tree.update(package(Z))
    return text, rtext, tree


_package = {}


def package(Z):
    """Compton profiles, stopping powers and bremsstrahlung of the element, from the files that come with the package."""
    if Z not in _package:
        import h5py
        from scipy.interpolate import CubicSpline
        d = os.path.join(core.REPO, 'ASAPy', 'data')
        out = {'stopping': None}
        with h5py.File(os.path.join(d, 'compton_profiles.h5'), 'r') as f:
            g = f['%03d' % Z]
            out['compton'] = {'num_electrons': g['num_electrons'][()].tolist(), 'binding_energy': (g['binding_energy'][()] * EV).tolist(), 'pz': f['pz'][()].tolist(), 'J': g['J'][()].tolist()}
        if Z < 99:
            with h5py.File(os.path.join(d, 'stopping_powers.h5'), 'r') as f:
                g = f['%03d' % Z]
                out['stopping'] = {'energy': (f['energy'][()] * EV).tolist(), 'I': float(g.attrs['I']), 's_collision': (g['s_collision'][()] * EV).tolist(), 's_radiative': (g['s_radiative'][()] * EV).tolist()}
        with open(os.path.join(d, 'BREMX.DAT')) as f:
            w = f.read().split()
        n, k = int(w[37]), int(w[38])
        e = np.array([float(v) for v in w[39:39 + n]]) * EV
        p = 39 + n + k + (Z - 1) * n * k
        y = np.array([float(v) for v in w[p:p + n * k]]).reshape(n, k) / 1000
        new = np.logspace(3, 9, 200)
        out['brems'] = {'electron_energy': new.tolist(), 'photon_energy': [float(v) for v in w[39 + n:39 + n + k]], 'dcs': CubicSpline(np.log(e), y)(np.log(new)).tolist()}
        _package[Z] = out
    return _package[Z]


# ------------------------------------------------------------------ what an entry of a library file holds
def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-200


def differs(g, want):
    """The first difference of an entry of an HDF5 file from what the tables hold, or None."""
    def arr(v):
        return np.asarray(v, dtype=float)

    def same(what, got, exp, tol=1e-9):
        got, exp = arr(got), arr(exp)
        if got.shape != exp.shape:
            return '%s has shape %s instead of %s' % (what, got.shape, exp.shape)
        bad = ~(np.abs(got - exp) <= tol * np.maximum(np.abs(got), np.abs(exp)) + 1e-200)
        if bad.any():
            k = tuple(int(v) for v in np.argwhere(bad)[0])
            return '%s%s is %r instead of %r' % (what, list(k), float(got[k]), float(exp[k]))
        return None

    def has(group, names, where):
        if set(group) != set(names):
            return '%s holds %s instead of %s' % (where, sorted(group), sorted(names))

    def xs(what, got, f, energy):
        if len(got) != len(energy):
            return '%s has %d values for %d energies' % (what, len(got), len(energy))
        for e, v in zip(energy, got):
            if not any(near(v, u, 1e-8) for u in value(f, e)):
                return '%s at %r eV is %r instead of %r' % (what, e, float(v), value(f, e)[-1])

    def func(what, d, f):
        t = d.attrs['type']
        if (t.decode() if isinstance(t, bytes) else str(t)) != 'Tabulated1D':
            return '%s is a %s' % (what, t)
        return same(what, d[()], [f[0], f[1]]) or (None if f[2] is None else same(what + ' breakpoints', d.attrs['breakpoints'], f[2]) or same(what + ' interpolation', d.attrs['interpolation'], f[3]))
    rx = want['reactions']
    if int(g.attrs['Z']) != want['Z']:
        return 'atomic number %s instead of %d' % (g.attrs['Z'], want['Z'])
    names = ['energy', 'coherent', 'incoherent', 'photoelectric', 'subshells'] + ['pair_production_electron'] * (515 in rx) + ['pair_production_nuclear'] * (517 in rx)
    names += [n for n, k in (('compton_profiles', 'compton'), ('stopping_powers', 'stopping'), ('bremsstrahlung', 'brems')) if want[k] is not None]
    p = has(g, names, 'the entry')
    if p:
        return p
    want_e = sorted({e for f in rx.values() for e in f[0]})
    # energies that differ by rounding only may or may not be the same
    energy = g['energy'][()]
    p = same('the energy grid', energy, want_e, 1e-12)
    if p:
        return p
    energy = want_e
    cf, inf = want['coherent_factor'], want['incoherent_factor']
    p = has(g['coherent'], ['xs'] + ['integrated_scattering_factor'] * (cf is not None) + [k for k in ('anomalous_real', 'anomalous_imag') if want[k] is not None], 'coherent') or \
        has(g['incoherent'], ['xs'] + ['scattering_factor'] * (inf is not None), 'incoherent')
    if p:
        return p
    for mt, name in ((502, 'coherent'), (504, 'incoherent'), (522, 'photoelectric'), (515, 'pair_production_electron'), (517, 'pair_production_nuclear')):
        if mt in rx:
            p = xs('the %s cross section' % name, g[name]['xs'][()], rx[mt], energy)
            if p:
                return p
    if cf is not None:
        x = [v * v for v in cf[0]]
        f = [x, [v * v / want['Z'] ** 2 for v in cf[1]], cf[2], cf[3]]
        p = func('the integrated form factor', g['coherent']['integrated_scattering_factor'], [x, integral(f), [len(x)], [2]])
        if p:
            return p
    if inf is not None:
        p = func('the incoherent scattering factor', g['incoherent']['scattering_factor'], inf)
        if p:
            return p
    for k in ('anomalous_real', 'anomalous_imag'):
        if want[k] is not None:
            p = func(k, g['coherent'][k], want[k])
            if p:
                return p
    sh = g['subshells']
    des = [d.decode() for d in sh.attrs['designators']]
    if sorted(des) != sorted(want['shells']):
        return 'subshell designators %s instead of %s' % (des, sorted(want['shells']))
    p = has(sh, want['shells'], 'subshells')
    if p:
        return p
    for s, w in want['shells'].items():
        d = sh[s]
        idx = int(d['xs'].attrs['threshold_idx'])
        v = np.concatenate([np.zeros(idx), d['xs'][()]])
        p = xs('the cross section of subshell %s' % s, v, rx[534 + SHELLS.index(s)], energy)
        if p:
            return p
        tr = w['transitions'] if w else None
        p = has(d, ['xs'] + ['transitions'] * bool(tr), 'subshell %s' % s)
        if p:
            return p
        if w:
            p = same('the binding energy of %s' % s, d.attrs['binding_energy'], w['binding_energy']) or same('the electrons of %s' % s, d.attrs['num_electrons'], w['num_electrons'])
            if p:
                return p
            if tr:
                got = arr(d['transitions'][()])
                p = same('the transitions to %s' % s, got[:, :3], [t[:3] for t in tr]) if got.shape == (len(tr), 4) else 'the transitions to %s have shape %s' % (s, got.shape)
                if not p:
                    bad = [k for k in range(len(tr)) if not abs(got[k, 3] - tr[k][3]) <= 1e-10]
                    p = 'the transition probabilities to %s: %s instead of %s' % (s, got[:, 3].tolist(), [t[3] for t in tr]) if bad else None
                if p:
                    return p
    if want['compton'] is not None:
        for k in ('num_electrons', 'binding_energy', 'pz', 'J'):
            p = same('Compton %s' % k, g['compton_profiles'][k][()], want['compton'][k])
            if p:
                return p
    if want['stopping'] is not None:
        s = g['stopping_powers']
        p = has(s, ['energy', 's_collision', 's_radiative'], 'stopping powers') or same('the mean excitation energy', s.attrs['I'], want['stopping']['I'])
        for k in ('energy', 's_collision', 's_radiative'):
            p = p or same('stopping power %s' % k, s[k][()], want['stopping'][k])
        if p:
            return p
    if want['brems'] is not None:
        for k in ('electron_energy', 'photon_energy', 'dcs'):
            p = same('bremsstrahlung %s' % k, g['bremsstrahlung'][k][()], want['brems'][k], 1e-7)
            if p:
                return p
    return None
