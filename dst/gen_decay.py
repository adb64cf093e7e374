"""Synthetic decay data and fission product yields (MF=8) with known content, and the masses of the package."""
import math
import os
import re

from . import core, gen_endf
from .gen_endf import cont, fv, lst, tab1

SYMBOLS = ('n H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd '
           'Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og').split()
MODES = {1: ('beta-', 0, 1), 2: ('ec/beta+', 0, -1), 3: ('IT', 0, 0), 4: ('alpha', -4, -2), 5: ('n', -1, 0), 6: ('sf', None, None), 7: ('p', -1, -1)}
RTYP = [1.0, 1.0, 2.0, 2.0, 3.0, 4.0, 4.0, 5.0, 6.0, 7.0, 1.5, 1.4, 1.55, 1.555, 2.7, 2.4, 2.77, 1.6, 10.0, 3.4]
STYP = {0: 'gamma', 1: 'beta-', 2: 'ec/beta+', 4: 'alpha', 5: 'n', 6: 'sf', 7: 'p', 8: 'e-', 9: 'xray', 10: 'anti-neutrino', 11: 'neutrino'}
TYPES = [None, 'allowed', 'first-forbidden', 'second-forbidden', 'third-forbidden', 'fourth-forbidden', 'fifth-forbidden']
MEAN = ['light', 'electromagnetic', 'heavy', 'beta-', 'beta+', 'auger', 'conversion', 'gamma', 'xray', 'Bremsstrahlung', 'annihilation', 'alpha', 'recoil', 'SF', 'neutron', 'proton', 'neutrino']


def name(Z, A, m=0):
    return '%s%d%s' % (SYMBOLS[Z], A, '_m%d' % m if m else '')


def chain(rtyp):
    """Names of the successive modes, or None where ENDF says the origin is not known."""
    if rtyp == 10.0:
        return ['unknown']
    return [MODES[int(c)][0] for c in repr(rtyp) if c in '1234567']


def daughter(Z, A, rtyp, state):
    if rtyp == 10.0:
        return None
    for c in repr(rtyp):
        if c in MODES or c in '1234567':
            _, a, z = MODES[int(c)]
            if a is None:
                return None
            A, Z = A + a, Z + z
    return name(Z, A, state)


def pick(r):
    Z = r.choice([r.randrange(8, 100), r.randrange(88, 100)])
    return Z, int(2.0 * Z * (1 + 0.0032 * Z)) + r.randrange(-3, 6)


def pair(r, lo=-3, hi=6):
    v = fv(10 ** r.uniform(lo, hi))
    return [v, r.choice([0.0, fv(v * r.uniform(0.001, 0.4))])]


def decay(sp):
    r = core.rng_for('decay', sp['seed'])
    Z, A = pick(r)
    m = sp['m']
    za, awr = 1000.0 * Z + A, fv(0.9917 * A)
    spin = -77.777 if sp['nospin'] and not sp['stable'] else r.choice([0.0, 0.5, 1.5, 4.0, 7.5])
    parity = r.choice([1.0, -1.0, 0.0])
    lis = m and m + r.randrange(0, 2)
    tree = {'nuclide': {'atomic_number': Z, 'mass_number': A, 'isomeric_state': m, 'name': name(Z, A, m), 'mass': awr, 'excited_state': lis, 'stable': bool(sp['stable']), 'parity': parity,
                        'spin': None if spin == -77.777 else spin}, 'modes': [], 'spectra': {}, 'means': {}, 'half_life': None}
    if sp['stable']:
        s = [cont(za, awr, lis, m, 1, 0)] + lst(0.0, 0.0, 0, 0, 0, [0.0] * 6) + lst(spin, parity, 0, 0, 0, [0.0] * 6)
    else:
        kinds = r.sample(sorted(STYP), sp['nsp'])
        s = [cont(za, awr, lis, m, 0, len(kinds))]
        t = pair(r, -6, 20)
        nc = 17 if sp['long'] else 3
        e = [pair(r) if r.random() < 0.8 else [0.0, 0.0] for _ in range(nc)]
        s += lst(t[0], t[1], 0, 0, 0, [v for p in e for v in p])
        tree['half_life'] = t
        tree['means'] = dict(zip(MEAN, e))
        v = []
        for _ in range(sp['nmodes']):
            rt, st = r.choice(RTYP), r.choice([0, 0, 0, 1, 2])
            q, b = pair(r, 3, 7), pair(r, -6, 0)
            v += [rt, float(st)] + q + b
            tree['modes'].append([chain(rt), daughter(Z, A, rt, st), q, b])
        s += lst(spin, parity, 0, 0, sp['nmodes'], v)
        for k in kinds:
            lcon = r.choice([0, 0, 1, 2])
            n = r.randrange(1, 4) if lcon != 1 else 0
            six = pair(r, -3, 0) + pair(r) + pair(r, -3, 0)
            s += lst(0.0, float(k), lcon, 0, n, six)
            x = {'flag': ['discrete', 'continuous', 'both'][lcon], 'norms': [six[0:2], six[2:4], six[4:6]], 'discrete': None, 'continuous': None}
            if lcon != 1:
                x['discrete'] = []
                for _ in range(n):
                    e, rt, ty = pair(r, 2, 7), r.choice(RTYP), r.randrange(0, 7)
                    nt = r.choice([6, 8, 12]) if k == 0 else 6
                    ps = [pair(r, -4, 2) for _ in range((nt - 2) // 2)]
                    s += lst(e[0], e[1], 0, 0, 0, [rt, float(ty)] + [v for p in ps for v in p])
                    d = {'energy': e, 'from_mode': chain(rt), 'type': TYPES[ty], 'intensity': ps[0]}
                    if k == 2:
                        d['positron_intensity'] = ps[1]
                    if k == 0:
                        d['internal_pair'] = ps[1]
                        if nt >= 8:
                            d['total_internal_conversion'] = ps[2]
                        if nt == 12:
                            d['k_shell_conversion'], d['l_shell_conversion'] = ps[3:5]
                    x['discrete'].append(d)
            if lcon:
                rt, cov = r.choice(RTYP), r.random() < 0.4
                xs = sorted({fv(10 ** r.uniform(0, 7)) for _ in range(r.randrange(2, 9))} | {1.0, 2e7})
                ys = [fv(10 ** r.uniform(-9, -5)) for _ in xs]
                scheme, reg = r.choice([1, 2, 5]), r.choice([1, 1, 2])
                flat = gen_endf.regions(len(xs), reg, scheme)
                t = tab1(rt, 0.0, 0, 1 if cov else 0, xs, ys, scheme, reg)
                s += t
                c = {'type': chain(rt), 'function': [xs, ys, flat[0::2], flat[1::2]], 'lb': None, 'covariance': None}
                if cov:
                    es = xs[:r.randrange(2, len(xs) + 1)]
                    c['lb'], c['covariance'] = 2, [[e, fv(r.uniform(0.01, 0.5))] for e in es]
                    s += lst(0.0, 0.0, 0, 2, len(es), [v for p in c['covariance'] for v in p])
                x['continuous'] = c
            tree['spectra'][STYP[k]] = x
    return tape(sp, Z, A, m, 4, {(8, 457): s}), tree


def yields(sp):
    r = core.rng_for('yields', sp['seed'])
    Z, A = r.choice([(90, 232), (92, 233), (92, 235), (92, 238), (94, 239), (95, 242), (98, 252)])
    m = sp['m']
    za, awr = 1000.0 * Z + A, fv(0.9917 * A)
    energies = [0.0] if sp['spontaneous'] else sorted(r.sample([0.0253, 5e5, 1.4e7, 2e6], sp['n']))
    tree, secs = {'nuclide': {'name': name(Z, A, m), 'atomic_number': Z, 'mass_number': A, 'isomeric_state': m}, 'energies': energies}, {}
    for mt, key in ((454, 'independent'), (459, 'cumulative')):
        s = [cont(za, awr, len(energies), 0, 0, 0)]
        tree[key] = []
        for i, e in enumerate(energies):
            d, v = {}, []
            for _ in range(r.randrange(1, 30)):
                z = r.randrange(24, 72)
                p = (z, int(2.4 * z) + r.randrange(0, 8), r.choice([0, 0, 0, 1, 2]))
                if name(*p) in d:
                    continue
                y = pair(r, -12, -1)
                d[name(*p)] = y
                v += [1000.0 * p[0] + p[1], float(p[2])] + y
            s += lst(e, 0.0, 2 if i else len(energies) - 1, 0, len(d), v)
            tree[key].append(d)
        secs[8, mt] = s
    return tape(sp, Z, A, m, 5 if sp['spontaneous'] else 11, secs), tree


def tape(sp, Z, A, m, nsub, secs):
    spec = {'mat': 100 * Z + 25 if Z < 99 else 9920, 'Z': Z, 'A': A, 'liso': m, 'fiss': False, 'lib': [0, 8, 0], 'nsub': nsub, 'text': sp['seed'] % 4, 'sections': [], 'seed': sp['seed'], 'extra': secs}
    return gen_endf.build([spec], crlf=sp.get('crlf', False))[0]


_table = {}


def masses(path):
    """The masses that a file of the atomic mass evaluation gives, by nuclide."""
    if path not in _table:
        out = {}
        with open(path) as f:
            for line in f.read().split('\n')[39:]:
                t = line.replace('#', ' ').split()
                if len(t) > 5:
                    out[line[20:23].strip() + line[15:19].strip()] = int(t[-3]) + float(t[-2]) * 1e-6
        _table[path] = out
    return _table[path]
