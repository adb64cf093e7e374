"""Synthetic ACE (type 1) tables, written from the ACE format description, independent of the
reader under test.  `build(spec)` returns (text, model); the model knows where every array sits
in XSS, so an oracle can say what each value of a sampled file has to be."""
import random

import numpy as np

EV = 1.0e6
GAS = (203, 207, 444)                                       # given in tables, no reaction data for the reader
NEUTRON_MTS = [5, 11, 16, 17, 18, 19, 20, 21, 22, 28, 37, 38] + list(range(51, 92))
SYMBOL = {1: 'H', 4: 'Be', 8: 'O', 26: 'Fe', 40: 'Zr', 92: 'U', 94: 'Pu', 95: 'Am'}

# which partial sums which (ENDF-6 sum rules), restated independently of the code under test
SUMS = {
    107: list(range(800, 850)), 106: list(range(750, 800)), 105: list(range(700, 750)),
    104: list(range(650, 700)), 103: list(range(600, 650)),
    101: [102, 103, 104, 105, 106, 107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 155, 182,
          191, 192, 193, 197],
    18: [19, 20, 21, 38], 16: list(range(875, 892)), 4: list(range(50, 92)),
    3: [4, 5, 11, 16, 17, 18] + list(range(22, 27)) + list(range(28, 38)) + [41, 42, 44, 45] +
       list(range(102, 118)) + list(range(152, 201)),
    1: [2, 4, 5, 11, 16, 17, 18] + list(range(22, 27)) + list(range(28, 38)) + [41, 42, 44, 45] +
       list(range(102, 118)) + list(range(152, 201)),
    27: [18, 101],
}
SUM_ORDER = [107, 106, 105, 104, 103, 101, 18, 27, 16, 4, 3, 1]


def constituents(mt, present):
    """Members of the sum `mt` that are in the table; absent sub-sums give their own members."""
    out = []
    for m in SUMS[mt]:
        if m in present:
            out.append(m)
        elif m in SUMS:
            out += constituents(m, present)
    return out


def fmt(v):
    return '{:20.11E}'.format(v)


def q(v):
    """Quantise to what 12 significant digits can hold."""
    return float('{:.11E}'.format(v))


def build(spec):
    r = random.Random(spec['seed'])
    Z, A = spec['Z'], spec['A']
    n = spec['n']
    bounds = spec.get('bounds') or [1e-5, 2e7]            # eV, ascending
    lo, hi = bounds[0], bounds[-1]
    # energy grid (MeV), some points below / above / exactly on the group bounds
    es = set()
    for b in bounds:
        if r.random() < 0.5:
            es.add(q(b / EV))
    es.add(q(lo / EV * r.choice([0.1, 0.5, 1.0, 1.5])))
    es.add(q(hi / EV * r.choice([0.5, 1.0, 1.5])))
    while len(es) < n:
        u = np.log(lo) - 1.0 + (np.log(hi) - np.log(lo) + 1.7) * r.random()
        es.add(q(float(np.exp(u)) / EV))
    energy = sorted(es)
    n = len(energy)
    mts = sorted(set(spec['mts']))                         # MTs given in MTR (not 1, 2, 101)
    basic = [m for m in mts if not (m in SUMS and constituents(m, set(mts)))]
    xs = {}
    for m in basic:
        thr = 0
        if m not in (18, 19, 102) and r.random() < 0.75:
            thr = r.randrange(1, max(2, n - 3))
        vals = [q(r.uniform(0.05, 9.0) * 10 ** r.uniform(-2, 1)) for _ in range(n - thr)]
        if thr and r.random() < 0.8:
            vals[0] = 0.0
        if spec.get('zeros') and len(vals) > 4 and r.random() < 0.5:
            vals[r.randrange(1, len(vals))] = 0.0
        if spec.get('neg') == m:
            vals[0] = -vals[0]
        xs[m] = [thr, vals]
    el = [q(r.uniform(1.0, 20.0)) for _ in range(n)]

    def full(m):
        t, v = xs[m]
        return np.concatenate([np.zeros(t), np.array(v)])
    for m in [m for m in SUM_ORDER if m in mts and m not in basic]:
        comp = constituents(m, set(mts) - {m} | set())
        thr = min(xs[c][0] for c in comp)
        tot = sum(full(c) for c in comp) * spec.get('loose', 1.0)      # the members given need not be all
        xs[m] = [thr, [q(v) for v in tot[thr:]]]
    present = set(mts) | {2}
    absn = np.zeros(n)
    for m in constituents(101, set(mts)):
        absn = absn + full(m)
    tot = np.array(el)
    for m in constituents(1, set(mts)):
        tot = tot + full(m)
    absn = [q(v) for v in absn]
    tot = [q(v) for v in tot]

    X = []                      # XSS (python objects: int or float)
    model = {'arrays': {}, 'energy': energy}

    def put(vals):
        at = len(X)
        X.extend(vals)
        return at
    jxs = [0] * 32
    jxs[0] = 1
    put(energy)
    model['arrays'][1] = (put(tot), 0, tot)
    at_abs = put(absn)
    if any(v != 0 for v in absn):
        model['arrays'][101] = (at_abs, 0, absn)
    model['arrays'][2] = (put(el), 0, el)
    put([q(r.uniform(0.1, 5)) for _ in range(n)])           # heating
    if 18 in mts:
        jxs[1] = len(X) + 1
        ne = r.randrange(3, 8)
        nu_e = sorted({q(float(np.exp(r.uniform(np.log(lo), np.log(hi)))) / EV) for _ in range(ne)})
        ne = len(nu_e)
        base = r.uniform(2.2, 2.6)
        prompt = [q(base + 0.1 * i + r.uniform(0, .05)) for i in range(ne)]
        total = [q(p + r.uniform(0.01, 0.02)) for p in prompt]
        blk = [2, 0, ne] + nu_e + prompt
        put([-len(blk)] + blk + [2, 0, ne] + nu_e)
        model['arrays'][452] = (put(total), None, total)
        model['nu_energy'] = nu_e
    neut = [m for m in mts if m in NEUTRON_MTS]
    rest = [m for m in mts if m not in NEUTRON_MTS]
    order = neut + rest
    jxs[2] = len(X) + 1
    put(order)
    jxs[3] = len(X) + 1
    put([q(-r.uniform(0.1, 5)) for _ in order])
    jxs[4] = len(X) + 1
    put([19 if m in (18, 19, 20, 21, 38) else (-1 if m in range(51, 92) else (1 if m in neut else 0))
         for m in order])
    jxs[5] = len(X) + 1
    loc = 1
    locs = []
    for m in order:
        locs.append(loc)
        loc += 2 + len(xs[m][1])
    put(locs)
    jxs[6] = len(X) + 1
    for m in order:
        put([xs[m][0] + 1, len(xs[m][1])])
        at = put(xs[m][1])
        if m not in GAS:
            model['arrays'][m] = (at, xs[m][0], xs[m][1])
    jxs[7] = len(X) + 1
    put([0] * (len(neut) + 1))
    jxs[8] = len(X) + 1
    jxs[9] = len(X) + 1
    ldlw_at = put([0] * len(neut))
    jxs[10] = len(X) + 1
    start = len(X)
    for i, m in enumerate(neut):
        if m not in (18, 19):
            continue
        here = len(X) - start + 1
        X[ldlw_at + i] = here
        # LNW, LAW, IDAT, NR, NE, E(2), P(2)
        put([0, 4, here + 9, 0, 2, energy[0], energy[-1], 1.0, 1.0])
        nin = spec.get('chi_nin', 2)
        ein = sorted({q(energy[0] + (energy[-1] - energy[0]) * r.random()) for _ in range(nin)})
        nin = len(ein)
        d0 = len(X) - start + 1
        put([0, nin] + ein)
        lpos = put([0] * nin)
        chi = []
        for k in range(nin):
            X[lpos + k] = len(X) - start + 1
            npt = r.randrange(4, 9)
            eo = sorted({q(float(np.exp(r.uniform(np.log(lo), np.log(hi)))) / EV) for _ in range(npt)})
            npt = len(eo)
            p = [q(r.uniform(0.05, 1.0)) for _ in range(npt)]
            w = np.diff(eo)
            c = np.concatenate([[0.0], np.cumsum(np.array(p[1:]) * w)])
            p = [q(v / c[-1]) for v in p]
            c = [q(v / c[-1]) for v in c]
            if chi and m == 18 and k <= spec.get('chi_same', 0):   # the spectrum does not change at low energies
                eo, p, c = [list(v) for v in (chi[0][0], chi[0][2], chi[0][4])]
                npt = len(eo)
            put([2, npt] + eo)
            pa = put(p)
            ca = put(c)
            chi.append((eo, pa, p, ca, c))
        if m == 18:
            model['chi'] = chi
    if jxs[10] and len(X) == start:
        put([0])
    rx = random.Random('extras %d' % spec['seed'])          # keeps the draws above as they were
    ntrp = ndel = 0
    if spec.get('photons'):
        can = [m for m in mts if m in (16, 18, 51, 102, 103) or m in neut] + [102]
        if any(50 <= m < 92 for m in mts):
            can.append(4)
        pm = sorted({rx.choice(can) * 1000 + rx.randrange(1, 4) for _ in range(rx.randrange(1, 5))})
        if spec['photons'] > 1:
            pm = sorted(set(pm) | {3001, (4001 if 4 in can else 102001)})
        ntrp = len(pm)
        jxs[11] = len(X) + 1
        put([q(rx.uniform(0.1, 9)) for _ in range(n)])
        jxs[12] = len(X) + 1
        put(pm)
        jxs[13] = len(X) + 1
        at = put([0] * ntrp)
        jxs[14] = len(X) + 1
        s0 = len(X)
        for k, m in enumerate(pm):
            X[at + k] = len(X) - s0 + 1
            if rx.random() < 0.6:
                put([rx.choice([12, 16]), m // 1000, 0, 2, energy[0], energy[-1], q(rx.uniform(.2, 3)), q(rx.uniform(.2, 3))])
            else:
                ie = rx.randrange(0, n - 2)
                put([13, ie + 1, n - ie] + [q(rx.uniform(0.01, 3)) for _ in range(n - ie)])
        jxs[15] = len(X) + 1
        put([0] * ntrp)
        jxs[16] = len(X) + 1
        jxs[17] = len(X) + 1
        at = put([0] * ntrp)
        jxs[18] = len(X) + 1
        s0 = len(X)
        for k in range(ntrp):
            here = X[at + k] = len(X) - s0 + 1
            put([0, 2, here + 9, 0, 2, energy[0], energy[-1], 1.0, 1.0, 0, q(rx.uniform(0.1, 7))])
        jxs[19] = len(X) + 1
        put([1, pm[0] // 1000])
    if spec.get('urr'):
        jxs[22] = len(X) + 1
        N, M = rx.choice([2, 3]), rx.choice([4, 8])
        put([N, M, 2, 0, 0, rx.choice([0, 1])] + sorted(q(rx.uniform(1e-3, 1e-1)) for _ in range(N)))
        put([q(rx.uniform(0.05, 2)) for _ in range(N * 6 * M)])
    if spec.get('delayed') and 18 in mts:
        ndel = spec['delayed']
        jxs[23] = len(X) + 1
        put([2, 0, 2, energy[0], energy[-1], q(rx.uniform(.01, .02)), q(rx.uniform(.01, .02))])
        jxs[24] = len(X) + 1
        for k in range(ndel):
            put([q(rx.uniform(1e-9, 1e-7)), 0, 2, energy[0], energy[-1], q(1.0 / ndel), q(1.0 / ndel)])
        jxs[25] = len(X) + 1
        at = put([0] * ndel)
        jxs[26] = len(X) + 1
        s0 = len(X)
        for k in range(ndel):
            here = X[at + k] = len(X) - s0 + 1
            put([0, 4, here + 9, 0, 2, energy[0], energy[-1], 1.0, 1.0])
            put([0, 1, energy[0], len(X) - s0 + 5, 2, 3, q(energy[0]), q(energy[0] + .5), q(energy[0] + 1.0)])
            put([q(rx.uniform(.5, 1.5)), q(rx.uniform(.5, 1.5)), q(rx.uniform(.5, 1.5)), 0.0, 0.5, 1.0])
    nxs = [len(X), Z * 1000 + A, n, len(order), len(neut), ntrp, 0, ndel] + [0] * 8
    model['photons'] = ntrp
    model['delayed'] = ndel
    name = '%d.%s' % (spec.get('zaid', Z * 1000 + A), spec.get('ext', '70c'))
    kT = spec.get('kT', 2.5301e-08)
    lines = []
    old0 = '{:>10s}{:12.6f}{:12.4E} {:>10s}\n'.format(name, spec.get('awr', A * 0.99), kT, '12/25/12')
    old1 = '{:<70s}{:>10s}\n'.format('synthetic table for simulation', '   mat9999')
    if spec.get('header') == '2.0':
        lines.append('2.0.0 {:>24s} {:>24s}\n'.format(name, 'SIM'))
        lines.append('{:12.6f} {:12.4E} {:>10s} {:4d}\n'.format(spec.get('awr', A * 0.99), kT, '12/25/12', 3))
        lines.append('comment line of the new style header\n')
    lines.append(old0)
    lines.append(old1)
    for _ in range(4):
        lines.append(''.join('{:7d}{:11.6f}'.format(0, 0.0) for _ in range(4)) + '\n')
    for k in range(2):
        lines.append(''.join('{:9d}'.format(v) for v in nxs[8 * k:8 * k + 8]) + '\n')
    for k in range(4):
        lines.append(''.join('{:9d}'.format(v) for v in jxs[8 * k:8 * k + 8]) + '\n')
    header = list(lines)
    row = []
    for v in X:
        row.append('{:20d}'.format(v) if isinstance(v, int) else fmt(v))
        if len(row) == 4:
            lines.append(''.join(row) + '\n')
            row = []
    if row:
        lines.append(''.join(row) + '\n')
    model.update(tokens=[('{:d}'.format(v) if isinstance(v, int) else '{:.11E}'.format(v)) for v in X],
                 header=header, name=name, Z=Z, A=A, order=order, neut=neut)
    # reactions a reader will list that are not arrays of the file
    virtual = {}
    for m in ((4, 16, 103, 104, 105, 106, 107) if any(m // 1000 == 4 for m in (pm if ntrp else [])) else (16, 103, 104, 105, 106, 107)):
        if m not in mts and constituents(m, set(mts)):
            virtual[m] = constituents(m, set(mts))
    model['virtual'] = virtual
    if 'tail' in spec:
        lines[-1] = lines[-1].rstrip('\n') + spec['tail']
    return ''.join(lines), model


def present_mts(model):
    """Every MT a user may name for this table."""
    s = [m for m in model['arrays'] if m != 452] + list(model['virtual'])
    if 18 in model['arrays']:
        s += [452, 1018]
    return sorted(s)


def parse_text(text, nheader):
    """Tokens of the XSS part of a written table."""
    lines = text.split('\n')
    return [l + '\n' for l in lines[:nheader]], ' '.join(lines[nheader:]).split()


# ----------------------------------------------------------------------------------
# reference model of what sampling has to do to a table
# ----------------------------------------------------------------------------------
def map_factor(e_ev, groups, col):
    """groups: list of (low, high) in eV, group 1 first (highest energy).  An energy on a
    boundary belongs to the group below that boundary; outside the range the factor is 1."""
    emin = min(l for l, h in groups)
    emax = max(h for l, h in groups)
    out = []
    for e in e_ev:
        if e < emin or e > emax:
            out.append(1.0)
            continue
        f = None
        for g, (l, h) in enumerate(groups):
            if l < e <= h:
                f = col[g]
        if f is None:
            f = col[-1]                      # exactly on the lowest boundary
        out.append(f)
    return np.array(out)


def expected(model, factors):
    """factors: {mt: (groups, column)}.  Returns {token index: expected value} of every token that
    may change; all other tokens have to be the base ones."""
    arrays, virtual = model['arrays'], model['virtual']
    energy = np.array(model['energy'])
    n = len(energy)
    present = [m for m in arrays if m != 452] + list(virtual)

    def dense(m, vals=None):
        _, thr, base = arrays[m]
        v = np.zeros(n)
        v[thr:thr + len(base)] = base if vals is None else vals
        return v
    base, new = {}, {}
    for m in arrays:
        if m != 452:
            base[m] = dense(m)
    for m, comp in virtual.items():
        base[m] = sum(base[c] for c in comp)
    delta = {}
    for m in sorted(base, key=lambda m: (m in SUM_ORDER, SUM_ORDER.index(m) if m in SUM_ORDER else 0)):
        comp = [c for c in constituents(m, set(present) - {m}) if c in delta] if m in SUMS else []
        if comp:
            delta[m] = sum(delta[c] for c in comp)
        elif m in factors:
            groups, col = factors[m]
            if m in arrays:
                thr = arrays[m][1]
                k = len(arrays[m][2])
            else:
                nz = min(arrays[c][1] for c in virtual[m])
                thr, k = nz, n - nz
            f = np.ones(n)
            f[thr:thr + k] = map_factor(energy[thr:thr + k] * EV, groups, col)
            delta[m] = base[m] * (f - 1.0)
    exp = {}
    scale = {}
    for m, d in delta.items():
        if m not in arrays:
            continue
        at, thr, b = arrays[m]
        for i in range(len(b)):
            exp[at + i] = b[i] + d[thr + i]
            scale[at + i] = max(abs(b[i]), abs(exp[at + i]))
    if 452 in factors:
        groups, col = factors[452]
        at, _, b = arrays[452]
        f = map_factor(np.array(model['nu_energy']) * EV, groups, col)
        for i in range(len(b)):
            exp[at + i] = b[i] * f[i]
    if 1018 in factors:
        groups, col = factors[1018]
        for eo, pa, p, ca, c in model['chi']:
            f = map_factor(np.array(eo) * EV, groups, col)
            p, c = np.array(p), np.array(c)
            de = np.concatenate([[0.0], np.diff(np.array(eo))])
            add = np.cumsum((p * f - p) * de)
            norm = c[-1] + add[-1]
            for i in range(len(p)):
                exp[pa + i] = p[i] * f[i] / norm
                exp[ca + i] = (c[i] + add[i]) / norm
    for k, v in exp.items():
        scale.setdefault(k, abs(v))
    return exp, scale
