"""Synthetic ACE tables with secondary distributions, written from the ACE format description, and
what a reader has to find in them as a tree of plain values.  `neutron(spec)` and `thermal(spec)`
return (text, tree); `differs(a, b)` compares two trees; `of_neutron(obj)` and `of_thermal(obj)`
make the tree of an object of the package through its public attributes."""
import random

import numpy as np

from .gen_ace import SUMS, constituents, fmt, q

EV = 1.0e6
KB = 8.6173303e-5                                           # eV/K
FISSION = (18, 19, 20, 21, 38)
NEUTRONS = {5: 1, 16: 2, 17: 3, 22: 1, 28: 1, 37: 4, 91: 1}
NEUTRONS.update({m: 1 for m in range(51, 91)})
NEUTRONS.update({m: 2 for m in range(875, 892)})
NUCLIDES = [  # zaid, scheme, name, Z, A, m
    (1001, 'mcnp', 'H1', 1, 1, 0), (8016, 'mcnp', 'O16', 8, 16, 0), (26056, 'nndc', 'Fe56', 26, 56, 0), (47510, 'mcnp', 'Ag110_m1', 47, 110, 1),
    (92235, 'mcnp', 'U235', 92, 235, 0), (94239, 'nndc', 'Pu239', 94, 239, 0), (95242, 'mcnp', 'Am242_m1', 95, 242, 1), (95642, 'mcnp', 'Am242', 95, 242, 0),
    (1095242, 'mcnp', 'Am242', 95, 242, 0), (1047110, 'mcnp', 'Ag110_m1', 47, 110, 1), (27458, 'nndc', 'Co58_m1', 27, 58, 1)]
THERMAL = [  # table, name, pairs, nuclides
    ('lwtr', 'c_H_in_H2O', [1001], ['H1']), ('grph', 'c_Graphite', [6000], ['C0', 'C12', 'C13']), ('hzr', 'c_H_in_ZrH', [1001], ['H1']),
    ('benz', 'c_C6H6', [1001, 6000, 6012], ['H1', 'C0', 'C12', 'C13']), ('o-be', 'c_O_in_BeO', [8016], ['O0', 'O16', 'O17', 'O18']),
    ('fe56', 'c_Fe56', [26056], ['Fe56'])]


def temp(kT):
    return '%dK' % int(round(kT * EV / KB))


class Xss(list):
    def at(self):
        return len(self) + 1

    def put(self, vals):
        a = len(self)
        self.extend(vals)
        return a


class Maker:
    """Draws data and puts them into XSS; every method returns the tree of what it put."""

    def __init__(self, r, X, energy):
        self.r, self.X, self.energy = r, X, energy

    def incl(self, a, b, n, log=False):
        """n different ascending values from a to b, both included."""
        r = self.r
        if log:
            v = {q(a * (b / a) ** r.random()) for _ in range(n - 2)}
        else:
            v = {q(a + (b - a) * r.random()) for _ in range(n - 2)}
        return sorted(v | {q(a), q(b)})

    def regions(self, n, allowed=(1, 2, 3, 4, 5)):
        r = self.r
        u = r.random()
        if u < 0.5 or n < 3:
            return [], [], [n], [2]
        k = 1 if u < 0.75 else 2
        bp = [n] if k == 1 else [r.randrange(2, n), n]
        it = [r.choice(allowed) for _ in bp]
        return bp, it, bp, it

    def tab(self, x, y, xs=EV, ys=1.0, plain=False):
        """A tabulated function at the current position."""
        bp, it, ebp, eit = ([], [], [len(x)], [2]) if plain else self.regions(len(x))
        self.X.put([len(bp)] + bp + it + [len(x)] + x + y)
        return ['tab', [v * xs for v in x], [v * ys for v in y], ebp, eit]

    def func(self, lo, hi, n=None, xs=EV, ys=1.0, plain=False):
        x = self.incl(self.energy[0], self.energy[-1], n or self.r.randrange(2, 6))
        if self.r.random() < 0.1:
            x.insert(-1, q(x[-1] * (1 - 4e-6)))                 # close to the end
        return self.tab(x, [q(self.r.uniform(lo, hi)) for _ in x], xs, ys, plain)

    def yield_(self, lo, hi):
        """LNU form: polynomial or tabulated."""
        r = self.r
        if r.random() < 0.4:
            c = [q(r.uniform(lo, hi))] + [q(r.uniform(0.001, 0.1)) for _ in range(r.randrange(0, 3))]
            self.X.put([1, len(c)] + c)
            return ['poly', [v * EV ** -i for i, v in enumerate(c)]]
        self.X.put([2])
        return self.func(lo, hi, plain=r.random() < 0.5)

    def pdf(self, x, total=1.0, start=0.0):
        """Histogram or linear density over x with its cumulative, ending at `start + total`."""
        r = self.r
        intt = r.choice([1, 2])
        p = [r.uniform(0.05, 1.0) for _ in x]
        w = np.diff(x)
        if intt == 1:
            p[-1] = 0.0
            c = np.concatenate([[0.0], np.cumsum(np.array(p[:-1]) * w)])
        else:
            c = np.concatenate([[0.0], np.cumsum((np.array(p[1:]) + p[:-1]) / 2 * w)])
        s = total / c[-1]
        c = [q(start + v * s) for v in c]
        c[-1] = start + total
        return intt, [q(v * s) for v in p], c

    def angle(self, base, n=None):
        """An AND style table at the current position; base: index (0-based) of the block."""
        r, X = self.r, self.X
        es = self.incl(self.energy[0], self.energy[-1], n or r.randrange(2, 5))
        X.put([len(es)] + es)
        lc = X.put([0] * len(es))
        out = []
        for k, e in enumerate(es):
            u = r.random()
            if u < 0.3:
                mu = 'isotropic'
            elif u < 0.55:
                X[lc + k] = len(X) - base + 1
                cos = sorted({q(r.uniform(-1, 1)) for _ in range(31)} | {-1.0, 1.0})
                X.put(cos)
                mu = ['histogram', cos, [1 / 32.0 / (b - a) for a, b in zip(cos, cos[1:])] + [0.0], [i / 32.0 for i in range(33)]]
            else:
                X[lc + k] = -(len(X) - base + 1)
                x = self.incl(-1.0, 1.0, r.randrange(2, 7))
                intt, p, c = self.pdf(x)
                X.put([intt, len(x)] + x + p + c)
                mu = [['', 'histogram', 'linear-linear'][intt], x, p, c]
            out.append([e * EV, mu])
        return out

    def eout(self, extra=0, lines=None):
        """Outgoing energies with density and cumulative; `extra` rows are filled by the caller.
        Returns (index of the first extra row, rows, tree)."""
        r, X = self.r, self.X
        n = r.randrange(2, 7)
        nl = r.choice([0, 0, 0, 1, 2]) if lines is None else lines
        if nl and r.random() < 0.3:
            n = 0                                                   # lines only
        ld = sorted({q(r.uniform(0.01, 2.0)) for _ in range(nl)}, reverse=True)
        nl = len(ld)
        pd = 1.0 if n == 0 else 0.3
        lp = [pd / nl] * nl if nl else []
        if nl == 2:
            lp = [q(pd * 0.25), pd - q(pd * 0.25)]
        lc = [float(v) for v in np.cumsum(lp)]
        x = self.incl(1e-4, r.uniform(1.0, 5.0), n) if n else []
        intt, p, c = self.pdf(x, 1.0 - (pd if nl else 0.0), pd if nl else 0.0) if n else (1, [], [])
        X.put([10 * nl + intt, nl + len(x)] + ld + x + lp + p + lc + c)
        row = X.put([0] * (extra * (nl + len(x))))
        cont = [['', 'histogram', 'linear-linear'][intt], [v * EV for v in x], [v / EV for v in p], c]
        disc = ['discrete', [v * EV for v in ld], lp, lc]
        return row, nl + len(x), disc if not x else cont if not nl else ['mixture', [pd, 1.0 - pd], disc, cont], [v * EV for v in ld + x]

    def ein(self):
        r = self.r
        es = self.incl(self.energy[0], self.energy[-1], r.randrange(2, 5))
        bp, it, ebp, eit = self.regions(len(es), (1, 2))
        self.X.put([len(bp)] + bp + it + [len(es)] + es)
        return es, self.X.put([0] * len(es)), [ebp, eit, [e * EV for e in es]]

    def law(self, law, base, q_value, awr):
        """Law data at the current position; base: index (0-based) of the DLW style block."""
        r, X = self.r, self.X
        if law == 2:
            lp, e = r.choice([0, 1, 2]), q(r.uniform(0.1, 7))
            X.put([lp, e])
            return ['photon', lp, e * EV, awr]
        if law in (3, 33):
            a, b = q(r.uniform(0.01, 5)), q(r.uniform(0.5, 1))
            X.put([a, b])
            return ['level', a * EV, b]
        if law in (7, 9):
            f = self.func(0.1, 2.0, ys=EV)
            u = q(r.uniform(-20, -1))
            X.put([u])
            return [{7: 'maxwell', 9: 'evaporation'}[law], f, u * EV]
        if law == 11:
            a = self.func(0.1, 2.0, ys=EV)
            b = self.func(0.1, 2.0, ys=1 / EV)
            u = q(r.uniform(-20, -1))
            X.put([u])
            return ['watt', a, b, u * EV]
        if law == 66:
            n, m = r.choice([3, 4, 5]), q(r.uniform(1, 5))
            X.put([n, m])
            return ['nbody', m, n, awr, q_value]
        es, lpos, head = self.ein()
        out = []
        for k in range(len(es)):
            X[lpos + k] = len(X) - base + 1
            if law == 4:
                out.append(self.eout()[2])
            elif law == 44:
                row, n, d, x = self.eout(2)
                rr = [q(r.uniform(0, 1)) for _ in range(n)]
                aa = [q(r.uniform(0.1, 3)) for _ in range(n)]
                X[row:row + 2 * n] = rr + aa
                out.append([d, x, rr, aa])
            else:
                row, n, d, x = self.eout(1)
                mus = []
                for j in range(n):
                    if r.random() < 0.3:
                        mus.append('isotropic')
                        continue
                    X[row + j] = len(X) - base + 1
                    cos = self.incl(-1.0, 1.0, r.randrange(2, 5))
                    intt, p, c = self.pdf(cos)
                    X.put([intt, len(cos)] + cos + p + c)
                    mus.append([['', 'histogram', 'linear-linear'][intt], cos, p, c])
                out.append([d, mus])
        return [{4: 'continuous', 44: 'kalbach', 61: 'correlated'}[law]] + head + [out]

    def dlw(self, laws, base, q_value, awr, plain=False):
        """A chain of laws; returns (locator of the first, applicabilities, trees)."""
        X, r = self.X, self.r
        first = prev = None
        appl, ds = [], []
        for law in laws:
            here = len(X) - base + 1
            if prev is None:
                first = here
            else:
                X[prev] = here
            prev = X.put([0, law, 0])
            appl.append(self.func(0.0, 1.0, plain=plain or r.random() < 0.7))
            X[prev + 2] = len(X) - base + 1
            ds.append(self.law(law, base, q_value, awr))
        return first, appl, ds


def header(name, awr, kT, pairs, nxs, jxs, style=None):
    old = ['{:>10s}{:12.6f}{:12.4E} {:>10s}\n'.format(name[:10], awr, kT, '12/25/12'), '{:<70s}{:>10s}\n'.format('library table', '   mat9999')]
    if style == '2.0':
        old = ['2.0.0 {:>24s} {:>24s}\n'.format(name, 'SIM'), '{:12.6f} {:12.4E} {:>10s} {:4d}\n'.format(awr, kT, '12/25/12', 3), 'remark\n'] + old
    lines = list(old)
    pairs = list(pairs) + [(0, 0.0)] * (16 - len(pairs))
    for k in range(4):
        lines.append(''.join('{:7d}{:11.6f}'.format(*p) for p in pairs[4 * k:4 * k + 4]) + '\n')
    for a in (nxs, jxs):
        for k in range(0, len(a), 8):
            lines.append(''.join('{:9d}'.format(v) for v in a[k:k + 8]) + '\n')
    return lines


def body(X):
    out = []
    for k in range(0, len(X), 4):
        out.append(''.join('{:20d}'.format(v) if isinstance(v, int) else fmt(v) for v in X[k:k + 4]) + '\n')
    return ''.join(out)


def neutron(spec):
    r = random.Random('lib %d' % spec['seed'])
    zaid, scheme, name, Z, A, m = NUCLIDES[spec['nuclide']]
    zaid = spec.get('zaid', zaid)
    awr = spec['awr']
    kT = float('{:.4E}'.format(spec['T'] * KB / EV))
    n = spec['n']
    X = Xss()
    e0, e1 = 1e-11, 20.0
    energy = []
    while len(energy) < n:                                # well apart, see Tabulated1D
        energy = sorted({e0, e1} | {q(e0 * (e1 / e0) ** ((k + r.uniform(0.2, 0.8)) / (n - 1))) for k in range(1, n - 1)})
    M = Maker(r, X, energy)
    mts = sorted(set(spec['mts']))
    basic = [x for x in mts if not (x in SUMS and constituents(x, set(mts)))]
    xs = {}
    for x in basic:
        thr = r.randrange(1, n - 3) if x not in (18, 19, 102) and r.random() < 0.75 else 0
        v = [q(r.uniform(0.05, 9.0)) for _ in range(n - thr)]
        if thr and r.random() < 0.6:
            v[0] = 0.0
        xs[x] = [thr, v]

    def full(x):
        return np.concatenate([np.zeros(xs[x][0]), np.array(xs[x][1])])
    for x in (107, 103, 18, 16, 4):
        if x in mts and x not in basic:
            comp = constituents(x, set(mts) - {x})
            thr = min(xs[c][0] for c in comp)
            xs[x] = [thr, [q(v) for v in sum(full(c) for c in comp)[thr:]]]
    el = [q(r.uniform(1, 20)) for _ in range(n)]
    tot = np.array(el) + sum([full(c) for c in constituents(1, set(mts))], np.zeros(n))
    ab = sum([full(c) for c in constituents(101, set(mts))], np.zeros(n))
    jxs = [0] * 33
    nxs = [0] * 17
    jxs[1] = 1
    tot, ab = [q(v) for v in tot], [q(v) for v in ab]
    X.put(energy + tot + ab + el + [q(r.uniform(0.1, 5)) for _ in range(n)])
    T = temp(kT)
    tree = {'name': name, 'Z': Z, 'A': A, 'm': m, 'awr': float('{:.6f}'.format(awr)), 'energy': {T: [e * EV for e in energy]}, 'kT': {T: kT * EV},
            'reactions': {}, 'sums': {1: {T: tot}}, 'urr': {}}
    awr = tree['awr']
    if any(ab):
        tree['sums'][101] = {T: ab}
    delayed = spec.get('delayed', 0) if spec.get('fission') else 0
    fp = fd = None
    if spec.get('fission'):
        jxs[2] = X.at()
        if r.random() < 0.5:
            fp = {'particle': 'neutron', 'mode': 'prompt' if delayed else 'total', 'rate': 0.0, 'yield': M.yield_(2.2, 3.0), 'appl': [], 'dist': []}
            fd = []
        else:
            at = X.put([0])
            p = M.yield_(2.2, 3.0)
            X[at] = -(len(X) - at - 1)
            fp = {'particle': 'neutron', 'mode': 'prompt', 'rate': 0.0, 'yield': p, 'appl': [], 'dist': []}
            fd = [{'particle': 'neutron', 'mode': 'total', 'rate': 0.0, 'yield': M.yield_(2.2, 3.0), 'appl': [], 'dist': []}]
    neut = [x for x in mts if x in NEUTRONS or x in FISSION and spec.get('fission')]
    order = neut + [x for x in mts if x not in neut]
    jxs[3] = X.at()
    X.put(order)
    jxs[4] = X.at()
    qv = {x: q(r.uniform(-5, 5)) for x in order}
    X.put([qv[x] for x in order])
    jxs[5] = X.at()
    tyr = X.put([0] * len(order))
    for k, x in enumerate(neut):
        X[tyr + k] = 19 if x in FISSION else NEUTRONS[x] * r.choice([-1, 1])
    jxs[6] = X.at()
    loc = 1
    for x in order:
        X.put([loc])
        loc += 2 + len(xs[x][1])
    jxs[7] = X.at()
    for x in order:
        X.put([xs[x][0] + 1, len(xs[x][1])] + xs[x][1])
    jxs[8] = X.at()
    land = X.put([0] * (len(neut) + 1))
    jxs[9] = X.at()
    base = len(X)
    prods = {2: [{'particle': 'neutron', 'mode': 'prompt', 'rate': 0.0, 'yield': ['poly', [1.0]], 'appl': [], 'dist': [{'angle': None, 'energy': None}]}]}
    plan = {}
    for x in neut:
        lv = 50 < x < 91
        plan[x] = [3] if lv and r.random() < 0.8 else [r.choice([4, 4, 7, 9, 11, 44, 61, 66, 33]) for _ in range(1 if r.random() < 0.7 else r.randrange(2, 4))]
    ang = {}
    for k, x in enumerate([2] + neut):
        simple = x == 2 or all(l not in (44, 61, 66) for l in plan[x])
        if not simple:
            X[land + k] = -1
        elif r.random() < 0.6:
            X[land + k] = len(X) - base + 1
            ang[x] = M.angle(base)
    if len(X) == base:
        X.put([0])
    if 2 in ang:
        prods[2][0]['dist'][0]['angle'] = ang[2]
    jxs[10] = X.at()
    ldlw = X.put([0] * len(neut))
    jxs[11] = X.at()
    base = len(X)
    for k, x in enumerate(neut):
        if x in FISSION:
            p = {**fp, 'appl': [], 'dist': []}
        else:
            y = ['poly', [float(abs(X[tyr + k]))]]
            if r.random() < 0.2:
                X[tyr + k] = (1 if X[tyr + k] > 0 else -1) * (101 + len(X) - base)
                y = M.func(0.5, 3.0)
            p = {'particle': 'neutron', 'mode': 'prompt', 'rate': 0.0, 'yield': y, 'appl': [], 'dist': []}
        X[ldlw + k], p['appl'], ds = M.dlw(plan[x], base, qv[x] * EV, awr)
        for d in ds:
            p['dist'].append(d if d[0] in ('kalbach', 'correlated', 'nbody') else {'angle': ang.get(x), 'energy': d})
        prods[x] = [p]
    if len(X) == base:
        X.put([0])
    ph = []
    if spec.get('photons'):
        can = [x for x in mts if x in (16, 18, 102, 103) or 50 < x < 92 or x == 875]
        if 4 in mts or any(50 < x < 92 for x in mts):
            can += [4]
        if constituents(3, set(mts)):
            can += [3]                                    # read but not kept, see ASAPy.data.neutron
        if spec.get('orphans'):
            can += [x for x in (22, 107, 16) if x not in mts and not (x in SUMS and constituents(x, set(mts)))]         # photons of reactions that are not there
        can = can or [2]
        pr = random.Random('photons %d' % spec.get('photon_seed', spec['seed']))       # the same reactions at all temperatures
        ph = sorted({pr.choice(can) * 1000 + pr.randrange(1, 9) for _ in range(spec['photons'])})
    nopart = set()                                        # sums a reader lists because photons belong to them
    if any(p // 1000 == 4 for p in ph) and 4 not in mts:
        nopart.add(4)
    for x in (16, 103, 107):
        if x not in mts and constituents(x, set(mts)):
            nopart.add(x)
    dense = {x: full(x) for x in order}
    dense[2] = np.array(el)
    for x in nopart | ({3} if constituents(3, set(mts)) else set()):
        dense[x] = sum(dense[c] for c in constituents(x, set(mts)))
    if ph:
        jxs[12] = X.at()
        X.put([q(r.uniform(0.1, 9)) for _ in range(n)])
        jxs[13] = X.at()
        X.put(ph)
        jxs[14] = X.at()
        at = X.put([0] * len(ph))
        jxs[15] = X.at()
        base = len(X)
        pp = []
        for k, x in enumerate(ph):
            mt = x // 1000
            X[at + k] = len(X) - base + 1
            if r.random() < 0.6 or mt not in dense:
                X.put([r.choice([12, 16]), mt])
                y = M.func(0.2, 3.0)
            else:
                ie = r.randrange(0, n - 2)
                v = [q(r.uniform(0.01, 3)) for _ in range(n - ie)]
                X.put([13, ie + 1, n - ie] + v)
                d = dense[mt][ie:]
                y = ['tab', [e * EV for e in energy[ie:]], [a / b if b > 0 else 0.0 for a, b in zip(v, d)], [n - ie], [2]]
            pp.append({'particle': 'photon', 'mode': 'prompt', 'rate': 0.0, 'yield': y, 'appl': [], 'dist': []})
        jxs[16] = X.at()
        at = X.put([0] * len(ph))
        jxs[17] = X.at()
        base = len(X)
        an = []
        for k, p in enumerate(pp):
            if r.random() < 0.5:
                X[at + k] = len(X) - base + 1
                an.append(M.angle(base))
            else:
                an.append([[p['yield'][1][0], 'isotropic'], [p['yield'][1][-1], 'isotropic']])
        if len(X) == base:
            X.put([0])
        jxs[18] = X.at()
        at = X.put([0] * len(ph))
        jxs[19] = X.at()
        base = len(X)
        for k, p in enumerate(pp):
            X[at + k], _, ds = M.dlw([r.choice([2, 2, 4])], base, 0.0, awr, True)
            p['dist'] = [{'angle': an[k], 'energy': ds[0]}]
            prods.setdefault(ph[k] // 1000, []).append(p)
        jxs[20] = X.at()
        X.put([0])
    if spec.get('urr'):
        jxs[23] = X.at()
        N, W = r.choice([2, 3]), r.choice([2, 5])
        fl = [r.choice([2, 5]), r.choice([-1, 0, 4]), r.choice([-1, 0, 102]), r.choice([0, 1])]
        es = sorted(q(r.uniform(1e-3, 1e-1)) for _ in range(N))
        t = [q(r.uniform(0.05, 2)) for _ in range(N * 6 * W)]
        X.put([N, W] + fl + es + t)
        tab = np.array(t).reshape(N, 6, W)
        tab[:, 5, :] *= EV
        tree['urr'][T] = fl + [[e * EV for e in es], tab.tolist()]
    if delayed:
        jxs[24] = X.at()
        X.put([2])
        x = M.incl(energy[0], energy[-1], 3)
        yd = [q(r.uniform(.01, .02)) for _ in x]
        M.tab(x, yd, plain=True)
        jxs[25] = X.at()
        const = r.random() < 0.6
        group = []
        for k in range(delayed):
            rate = q(r.uniform(1e-10, 1e-7))
            X.put([rate])
            gx = M.incl(energy[0], energy[-1], r.randrange(2, 4))
            g = q(r.uniform(0.1, 0.3))
            gy = [g if const else q(r.uniform(0.1, 0.3)) for _ in gx]
            M.tab(gx, gy, plain=True)
            group.append((rate, gx, gy))
        s = sum(g[2][0] for g in group) if const else 1.0
        jxs[26] = X.at()
        at = X.put([0] * delayed)
        jxs[27] = X.at()
        base = len(X)
        dl = []
        for k, (rate, gx, gy) in enumerate(group):
            X[at + k], _, ds = M.dlw([4], base, 0.0, awr, True)
            if const:
                y = ['tab', [e * EV for e in x], [v * gy[0] / s for v in yd], [len(x)], [2]]
            else:
                u = sorted(set(x) | set(gx))
                y = ['tab', [e * EV for e in u], list(np.interp(u, x, yd) * np.interp(u, gx, gy)), [len(u)], [2]]
            dl.append({'particle': 'neutron', 'mode': 'delayed', 'rate': rate * 1e8, 'yield': y, 'appl': [], 'dist': [{'angle': None, 'energy': ds[0]}]})
        for x in neut:
            if x in FISSION:
                prods[x][1:1] = dl
    nxs[1:9] = [len(X), zaid % 1000000, n, len(order), len(neut), len(ph), 0, delayed]
    com = {x: X[tyr + k] < 0 for k, x in enumerate(order)}
    for x in [2] + order:
        if 200 < x < 219 or x == 444:
            continue                                      # gas production and damage are no reactions
        thr = 0 if x == 2 else xs[x][0]
        t = {'q': 0.0 if x == 2 else qv[x] * EV, 'com': True if x == 2 else com[x], 'xs': {T: [thr, el if x == 2 else xs[x][1]]}, 'products': prods.get(x, []),
             'total_nu': fd if x in FISSION and x in neut else []}
        t['redundant'] = x in SUMS and bool(constituents(x, set(mts) - {x}))
        tree['reactions'][x] = t
    for x in sorted(nopart):
        comp = constituents(x, set(mts))
        thr = min(xs[c][0] for c in comp)
        tree['reactions'][x] = {'q': 0.0, 'com': True, 'xs': {T: [thr, list(dense[x][thr:])]}, 'products': prods.get(x, []) if x == 4 else [],
                                'total_nu': [], 'redundant': True}
    text = ''.join(header('%d.%s' % (zaid, spec.get('ext', '70c')), awr, kT, [], nxs[1:], jxs[1:], spec.get('style'))) + body(X)
    return text, complete(tree)


def merge(trees):
    """The first table with the temperatures of the others added."""
    import copy
    t = copy.deepcopy(trees[0])
    for o in trees[1:]:
        (T, e), = o['energy'].items()
        if T in t['energy']:
            continue
        t['energy'][T] = e
        t['kT'].update(o['kT'])
        t['urr'].update(o['urr'])
        for m, x in o['reactions'].items():
            if m in t['reactions']:
                t['reactions'][m]['xs'].update(x['xs'])
        for m, x in o['sums'].items():
            if m in t['sums']:
                t['sums'][m].update(x)
    return t


def exported(tree):
    """What of a tree goes to a library file: redundant sums only if someone needs their data."""
    import copy
    t = copy.deepcopy(tree)
    for m in list(t['reactions']):
        x = t['reactions'][m]
        if x['redundant'] and not any(p['particle'] == 'photon' for p in x['products']) and m not in (4, 16, 103, 104, 105, 106, 107):
            t['sums'].setdefault(m, {T: list(np.concatenate([np.zeros(a), v])) for T, (a, v) in x['xs'].items()})
            del t['reactions'][m]
    return t


def between(x):
    """The middles of the intervals."""
    return [(a + b) / 2 for a, b in zip(x, x[1:]) if b > a]


def values_between(x, y, bp, it):
    out = []
    for v in between(x):
        i = max(k for k in range(len(x)) if x[k] <= v)
        law = it[min(k for k in range(len(bp)) if i + 2 <= bp[k])]
        t = np.log(v / x[i]) / np.log(x[i + 1] / x[i]) if law in (3, 5) else (v - x[i]) / (x[i + 1] - x[i])
        a, b = y[i], y[i + 1]
        out.append(a if law == 1 else a + t * (b - a) if law in (2, 3) else a * (b / a) ** t)
    return [float(v) for v in out]


def complete(t):
    """Add the values between the points to all tabulated functions of a tree."""
    if isinstance(t, dict):
        for v in t.values():
            complete(v)
    elif isinstance(t, list):
        if t[:1] == ['tab']:
            if len(t) == 5:
                t.append(values_between(*t[1:]))
        else:
            for v in t:
                if isinstance(v, (dict, list)):
                    complete(v)
    return t


# ------------------------------------------------------------------ trees of objects
def L(a):
    return np.asarray(a, float).tolist()


def of_func(f):
    k = type(f).__name__
    if k == 'Tabulated1D':
        return ['tab', L(f.x), L(f.y), [int(v) for v in f.breakpoints], [int(v) for v in f.interpolation], L(f(np.array(between(L(f.x)))))]
    if k == 'Polynomial':
        return ['poly', L(f.coef)]
    return [k]


def of_dist(d):
    k = type(d).__name__
    if k == 'Uniform':
        return 'isotropic' if (d.a, d.b) == (-1.0, 1.0) else ['uniform', d.a, d.b]
    if k == 'Tabular':
        if L(d.x) == [-1.0, 1.0] and L(d.p) == [0.5, 0.5] and L(d.c) == [0.0, 1.0]:
            return 'isotropic'
        return [d.interpolation, L(d.x), L(d.p), L(d.c)]
    if k == 'Discrete':
        return ['discrete', L(d.x), L(d.p), L(d.c)]
    if k == 'Mixture':
        return ['mixture', L(d.probability)] + [of_dist(x) for x in d.distribution]
    return [k]


def of_angle(a):
    return None if a is None else [[float(e), of_dist(m)] for e, m in zip(a.energy, a.mu)] if len(a.energy) == len(a.mu) else ['lengths']


def of_head(d):
    return [[int(v) for v in d.breakpoints], [int(v) for v in d.interpolation], L(d.energy)]


def of_law(d):
    k = type(d).__name__
    if d is None:
        return None
    if k == 'UncorrelatedAngleEnergy':
        return {'angle': of_angle(d.angle), 'energy': of_law(d.energy)}
    if k == 'DiscretePhoton':
        return ['photon', int(d.primary_flag), float(d.energy), float(d.atomic_weight_ratio)]
    if k == 'LevelInelastic':
        return ['level', float(d.threshold), float(d.mass_ratio)]
    if k in ('MaxwellEnergy', 'Evaporation'):
        return [{'MaxwellEnergy': 'maxwell', 'Evaporation': 'evaporation'}[k], of_func(d.theta), float(d.u)]
    if k == 'WattEnergy':
        return ['watt', of_func(d.a), of_func(d.b), float(d.u)]
    if k == 'NBodyPhaseSpace':
        return ['nbody', float(d.total_mass), int(d.n_particles), float(d.atomic_weight_ratio), float(d.q_value)]
    if k == 'ContinuousTabular':
        return ['continuous'] + of_head(d) + [[of_dist(x) for x in d.energy_out]]
    if k == 'KalbachMann':
        return ['kalbach'] + of_head(d) + [[[of_dist(x), L(p.x), L(p.y), L(s.y)] for x, p, s in zip(d.energy_out, d.precompound, d.slope)]]
    if k == 'CorrelatedAngleEnergy':
        return ['correlated'] + of_head(d) + [[[of_dist(x), [of_dist(m) for m in mu]] for x, mu in zip(d.energy_out, d.mu)]]
    return [k]


def of_product(p):
    return {'particle': p.particle, 'mode': p.emission_mode, 'rate': float(p.decay_rate), 'yield': of_func(p.yield_), 'appl': [of_func(f) for f in p.applicability],
            'dist': [of_law(d) for d in p.distribution]}


def of_neutron(obj):
    t = {'name': obj.name, 'Z': int(obj.atomic_number), 'A': int(obj.mass_number), 'm': int(obj.metastable), 'awr': float(obj.atomic_weight_ratio),
         'energy': {T: L(e) for T, e in obj.energy.items()}, 'kT': {}, 'reactions': {}, 'urr': {}, 'dense': {}}
    for T, k in zip(obj.temperatures, obj.kTs):
        t['kT'][T] = float(k)
    for m, rx in obj.reactions.items():
        x = {'q': float(rx.q_value), 'com': bool(rx.center_of_mass), 'xs': {}, 'redundant': bool(rx.redundant), 'products': [of_product(p) for p in rx.products],
             'total_nu': [of_product(p) for p in rx.derived_products], 'mt': int(rx.mt)}
        dense = {}
        for T, f in rx.xs.items():
            e = obj.energy[T]
            dense[T] = L(f(np.array(e)))
            if type(f).__name__ == 'Tabulated1D':
                a = len(e) - len(f.x)
                x['xs'][T] = [a if L(f.x) == L(e[a:]) else 'other energies', L(f.y)]
        t['reactions'][int(m)] = x
        t['dense'][int(m)] = dense
    for T, u in obj.urr.items():
        t['urr'][T] = [int(u.interpolation), int(u.inelastic_flag), int(u.absorption_flag), int(u.multiply_smooth), L(u.energy), L(u.table)]
    return t


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        return a == b
    return abs(a - b) <= 1e-10 * max(abs(a), abs(b)) + 1e-300


def diff(a, b, where=''):
    """The first difference of two trees, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: %s instead of %s' % (where, sorted(map(str, a)), sorted(map(str, b)))
        for k in b:
            d = diff(a[k], b[k], '%s %s' % (where, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d entries instead of %d' % (where, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (where, i))
            if d:
                return d
        return None
    return None if close(a, b) else '%s: %r instead of %r' % (where, a, b)


def neutron_differs(got, want, back):
    """got: of_neutron of an object; want: tree of the tables; back: the object comes from a library file."""
    for k in ('name', 'Z', 'A', 'm', 'awr', 'energy', 'kT', 'urr', 'release'):
        d = diff(got[k], want[k], k)
        if d:
            return d
    have = set(want['reactions'])
    for m, x in sorted(want['reactions'].items()):
        if m not in got['reactions']:
            return 'MT %d is missing' % m
        g = got['reactions'][m]
        if g.get('mt') != m:
            return 'MT %d is MT %r' % (m, g.get('mt'))
        for k in ('q', 'com', 'xs', 'products', 'redundant') + (('total_nu',) if not (back and x['redundant']) else ()):
            d = diff(g[k], x[k], 'MT %d %s' % (m, k))
            if d:
                return d
    for m, x in sorted(want['sums'].items()):
        if m not in got['dense']:
            return 'sum MT %d is missing' % m
        if not got['reactions'][m]['redundant']:
            return 'sum MT %d is taken for a reaction of its own' % m
        for T, v in x.items():
            g = got['dense'][m].get(T)
            if g is None or len(g) != len(v) or not np.allclose(g, v, rtol=1e-8, atol=1e-12):
                return 'sum MT %d at %s is not the sum of its members' % (m, T)
    for m in sorted(set(got['reactions']) - have - set(want['sums'])):
        if not back or m not in SUMS:
            return 'MT %d is not in the tables' % m
        comp = constituents(m, have - {m})
        if not comp:
            return 'sum MT %d has no members in the tables' % m
        if not got['reactions'][m]['redundant']:
            return 'sum MT %d is taken for a reaction of its own' % m
        nu = [want['reactions'][c]['total_nu'] for c in comp if m == 18 and want['reactions'][c]['total_nu']][:1] or [[]]
        d = diff(got['reactions'][m]['total_nu'], nu[0], 'MT %d total_nu' % m)
        if d:
            return d
        for T, e in want['energy'].items():
            v = np.zeros(len(e))
            for c in comp:
                a, y = want['reactions'][c]['xs'][T]
                v[a:a + len(y)] += y
            g = got['dense'][m].get(T)
            if g is None or len(g) != len(v) or not np.allclose(g, v, rtol=1e-8, atol=1e-12):
                return 'sum MT %d at %s is not the sum of its members' % (m, T)
    return None


# ------------------------------------------------------------------ thermal scattering
def thermal(spec):
    r = random.Random('thermal %d' % spec['seed'])
    table, name, za, nuclides = spec['custom'] if 'custom' in spec else THERMAL[spec['material']]
    awr = float('{:.6f}'.format(spec['awr']))
    kT = float('{:.4E}'.format(spec['T'] * KB / EV))
    T = temp(kT)
    X = Xss()
    jxs, nxs = [0] * 33, [0] * 17
    n = r.randrange(2, 7)
    M = Maker(r, X, [1e-11, 4e-6])
    e = M.incl(1e-11, 4e-6, n)
    n = len(e)
    xs = [q(r.uniform(1, 80)) for _ in e]
    jxs[1] = 1
    X.put([n] + e + xs)
    jxs[2] = 1 + 1 + n
    jxs[3] = X.at()
    mode = spec['mode']
    nmu = r.randrange(1, 5)
    tree = {'name': spec.get('as') or name, 'awr': awr, 'kT': {T: kT * EV}, 'mode': mode, 'nuclides': list(nuclides),
            'inelastic': {T: ['tab', [v * EV for v in e], xs, [n], [2]]}, 'e_out': {}, 'mu_out': {}, 'dist': {}, 'elastic': {}, 'elastic_mu': {}}
    if mode in ('equal', 'skewed'):
        no = r.randrange(1, 5)
        eo, mu = [], []
        for _ in e:
            eo.append([]), mu.append([])
            for _ in range(no):
                v = q(r.uniform(1e-11, 4e-6))
                m = [q(r.uniform(-1, 1)) for _ in range(nmu + 1)]
                X.put([v] + m)
                eo[-1].append(v * EV)
                mu[-1].append(m)
        tree['e_out'][T], tree['mu_out'][T] = eo, mu
        nxs[3], nxs[4], nxs[7] = nmu, no, 0 if mode == 'equal' else 1
    else:
        lpos = X.put([0] * n)
        npos = X.put([0] * n)
        nxs[3], nxs[4], nxs[7] = nmu + 1, 0, 2
        out = []
        for k in range(n):
            X[lpos + k] = len(X)
            x = M.incl(1e-11, 4e-6, r.randrange(2, 6))
            X[npos + k] = len(x)
            p = [q(r.uniform(0.1, 9)) for _ in x]
            c = sorted(q(r.random()) for _ in x)
            mus = []
            for a, b, d in zip(x, p, c):
                m = sorted(q(r.uniform(-1, 1)) for _ in range(nmu))
                X.put([a, b, d] + m)
                mus.append(['discrete', m, [1.0 / nmu] * nmu, [float(v) for v in np.cumsum([1.0 / nmu] * nmu)]])
            out.append([['linear-linear', [v * EV for v in x], [v / EV for v in p], c], mus])
        tree['dist'][T] = ['correlated', [n], [2], [v * EV for v in e], out]
    el = spec.get('elastic')
    nxs[6] = -1
    if el:
        jxs[4] = X.at()
        m = r.randrange(2, 6)
        ee = M.incl(1e-10, 4e-6, m)
        m = len(ee)
        P = sorted(q(r.uniform(0.01, 5)) for _ in ee)
        X.put([m] + ee + P)
        jxs[5] = jxs[4] + 1 + m
        if el == 'coherent':
            nxs[5] = 4
            tree['elastic'][T] = ['bragg', [v * EV for v in ee], [v * EV for v in P]]
        else:
            nxs[5] = 3
            k = r.randrange(1, 5)
            nxs[6] = k - 1
            jxs[6] = X.at()
            mu = [[q(r.uniform(-1, 1)) for _ in range(k)] for _ in ee]
            X.put([v for row in mu for v in row])
            tree['elastic'][T] = ['tab', [v * EV for v in ee], P, [m], [2]]
            tree['elastic_mu'][T] = mu
    nxs[1], nxs[2] = len(X), 3
    return ''.join(header('%s.%s' % (table, spec.get('ext', '20t')), awr, kT, [(z, 1.0) for z in za], nxs[1:], jxs[1:], spec.get('style'))) + body(X), complete(tree)


def merge_thermal(trees):
    import copy
    t = copy.deepcopy(trees[0])
    for o in trees[1:]:
        (T, k), = o['kT'].items()
        if T in t['kT']:
            continue
        for f in ('kT', 'inelastic', 'e_out', 'mu_out', 'dist', 'elastic', 'elastic_mu'):
            t[f].update(o[f])
    return t


def of_thermal(obj):
    return {'name': obj.name, 'awr': float(obj.atomic_weight_ratio), 'kT': {T: float(k) for T, k in zip(obj.temperatures, obj.kTs)}, 'mode': obj.secondary_mode,
            'nuclides': [str(x) for x in obj.nuclides], 'inelastic': {T: of_func(f) for T, f in obj.inelastic_xs.items()},
            'e_out': {T: L(v) for T, v in obj.inelastic_e_out.items()}, 'mu_out': {T: L(v) for T, v in obj.inelastic_mu_out.items()},
            'dist': {T: of_law(v) for T, v in obj.inelastic_dist.items()},
            'elastic': {T: of_func(f) if type(f).__name__ == 'Tabulated1D' else ['bragg', L(f.bragg_edges), L(f.factors)] for T, f in obj.elastic_xs.items()},
            'elastic_mu': {T: L(v) for T, v in obj.elastic_mu_out.items()}}


# ------------------------------------------------------------------ windowed multipole data
def multipole(spec):
    r = random.Random(spec['seed'])
    n, w, order, k = spec['poles'], spec['windows'], spec['order'], 3 if spec['fission'] else 2
    emin = r.uniform(1e-5, 1)
    spacing = r.uniform(0.5, 2)
    win = []
    a = 1
    for _ in range(w):
        b = r.randrange(a - 1, n + 1)
        win.append([a, b])
        a = max(1, min(n, b + r.choice([-1, 0, 1])))
    t = {'name': NUCLIDES[spec['nuclide']][2], 'spacing': spacing, 'sqrtAWR': r.uniform(1, 15), 'E_min': emin, 'E_max': (emin ** 0.5 + w * spacing) ** 2,
            'data': [[[r.uniform(-9, 99), r.uniform(-1, 1)] for _ in range(k + 1)] for _ in range(n)], 'windows': win,
            'broaden': [r.random() < 0.5 for _ in range(w)], 'curvefit': [[[r.uniform(-5, 5) for _ in range(k)] for _ in range(order + 1)] for _ in range(w)]}
    t['at'] = multipole_points(t)
    t['xs'] = [multipole_xs(t, T, E) for T in TEMPS for E in t['at']]
    return t


TEMPS = (0, 293.6, 2.0e5)


def multipole_points(t):
    """Energies below, in each window of, at the ends of and above the range."""
    x = t['E_min'] ** 0.5
    return [t['E_min'] / 2] + [t['E_min']] + [(x + (k + f) * t['spacing']) ** 2 for k in range(len(t['windows'])) for f in (0.25, 0.9)] + [t['E_max'], t['E_max'] * 1.5]


def multipole_xs(t, T, E):
    """[value, scale] of scattering, absorption and fission, from the definition: the curve fit, Doppler broadened by quadrature of the free gas kernel where asked for, and the poles of the window."""
    if not t['E_min'] <= E <= t['E_max']:
        return [[0.0, 0.0]] * 3
    from scipy.special import wofz
    x = E ** 0.5
    w = min(int((x - t['E_min'] ** 0.5) / t['spacing'] + 1e-9), len(t['windows']) - 1)
    n = len(t['curvefit'][w])
    terms = [x ** (k - 2) for k in range(n)]
    if T:
        dopp = t['sqrtAWR'] / (KB * T) ** 0.5
        if t['broaden'][w]:
            y = np.linspace(max(0.0, x - 12 / dopp), x + 12 / dopp, 8001)
            kernel = np.exp(-(dopp * (x - y)) ** 2) - np.exp(-(dopp * (x + y)) ** 2)
            wt = np.ones(y.size)
            wt[1:-1:2], wt[2:-1:2] = 4, 2
            wt *= (y[1] - y[0]) / 3 * kernel * dopp / np.pi ** 0.5 / E
            terms = [float((wt * y ** k).sum()) for k in range(n)]
    out = []
    for c in range(3):
        if c == len(t['curvefit'][w][0]):
            out.append([0.0, 0.0])
            continue
        parts = [t['curvefit'][w][k][c] * terms[k] for k in range(n)]
        for p in t['data'][t['windows'][w][0] - 1:t['windows'][w][1]]:
            pole, res = complex(*p[0]), complex(*p[1 + c])
            if T:
                z = (x - pole) * dopp
                f = (wofz(z) if z.imag > 0 else -np.conj(wofz(z.conjugate()))) * dopp / E * np.pi ** 0.5
            else:
                f = -1j / (pole - x) / E
            parts += [float((res * f).real), float(abs(res * f)) * 1e-6, -float(abs(res * f)) * 1e-6]
        out.append([sum(parts), sum(abs(v) for v in parts)])
    return out


def multipole_differs(got, want):
    for k in want:
        if k not in ('at', 'xs'):
            d = diff(got[k], want[k], k)
            if d:
                return d
    pts = [(T, E) for T in TEMPS for E in want['at']]
    for how in ('at_once', 'one_by_one'):
        for (T, E), g, w in zip(pts, got[how], want['xs']):
            for c, a, (b, s) in zip(('scattering', 'absorption', 'fission'), g, w):
                if not abs(a - b) <= 1e-7 * s:
                    return 'the %s cross section at %r eV and %r K (%s) is %r instead of %r' % (c, E, T, how.replace('_', ' '), a, b)
    return None


def build_multipole(C, t):
    d = C(t['name'])
    d.spacing, d.sqrtAWR, d.E_min, d.E_max = t['spacing'], t['sqrtAWR'], t['E_min'], t['E_max']
    d.data = np.array([[complex(*z) for z in p] for p in t['data']])
    d.windows = np.array(t['windows'])
    d.broaden_poly = np.array(t['broaden'])
    d.curvefit = np.array(t['curvefit'])
    return d


def of_multipole(obj):
    at = multipole_points({'E_min': float(obj.E_min), 'E_max': float(obj.E_max), 'spacing': float(obj.spacing), 'windows': obj.windows})
    at_once = []
    for T in TEMPS:
        at_once += np.array(obj(np.array(at), T), dtype=float).T.tolist()
    return {'name': obj.name, 'spacing': float(obj.spacing), 'sqrtAWR': float(obj.sqrtAWR), 'E_min': float(obj.E_min), 'E_max': float(obj.E_max),
            'data': [[[float(z.real), float(z.imag)] for z in p] for p in np.asarray(obj.data)], 'windows': np.asarray(obj.windows).tolist(),
            'broaden': [bool(x) for x in obj.broaden_poly], 'curvefit': L(obj.curvefit), 'at_once': at_once, 'one_by_one': [[float(v) for v in obj(E, T)] for T in TEMPS for E in at]}


# ------------------------------------------------------------------ energy release of fission
PARTS = ('fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas', 'neutrinos')
TOTALS = {'recoverable': (PARTS[:6], 0), 'total': (PARTS, 0), 'q_prompt': (('fragments', 'prompt_neutrons', 'prompt_photons'), -1), 'q_recoverable': (PARTS[:6], -1), 'q_total': (PARTS, -1)}


def release(seed):
    """Parts and, at some energies, sums."""
    r = random.Random(seed)
    x = sorted(r.sample([1e-5, 1.0, 2.5e5, 1e6, 4e6, 1.4e7, 2e7], r.randrange(2, 6)))
    t = {}
    for p in PARTS:
        if r.random() < 0.3:
            t[p] = ['tab', x, [r.uniform(1e6, 2e8) for _ in x]]
        else:
            t[p] = ['poly', [r.uniform(1e6, 2e8)] + [r.uniform(-0.5, 0.5) / 1e6 ** k for k in range(r.choice([0, 1, 2]))]]
    if all(f[0] == 'poly' for f in t.values()):
        x = [1e6, 2e6]
    value = {p: np.array(f[2]) if f[0] == 'tab' else sum(c * np.array(x) ** k for k, c in enumerate(f[1])) for p, f in t.items()}
    return {'parts': t, 'x': x, 'sums': {s: L(sum(value[p] for p in ps) + k * np.array(x)) for s, (ps, k) in TOTALS.items()}}


def build_release(t):
    from ASAPy.data.fission_energy import FissionEnergyRelease
    from ASAPy.data.function import Polynomial, Tabulated1D
    return FissionEnergyRelease(**{p: Polynomial(f[1]) if f[0] == 'poly' else Tabulated1D(np.array(f[1]), np.array(f[2])) for p, f in t['parts'].items()})


def of_release(obj):
    parts = {}
    for p in PARTS:
        f = of_func(getattr(obj, p))
        parts[p] = f[:3] if f[0] == 'tab' and all(v == 2 for v in f[4]) else f
    x = ([f[1] for f in parts.values() if f[0] == 'tab'] + [[1e6, 2e6]])[0]
    return {'parts': parts, 'x': x, 'sums': {s: L(getattr(obj, s)(np.array(x))) for s in TOTALS}}
