"""Synthetic resonance parameters (MF=2) and their covariances (MF=32) with known content."""
import math

import numpy as np

from . import core, gen_endf
from .gen_endf import cont, fv, ints, lst, tab1

BW = ['energy', 'L', 'J', 'totalWidth', 'neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth']
RM = ['energy', 'L', 'J', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB']
SAMPLED = {1: ['energy', 'neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth'], 3: ['energy', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB']}
SAMPLED[2] = SAMPLED[1]
NROW = {2: 18, 3: 12, 4: 11, 5: 9}
NUCLIDES = [(26, 56), (40, 90), (47, 109), (72, 178), (92, 235), (92, 238), (94, 239)]


def num(r, a, b):
    return fv(math.exp(r.uniform(math.log(a), math.log(b))))


def build(sp):
    """Text of the evaluation and its content."""
    r = core.rng_for('res', sp['seed'])
    Z, A = NUCLIDES[sp['nuclide']]
    za, awr = 1000.0 * Z + A, fv(round(0.991 * A, 3))
    lrf, lcomp = sp['lrf'], sp['lcomp']
    lfw = 1 if sp['fission'] else 0
    spi, ap = r.choice([0.0, 0.5, 3.5]), num(r, 0.3, 1.2)
    el, eh = 1e-5, fv(10 ** r.uniform(3.1, 4))
    nls, naps = sp['nls'], sp['naps']
    nro = sp['nro']
    # the resonances, by l
    used, rows = set(), []
    for l in range(nls):
        out = []
        for _ in range(sp['nres'][l]):
            E = num(r, 1.0, 1000.0)
            while E in used:
                E = num(r, 1.0, 1000.0)
            used.add(E)
            out.append(E)
        for E in sorted(out):
            J = r.choice([0.5, 1.0, 3.0, 4.0]) * (-1 if lrf == 3 and r.random() < 0.25 else 1)      # (the sign is the channel spin)
            gn, gg = num(r, 0.01, 0.5), num(r, 0.02, 0.2)
            if lrf < 3:
                gf = num(r, 0.01, 0.3) if sp['fission'] else 0.0
                gx = num(r, 0.01, 0.1) if sp['competitive'] else 0.0
                gt = fv(gn + gg + gf + gx)
                rows.append({'energy': E, 'L': l, 'J': J, 'totalWidth': gt, 'neutronWidth': gn, 'captureWidth': gg, 'fissionWidth': gf, 'competitiveWidth': gt - (gn + gg + gf) if sp['competitive'] else 0.0})
            else:
                fa = num(r, 0.01, 0.3) if sp['fission'] else 0.0
                fb = num(r, 0.01, 0.3) if sp['fission'] == 2 else 0.0
                rows.append({'energy': E, 'L': l, 'J': J, 'neutronWidth': gn, 'captureWidth': gg, 'fissionWidthA': fa, 'fissionWidthB': fb})

    def six(x):
        return [x[k] for k in (('energy', 'J', 'totalWidth', 'neutronWidth', 'captureWidth', 'fissionWidth') if lrf < 3 else ('energy', 'J', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB'))]
    ner = 1 + (sp['unresolved'] is not None)
    s2 = [cont(za, awr, 0, 0, 1, 0), cont(za, 1.0, 0, lfw, ner, 0), cont(el, eh, 1, lrf, nro, naps)]
    radius = {}
    if nro:
        x = [el, 10.0, eh]
        y = [num(r, 0.3, 1.2) for _ in x]
        s2 += tab1(0, 0, 0, 0, x, y)
        ape = lambda e: float(np.interp(e, x, y))
    s2.append(cont(spi, ap, 0, 0, nls, r.choice([0, nls]) if lrf == 3 else 0))
    at = [1.0, 50.0, 700.0]
    for l in range(nls):
        mine = [x for x in rows if x['L'] == l]
        apl = ap
        if lrf == 3 and r.random() < 0.5:
            apl = num(r, 0.3, 1.2)
        q = fv(-r.uniform(1e4, 1e5)) if sp['competitive'] else 0.0
        s2 += lst(awr, (0.0 if apl == ap else apl) if lrf == 3 else q, l, 1 if lrf < 3 and sp['competitive'] else 0, len(mine), [v for x in mine for v in six(x)])
        a = 0.123 * (1.00866491588 * awr) ** (1 / 3.) + 0.08
        if nro == 0:
            radius[l] = [[apl] * 3, [[a, apl][naps]] * 3]
        else:
            radius[l] = [[ape(e) for e in at], [[a] * 3, [ape(e) for e in at], [apl] * 3][naps]]
    tree = {'rows': rows, 'columns': BW if lrf < 3 else RM, 'spin': spi, 'range': [el, eh], 'radius': radius, 'unresolved': None, 'lrf': lrf, 'lcomp': lcomp}
    u = sp['unresolved']
    if u is not None:
        # fission widths given or not is said once for all ranges: case A without, case B with
        if u == 'AB':
            u = 'B' if lfw else 'A'
        ul, uh, sp2, ap2, lssf = eh, fv(eh * 30), r.choice([0.0, 0.5]), num(r, 0.3, 1.2), r.choice([0, 1])
        s2.append(cont(ul, uh, 2, 2 if u == 'C' else 1, 0, 0))
        n = r.choice([1, 2])
        es = sorted({num(r, ul, uh) for _ in range(r.randrange(2, 6))})
        tree['unresolved'] = {'case': u, 'range': [ul, uh], 'background': lssf == 0, 'spin': sp2, 'radius': ap2}
        rec = []
        if u in 'AC':
            s2.append(cont(sp2, ap2, lssf, 0, n, 0))
        else:
            s2 += lst(sp2, ap2, lssf, 0, n, es)
            rec = [[] for _ in es]
        for l in range(n):
            js = r.sample([0.5, 1.0, 1.5, 2.0], r.choice([1, 2, 3]))
            if u == 'A':
                v = []
                for j in js:
                    x = [num(r, 1, 100), j, 1.0, num(r, 1e-4, 1e-2), num(r, 0.01, 0.2), 0.0]
                    v += x
                    rec.append([l, j, x[0], x[2], x[3], x[4], 0.0])
                s2 += lst(awr, 0.0, l, 0, len(js), v)
                continue
            s2.append(cont(awr, 0.0, l, 0, len(js), 0))
            for j in js:
                if u == 'B':
                    x = [num(r, 1, 100), j, 1.0, num(r, 1e-4, 1e-2), num(r, 0.01, 0.2), 0.0]
                    gf = [num(r, 0.01, 1) for _ in es]
                    s2 += lst(0.0, 0.0, l, 1, 0, x + gf)
                    for k, g in enumerate(gf):
                        rec[k].append([l, j, x[0], x[2], x[3], x[4], g])
                else:
                    v = [0.0, 0.0, 1.0, 2.0, 0.0, 3.0]
                    for e in es:
                        x = [e, num(r, 1, 100), num(r, 1e-3, 1e-2), num(r, 1e-4, 1e-2), num(r, 0.01, 0.2), num(r, 0.01, 1)]
                        v += x
                        rec.append([l, j] + x)
                    s2 += lst(j, 0.0, 2, 0, len(es), v)
        tree['unresolved'].update(energies=es if u == 'B' else None, records=rec)
    # covariances
    order = list(range(len(rows)))
    if sp['order'] == 'energy' and lcomp:
        order.sort(key=lambda k: rows[k]['energy'])
    if lcomp == 0:
        mpar = 4
    elif lcomp == 2:
        mpar = 3 + (1 if sp['fission'] else 0) + (1 if lrf == 3 and sp['fission'] == 2 else 0)
    else:
        mpar = sp['mpar']
    n = len(rows) * mpar
    names = SAMPLED[lrf][:mpar]
    sd = np.array([0.01 * r.uniform(0.1, 1) if k == 'energy' else fv(abs(rows[o][k]) * r.uniform(0.01, 0.08) * (12 if sp['wide'] else 1)) for o in order for k in names])
    sd = np.array([fv(v) for v in sd])
    if sp['exact'] and (lcomp < 2 or lrf < 3):
        sd = sd * np.array([r.random() > 0.15 or lcomp == 2 and m > 2 for o in order for m in range(mpar)])
        if not sd.any():
            sd[0] = 0.005
    g = np.random.RandomState(sp['seed'] % 2 ** 32)
    a = g.normal(size=(n, n + 2)) + g.normal(size=(1, n + 2)) * g.choice([0.0, 1.0])
    c = a @ a.T
    c = 0.7 * c / np.sqrt(np.outer(c.diagonal(), c.diagonal())) + 0.3 * np.eye(n)
    if sp['sparse']:
        c = 0.5 * c * (1 - np.eye(n)) * (g.random_sample((n, n)) < 0.5) / max(1, n / 4) + np.eye(n)
        c = np.triu(c) + np.triu(c, 1).T
    s32 = [cont(za, awr, 0, 0, 1, 0), cont(za, 1.0, 0, lfw, 1 + (sp['unresolved'] is not None and sp['urrcov']), 0), cont(el, eh, 1, lrf, 0, naps), cont(spi, ap, 0, lcomp, nls if lcomp == 0 else 0, 0)]
    cov = np.zeros((n, n))
    if lcomp == 0:
        k = 0
        for l in range(nls):
            v = []
            for x in [x for x in rows if x['L'] == l]:
                q = np.outer(sd[k:k + 4], sd[k:k + 4]) * c[k:k + 4, k:k + 4]
                w = [fv(q[0, 0]), fv(q[1, 1]), fv(q[1, 2]), fv(q[2, 2]), fv(q[1, 3]), fv(q[2, 3]), fv(q[3, 3])]
                cov[k, k], cov[k + 1, k + 1], cov[k + 1, k + 2], cov[k + 2, k + 2], cov[k + 1, k + 3], cov[k + 2, k + 3], cov[k + 3, k + 3] = w
                v += six(x) + w + [0.0] * 5
                k += 4
            s32 += lst(awr, 0.0, l, 0, len(v) // 18, v)
    elif lcomp == 1:
        q = np.outer(sd, sd) * c
        cuts = sorted(r.sample(range(1, len(rows)), min(len(rows) - 1, sp['blocks'] - 1)))
        s32.append(cont(awr, 0.0, 0, 0, len(cuts) + 1, 0))
        for b, e in zip([0] + cuts, cuts + [len(rows)]):         # resonances of different blocks are not correlated
            iu = tuple(t + b * mpar for t in np.triu_indices((e - b) * mpar))
            v = [fv(t) for t in q[iu]]
            cov[iu] = v
            s32 += lst(0.0, 0.0, mpar, 0, e - b, [t for o in order[b:e] for t in six(rows[o])] + v)
    else:
        v = []
        for j, o in enumerate(order):
            d = dict(zip(names, sd[j * mpar:(j + 1) * mpar].tolist()))
            x = rows[o]
            unc = [d.get('energy', 0.0), 0.0] + ([0.0, d['neutronWidth'], d['captureWidth'], d.get('fissionWidth', 0.0)] if lrf < 3 else
                                                [d['neutronWidth'], d['captureWidth'], d.get('fissionWidthA', 0.0), d.get('fissionWidthB', 0.0)])
            v += six(x) + unc
        s32 += lst(awr, 0.0, 0, 0, len(rows), v)
        nd = sp['ndigit']
        f = 10 ** nd
        ci = np.trunc(np.tril(c, -1) * f).astype(int)
        lines = []
        for i in range(1, n):
            j = 0
            while j < i:
                if ci[i, j] == 0 and sp['sparse']:
                    j += 1
                    continue
                vals = [int(t) for t in ci[i, j:min(i, j + NROW[nd])]]
                if any(vals):
                    t = '%5d%5d ' % (i + 1, j + 1) + ''.join(('%*d' % (nd + 1, t)) if t or not sp['blank'] else ' ' * (nd + 1) for t in vals)
                    lines.append(t.ljust(66))
                j += len(vals)
        s32 += [cont(0.0, 0.0, nd, n, len(lines), 0)] + lines
        dec = np.where(ci > 0, (ci + 0.5) / f, np.where(ci < 0, (ci - 0.5) / f, 0.0))
        dec = dec + dec.T + np.eye(n)
        cov = np.triu(np.outer(sd, sd) * dec)
    if sp['unresolved'] is not None and sp['urrcov']:
        s32 += [cont(eh, fv(eh * 30), 2, 1, 0, 0), cont(0.5, 0.9, 0, 0, 1, 0)] + lst(awr, 0.0, 0, 0, 1, [10.0, 0.5, 1e-4, 0.02, 0.0, 0.0]) + lst(0.0, 0.0, 1, 0, 1, [1e-4])
    tree.update(cov=(cov + np.triu(cov, 1).T).tolist(), order=order, mpar=mpar, names=names)
    secs = {(2, 151): s2, (32, 151): s32}
    spec = {'mat': 100 * Z + 25, 'Z': Z, 'A': A, 'liso': 0, 'fiss': bool(lfw), 'lib': [0, 8, 0], 'nsub': 10, 'text': r.choice([0, 3]), 'sections': [], 'seed': sp['seed'], 'extra': secs}
    return gen_endf.build([spec], crlf=sp.get('crlf', False))[0], tree
