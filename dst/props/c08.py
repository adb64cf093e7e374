"""C08: draws follow stored means, deviations and correlations for any random stream."""
import copy
import os
import sys

import numpy as np
import pandas as pd
from scipy.stats import norm

from .. import core, genb, gen_store, seams

ID = 'C08'
BUDGET = {'quick': 1600, 'thorough': 40000}
RULE = ('random store entries (means, deviations, correlation matrices including singular and indefinite ones, groups without data), '
        'distributions, sample counts and random streams; strata checked exactly, correlations for 100 or more samples; '
        'non-trivial: at least one group sampled; distinct by drawn values')
REAL = ['ASAPy/XsecSampler.py XsecSampler, sample_xsec', 'ASAPy/CovManipulation.py', 'numpy, scipy, SALib, pandas, HDF5']
STUB = ['operating-system entropy and the global random stream (seeded per run)', 'mpi4py', 'file system calls']
ASSUMPTIONS = ['the global numpy stream is a good generator from the seed on', 'correlations are compared within 0.14 to 0.3 (by sample size and distribution; about twice the '
               'largest error in 1500 streams), the accuracy rank-ordered Latin hypercube samples of this size reach for every stream']
ZAID = '26056'


def gen(r, i, tier):
    g = r.choice([2, 2, 3, 3, 4, 5, 6, 8, 12, 20])
    b = genb.bounds(r, g)
    sp = genb.spec(r, b, 102)
    if r.random() < 0.5:
        for k in ('zero', 'flat'):
            sp.pop(k, None)
    if r.random() < 0.15:
        sp['rel'] = r.choice([[.3, .4], [.35, .6]])
    if r.random() < 0.12:
        sp['nocorr'] = [r.randrange(g)]
    if r.random() < 0.05:
        sp['zero'] = list(range(g))
    dist = r.choice(genb.DISTS)
    n = r.choice([1, 2, 3, 5, 9, 20, 100, 100, 150, 200])
    if r.random() < 0.3:
        over = n + r.choice([0, 1, 3, 10, 50])
    else:
        over = None
    sc = {'again': r.random() < 0.15, 'spec': sp, 'dist': dist, 'n': n, 'over': over, 'rng': r.randrange(10 ** 9), 'mt': r.choice([102, 2, 18, 452, 1018])}
    if r.random() < 0.06:
        # large anticorrelations with large deviations: the lognormal matrix is indefinite
        sp.update(corr='anti', rel=[.5, .8], anti=r.choice([-0.85, -0.9, -0.95]))
        for k in ('zero', 'flat', 'nocorr', 'swap'):
            sp.pop(k, None)
        sc.update(dist='lognormal', n=200, over=None)
    return sc


def shrink(sc):
    for n in (1, 2, 100):
        if n < sc['n']:
            v = copy.deepcopy(sc)
            v['n'] = n
            if v['over']:
                v['over'] = max(n, v['over'])
            yield v
    if sc['over']:
        v = copy.deepcopy(sc)
        v['over'] = None
        yield v
    for key in ('zero', 'flat', 'nocorr', 'swap', 'corr_scale', 'scale'):
        if key in sc['spec']:
            v = copy.deepcopy(sc)
            del v['spec'][key]
            yield v
    b = sc['spec']['bounds']
    if len(b) > 3:
        v = copy.deepcopy(sc)
        v['spec']['bounds'] = b[:-1]
        yield v
    if sc['spec']['corr'] != 'identity':
        v = copy.deepcopy(sc)
        v['spec']['corr'] = 'identity'
        yield v


def pair(sp):
    std, corr = gen_store.pair(dict(sp, corr='identity' if sp['corr'] == 'anti' else sp['corr']))
    g = len(std)
    c = corr.values.copy() / sp.get('corr_scale', 1.0)
    if sp['corr'] == 'anti':
        for i in range(g):
            for j in range(g):
                if i != j:
                    c[i, j] = sp['anti'] if (i + j) % 2 else abs(sp['anti']) ** 2
    for k in sp.get('nocorr', []):
        c[k % g, :] = 0.0
        c[:, k % g] = 0.0
    return std, pd.DataFrame(c * sp.get('corr_scale', 1.0), index=corr.index, columns=corr.columns)


def run(sc, ctx):
    root = ctx.fresh('a')
    std, corr = pair(sc['spec'])
    path = os.path.join(root, 'cov.h5')
    mt = sc['mt']
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with pd.HDFStore(path, 'w') as h:
            base = '{0}/{1}/{0}/{1}/'.format(ZAID, mt)
            h.put(base + 'corr', corr)
            h.put(base + 'std_dev', std)
    res = {}
    for label, neg, n, over in (('kept', True, sc['n'], sc['over']), ('all', False, sc['over'] or sc['n'], None)):
        def job():
            from ASAPy import XsecSampler
            with pd.HDFStore(path, 'r') as h:
                rel, full = XsecSampler.sample_xsec(h, mt, ZAID, n, sample_type=sc['dist'], remove_neg=neg, num_samples_to_make=over)
            return rel, full
        from .. import mpi
        w = core.World(root)
        proc = core.ProcessState(['x'], sc['rng'], mpi.stub_modules(mpi.Fabric(1), 0))
        w.spawn(0, job, proc)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            w.run()
        seams.close_leaked_hdf()
        t = w.tasks[0]
        if t.status != 'ok':
            ctx.add(w, label)
            ctx.bad('failed', 'sampling failed: %s %s' % (t.status, repr(t.error)[:200]))
            return
        w.log.append(('draws', core.derive(t.result[0].to_csv())))
        ctx.add(w, label)
        res[label] = t.result
    check(sc, std, corr, res, ctx)
    if sc.get('again') and not ctx.violations:
        again(sc, std, corr, res['all'], path, ctx)


def again(sc, std, corr, first, path, ctx):
    """The same entry sampled twice in one process, with another stream: three independent sets of draws."""
    import warnings
    from .. import mpi
    N = sc['over'] or sc['n']

    def job():
        from ASAPy import XsecSampler
        with pd.HDFStore(path, 'r') as h:
            return [XsecSampler.sample_xsec(h, sc['mt'], ZAID, N, sample_type=sc['dist'], remove_neg=False)[1].values for _ in range(2)]
    w = core.World(os.path.dirname(path))
    w.spawn(0, job, core.ProcessState(['x'], sc['rng'] + 1, mpi.stub_modules(mpi.Fabric(1), 0)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w.run()
    seams.close_leaked_hdf()
    t = w.tasks[0]
    ctx.add(w, 'again')
    if t.status != 'ok':
        ctx.bad('failed', 'sampling failed: %s %s' % (t.status, repr(t.error)[:200]))
        return
    mean, sd = std['x-sec(1)'].values, std['s.d.(1)'].values
    ok = (mean != 0) & (sd > 1e-30)
    if sc['dist'] not in ('uncorrelated', 'loguncorrelated'):
        ok &= np.diag(corr.values) != 0
    sets = [('another stream', first[1].values, t.result[0]), ('the next draws of a stream', t.result[0], t.result[1])]
    for what, a, b in sets:
        for k in np.where(ok)[0]:
            if np.array_equal(a[k], b[k]):
                ctx.bad('repeated', 'group %d: %s gives the same %d values again' % (k + 1, what, N))
                return
            if N >= 100 and abs(np.corrcoef(a[k], b[k])[0, 1]) > 0.65:
                ctx.bad('repeated', 'group %d: %s gives values correlated with those before' % (k + 1, what))
                return
    ctx.probes['independent_sets'] += 1


def check(sc, std, corr, res, ctx):
    g = len(std)
    N = sc['over'] or sc['n']
    mean, sd = std['x-sec(1)'].values, std['s.d.(1)'].values
    c = corr.values / sc['spec'].get('corr_scale', 1.0)
    dist = sc['dist']
    unc = dist in ('uncorrelated', 'loguncorrelated')
    sampled = (mean != 0) & (sd > 1e-30)
    if not unc:
        sampled &= np.diag(c) != 0
    rel, full = res['all']
    if full.shape != (g, N) or rel.shape != (g, N):
        ctx.bad('shape', '%s values for %d groups and %d samples' % (full.shape, g, N))
        return
    if list(full.index) != list(range(1, g + 1)) or [int(x) for x in full.columns] != list(range(N)):
        ctx.bad('labels', 'groups or samples misnumbered')
        return
    F, R = full.values, rel.values
    ctx.nontrivial = bool(sampled.any())
    logn = dist in ('lognormal', 'loguncorrelated')
    for k in range(g):
        if not sampled[k]:
            ctx.probes['unsampled_group'] += 1
            if not (R[k] == 1.0).all():
                ctx.bad('unsampled', 'group %d (mean %g, deviation %g, correlation %g) is not to be sampled but has factors %s' % (
                    k + 1, mean[k], sd[k], c[k, k], R[k][:3]))
                return
            continue
        m, s = mean[k], sd[k]
        x = F[k]
        if not np.allclose(x / m, R[k], rtol=1e-12, atol=0):
            ctx.bad('relative', 'group %d: factor is not value over mean' % (k + 1))
            return
        with np.errstate(all='ignore'):
            if logn:
                if not (x > 0).all():
                    ctx.bad('lognormal', 'group %d: lognormal value %g' % (k + 1, x.min()))
                    return
                s2 = np.log1p((s / m) ** 2)
                u = norm.cdf((np.log(x) - np.log(m) + s2 / 2) / np.sqrt(s2))
            elif dist == 'uniform':
                u = (x - m) / (2 * np.sqrt(3) * s) + 0.5
            else:
                u = norm.cdf((x - m) / s)
        srt = np.sort(u)
        lo, hi = np.arange(N) / N, (np.arange(N) + 1) / N
        if not np.all((srt >= lo - 1e-7) & (srt <= hi + 1e-7)):
            ctx.bad('strata', 'group %d: values do not fall one into each of %d equally probable strata of the %s distribution (mean %g, deviation %g): %s' % (
                k + 1, N, dist, m, s, np.round(srt[:5], 4)))
            return
    # survivors
    keep = [j for j in range(N) if (F[:, j] >= 0).all()][:sc['n']]
    krel, kfull = res['kept']
    ctx.probes['negative_removed'] += len(keep) < min(N, sc['n'])
    if kfull.shape != (g, len(keep)) or [int(x) for x in kfull.columns] != list(range(len(keep))) or krel.shape != kfull.shape \
            or [int(x) for x in krel.columns] != list(range(len(keep))):
        ctx.bad('removal', '%d samples kept, numbered %s..; expected %d' % (kfull.shape[1], list(kfull.columns)[:3], len(keep)))
        return
    if len(keep) and not (np.array_equal(kfull.values, F[:, keep]) and np.array_equal(krel.values, R[:, keep])):
        ctx.bad('removal', 'kept samples are not the non-negative ones in order')
        return
    # correlations
    idx = np.where(sampled)[0]
    if N >= 100 and len(idx) > 1:
        want = np.eye(len(idx)) if unc else c[np.ix_(idx, idx)]
        tol = (0.3 if N < 150 else 0.22) if dist == 'uniform' else (0.2 if N < 150 else 0.14)
        if not unc:
            full_idx = np.where(np.diag(c) > 0)[0]
            sub = c[np.ix_(full_idx, full_idx)]
            ev, P = np.linalg.eigh(sub)
            if ev.min() <= 1e-8:
                ev = np.maximum(ev, 1e-8)
                fixed = P @ np.diag(ev) @ P.T
                d = np.sqrt(np.diag(fixed))
                fixed = fixed / d[:, None] / d[None, :]
                pos = {v: i for i, v in enumerate(full_idx)}
                sel = [pos[v] for v in idx]
                if sc['spec']['corr'] == 'nonpsd':
                    tol = max(tol, 0.25)
                want = fixed[np.ix_(sel, sel)]
        X = np.log(F[idx]) if logn else F[idx]
        got = np.corrcoef(X)
        if dist == 'lognormal':
            sig = np.sqrt(np.log1p((sd[idx] / mean[idx]) ** 2))
            lc = (np.exp(want * np.outer(sig, sig)) - 1) * np.outer(mean[idx] / sd[idx], mean[idx] / sd[idx])
            if np.linalg.eigvalsh(lc).min() < 1e-6 or abs(np.diag(lc) - 1).max() > 1e-6:
                ctx.probes['indefinite_lognormal'] += 1
                tol = None if sc['spec']['corr'] != 'anti' else 0.35
            want = lc
        if tol is not None:
            ctx.probes['correlation_checked'] += 1
            err = np.abs(got - want).max()
            ctx.err = max(getattr(ctx, 'err', 0), err / tol)
            ctx.probes['err_decile_%d' % min(10, int(err / tol * 10))] += 1
            if err > tol:
                i, j = np.unravel_index(np.abs(got - want).argmax(), got.shape)
                ctx.bad('correlation', 'groups %d and %d (%s, %s matrix): correlation %.3f of %d samples, stored %.3f' % (
                    idx[i] + 1, idx[j] + 1, dist, sc['spec']['corr'], got[i, j], N, want[i, j]))
