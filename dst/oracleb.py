"""Oracles shared by the sampling properties."""
import numpy as np
from scipy.stats import norm

from . import gen_ace, gen_store, sampling


def faults_for(r, nranks, k, acts, ops=('any', 'any', 'write', 'open', 'close', 'hdf_get', 'hdf_open')):
    out = []
    for _ in range(k):
        f = {'rank': r.randrange(nranks), 'op': r.choice(list(ops)), 'frac': round(r.random(), 6), 'act': r.choice(acts)}
        if f['act'] in ('ENOSPC', 'EDQUOT', 'EIO', 'short', 'kill') and r.random() < 0.7:
            f['keepfrac'] = round(r.random(), 4)
        out.append(f)
    return out


def resolve(faults, w0):
    """Turn fractions into operation numbers using the undisturbed run `w0`."""
    out = []
    for f in faults:
        f = dict(f)
        if 'frac' in f:
            t = [t for t in w0.tasks if t.rank == f['rank']][0]
            n = t.total_ops if f['op'] == 'any' else t.opcount.get(f['op'], 0)
            f['n'] = min(max(n - 1, 0), int(f.pop('frac') * n))
        if 'keepfrac' in f:
            f['keep'] = int(f.pop('keepfrac') * 8192)
        out.append(f)
    return out


def describe(faults):
    return ', '.join('%s at %s operation %d of rank %d' % (f['act'], f['op'], f['n'], f.get('rank', 0)) for f in faults)


def factor_tables(sc, root, model, mts):
    """({mt: DataFrame}, problems)"""
    res, bad = {}, []
    for m in mts:
        try:
            df = sampling.read_csv(root, model, m)
        except Exception as e:
            bad.append(('csv', 'sample list of MT %d unreadable: %r' % (m, e)))
            continue
        sp = sc['store']['mts'][str(m)]
        std, _ = gen_store.pair(sp)
        g = gen_store.groups_of(sp)
        want = {'e low': [x[0] for x in g], 'e high': [x[1] for x in g], 'xsec': list(std['x-sec(1)']), 'rel std': list(std['rel.s.d.(1)'])}
        for col, vals in want.items():
            if col not in df.columns or len(df) != len(vals) or not np.allclose(df[col].values, vals, rtol=1e-12, atol=0):
                bad.append(('csv', 'column %r of the sample list of MT %d does not match the store' % (col, m)))
                break
        cols = [c for c in df.columns if str(c).isdigit()]
        if [int(c) for c in cols] != list(range(len(cols))):
            bad.append(('csv', 'samples of MT %d are listed as %s' % (m, cols)))
        if list(df.index) != list(range(1, len(g) + 1)):
            bad.append(('csv', 'groups of MT %d are listed as %s' % (m, list(df.index))))
        if not np.isfinite(df[cols].values).all():
            bad.append(('csv', 'MT %d: factor not a finite number' % m))
        res[m] = df[cols]
    return res, bad


def strata(sc, m, fac):
    """Problem of the factors of one reaction: each has to come from its own one of the equally probable
    strata of the requested distribution, as many as samples were to be made."""
    std, _ = gen_store.pair(sc['store']['mts'][str(m)])
    mean, sd = std['x-sec(1)'].values, std['s.d.(1)'].values
    dist = sc['cli'].get('dist') or 'normal'
    N = sc['cli'].get('over') or sc['cli']['n']
    for k in range(len(mean)):
        f = fac.values[k]
        if mean[k] == 0 or sd[k] <= 1e-30:
            if not (f == 1.0).all():
                return 'group %d is not to be sampled but has factors %s' % (k + 1, f[:3])
            continue
        rel = sd[k] / mean[k]
        with np.errstate(all='ignore'):
            if dist in ('lognormal', 'loguncorrelated'):
                s2 = np.log1p(rel ** 2)
                u = norm.cdf((np.log(f) + s2 / 2) / np.sqrt(s2))
            elif dist == 'uniform':
                u = (f - 1) / (2 * np.sqrt(3) * rel) + 0.5
            else:
                u = norm.cdf((f - 1) / rel)
        last = -1
        for x in np.sort(u):
            lo, hi = np.floor(x * N - 1e-6 * N), np.floor(x * N + 1e-6 * N)
            last = max(last + 1, lo)
            if not last <= hi or not -1e-6 <= x <= 1 + 1e-6:
                return 'group %d: factors %s are not from different ones of %d strata of the %s distribution' % (k + 1, np.round(f[:4], 4), N, dist)
    return None


def check_run(sc, root, model, mts, out):
    """Every table against the reference model, using the factors of the CSV files."""
    fac, bad = factor_tables(sc, root, model, mts)
    if bad:
        return bad
    for m in mts:
        p = strata(sc, m, fac[m])
        if p:
            bad.append(('draws', 'MT %d: %s' % (m, p)))
    n = min(len(f.columns) for f in fac.values())
    if max(len(f.columns) for f in fac.values()) != n:
        bad.append(('csv', 'numbers of samples differ between reactions'))
    names = sampling.sample_names(model, n)
    have = sorted(x for x in out if '.' not in x)
    if have != sorted(names):
        bad.append(('files', 'tables %s, listed samples %d' % (have[:6], n)))
        return bad
    for i, name in enumerate(names):
        factors = {m: (gen_store.groups_of(sc['store']['mts'][str(m)]), fac[m][str(i)].values) for m in mts}
        try:
            p = sampling.check_table(out[name].decode(), model, factors)
        except UnicodeDecodeError as e:
            p = [repr(e)]
        if p:
            bad.append(('table', '%s: %s' % (name, p[0])))
            break
    return bad
