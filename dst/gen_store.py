"""Synthetic covariance stores in the documented layout ({zaid}/{mt}/{zaid}/{mt}/corr|std_dev),
written with pandas directly (independent of the code under test)."""
import random
import warnings

import numpy as np
import pandas as pd

COLS = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']


def make_corr(r, g, kind):
    if kind == 'identity':
        return np.eye(g)
    if kind == 'full':
        return np.ones((g, g))
    if kind == 'band':
        m = np.eye(g)
        c = r.uniform(-0.45, 0.45)
        for i in range(g - 1):
            m[i, i + 1] = m[i + 1, i] = c
        return m
    if kind == 'nonpsd':
        m = np.eye(g)
        for i in range(g):
            for j in range(i + 1, g):
                m[i, j] = m[j, i] = r.uniform(-0.95, 0.95)
        return m
    a = np.array([[r.gauss(0, 1) for _ in range(g + 3)] for _ in range(g)])
    m = a @ a.T
    d = np.sqrt(np.diag(m))
    m = m / d[:, None] / d[None, :]
    np.fill_diagonal(m, 1.0)
    return m


def pair(spec):
    """spec: {'bounds' ascending eV, 'seed', 'corr', 'rel': [lo, hi], 'zero': [...], 'flat': [...],
    'swap': bool, 'scale': x}.  Returns (std_dev df, corr df)."""
    r = random.Random(spec['seed'])
    b = list(spec['bounds'])[::-1]
    g = len(b) - 1
    corr = make_corr(r, g, spec['corr'])
    mean = np.array([r.uniform(0.5, 30.0) for _ in range(g)]) * spec.get('scale', 1.0)
    lo, hi = spec['rel']
    rel = np.array([r.uniform(lo, hi) for _ in range(g)])
    sd = mean * rel
    for k in spec.get('zero', []):          # zero cross section: stored the way extraction does
        mean[k % g], sd[k % g], rel[k % g] = 0.0, 1e-7, 1e-7
        corr[k % g, :] = 0.0
        corr[:, k % g] = 0.0
        corr[k % g, k % g] = 1.0
    for k in spec.get('flat', []):          # no uncertainty
        sd[k % g], rel[k % g] = 0.0, 0.0
    idx = pd.Index(range(1, g + 1), name='groups')
    df = pd.DataFrame(index=idx, columns=COLS, dtype=float)
    df['e high'], df['e low'] = b[:-1], b[1:]
    if spec.get('swap'):
        df['e high'], df['e low'] = b[1:], b[:-1]
    df['x-sec(1)'] = df['x-sec(2)'] = mean
    df['rel.s.d.(1)'] = df['rel.s.d(2)'] = rel
    df['s.d.(1)'] = df['s.d(2)'] = sd
    c = pd.DataFrame(corr * spec.get('corr_scale', 1.0), index=range(1, g + 1), columns=range(1, g + 1))
    return df, c


def write(path, entries):
    """entries: list of (zaid, mt, pair spec)."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with pd.HDFStore(path, 'w') as h:
            for zaid, mt, sp in entries:
                df, c = pair(sp)
                base = '{0}/{1}/{0}/{1}/'.format(zaid, mt)
                h.put(base + 'corr', c)
                h.put(base + 'std_dev', df)


def groups_of(sp):
    b = list(sp['bounds'])[::-1]
    return [(b[i + 1], b[i]) for i in range(len(b) - 1)]
