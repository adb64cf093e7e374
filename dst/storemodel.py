"""Reference for covariance stores: what a matrix file has to become, and how a store is compared with it."""
import os
import warnings

import numpy as np
import pandas as pd

COLUMNS = ['e high', 'e low', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']
TINY = 1e-5                    # "negligible": nothing a sample could show


class Entry:
    """One nuclide and reaction: group bounds, cross sections, relative deviations, covariances (high to low)."""

    def __init__(self, bounds, xs, rel, cov):
        self.bounds, self.xs, self.rel = np.array(bounds, float), np.array(xs, float), np.array(rel, float)
        cov = np.array(cov, float)
        n = len(self.xs)
        d = np.abs(np.diag(cov))
        den = np.sqrt(np.outer(d, d))
        self.free = (den == 0) & (cov != 0)            # the matrix gives no correlation there
        with np.errstate(all='ignore'):
            c = np.where(den > 0, cov / np.where(den > 0, den, 1), 0.0)
        c = np.clip(c, -1, 1)
        c[np.arange(n), np.arange(n)] = 1.0
        self.corr = c

    def differs(self, corr, std):
        """Why the two tables are not this entry, or None."""
        n = len(self.xs)
        if list(corr.index) != list(range(1, n + 1)) or list(corr.columns) != list(range(1, n + 1)):
            return 'groups of the correlation table'
        if list(std.index) != list(range(1, n + 1)) or any(c not in std.columns for c in COLUMNS):
            return 'layout of the deviation table'
        c = corr.values.astype(float)
        s = std[COLUMNS].values.astype(float)
        if np.isnan(c).any() or np.isnan(s).any():
            return 'missing values'
        if (c != c.T).any() or (np.diag(c) != 1).any() or (np.abs(c) > 1).any():
            return 'not a correlation matrix'
        if not np.allclose(np.where(self.free, 0, c), np.where(self.free, 0, self.corr), rtol=1e-11, atol=1e-13):
            return 'correlations'
        if not (np.array_equal(s[:, 0], self.bounds[:-1]) and np.array_equal(s[:, 1], self.bounds[1:])):
            return 'group bounds'
        z = self.xs == 0
        for k in (2, 3):
            if not np.array_equal(s[:, k], self.xs):
                return 'cross sections'
        for k in (4, 5):
            if not np.allclose(s[~z, k], self.rel[~z], rtol=1e-11, atol=0) or (s[z, k] <= 0).any() or (s[z, k] > TINY).any():
                return 'relative deviations'
        for k in (6, 7):
            if not np.allclose(s[~z, k], (self.rel * self.xs)[~z], rtol=1e-11, atol=0) or (s[z, k] <= 0).any() or (s[z, k] > TINY).any():
                return 'deviations'
        return None


def read(path):
    """{(zaid, mt): (corr, std)}; ValueError if something in it is incomplete or unreadable."""
    res = {}
    if not os.path.exists(path):
        return res
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            h = pd.HDFStore(path, 'r')
        except Exception as e:
            raise ValueError('cannot be opened: %s' % repr(e)[:120])
        try:
            keys = list(h.keys())
            seen = {}
            for k in keys:
                p = k.strip('/').split('/')
                if len(p) != 5 or p[0] != p[2] or p[1] != p[3] or p[4] not in ('corr', 'std_dev'):
                    raise ValueError('has an unknown entry %s' % k)
                seen.setdefault((int(p[0]), int(p[1])), {})[p[4]] = k
            for e, kk in sorted(seen.items()):
                if len(kk) != 2:
                    raise ValueError('nuclide %d reaction %d has only its %s table' % (e + (list(kk)[0],)))
                try:
                    res[e] = (h.get(kk['corr']), h.get(kk['std_dev']))
                except Exception as x:
                    raise ValueError('nuclide %d reaction %d cannot be read: %s' % (e + (repr(x)[:120],)))
        finally:
            h.close()
    return res


def same(a, b):
    return a[0].equals(b[0]) and a[1].equals(b[1])


def stores(folder):
    return sorted(f for f in os.listdir(folder) if f.endswith('.h5'))


# ------------------------------------------------------------------ matrix files as the converter writes them
def num(x):
    """1PE10.3 of Fortran."""
    if x == 0:
        return ' 0.000E+00'
    m, e = ('%.3E' % x).split('E')
    if len(e) > 3:                     # three exponent digits: Fortran drops the letter
        return (m + e).rjust(10)
    return (m + 'E' + e).rjust(10)


def block(kind, mat, mt, rows):
    out = '\n\n\n\n%d corr  -a-%3d%24s%5d%4d%5d%4d%4d%3d%4d%3d%4d%4d%4d\n' % (
        kind, len(rows), '', mat, mt, mat, mt, 1, 10, 1, 3, 0, len(rows), 0 if kind == 3 else 1)
    for vals in rows if kind == 3 else [rows]:
        vals = list(vals)
        for i in range(0, len(vals), 8):
            out += ''.join(num(v) for v in vals[i:i + 8]) + '\n'
    return out


def error_text(kind, mat, mt):
    return '\n ***ERROR IN BOXR***CANNOT FIND ITYPE,MAT,MT,MAT1,MT1 =%5d%5d%5d%5d%5d\n' % (kind, mat, mt, mat, mt)


def matrix_text(mat, mt, bounds, xs, rel, cov, error_at=None):
    t = ''
    for k, v in enumerate((bounds, xs, rel, cov)):
        if k == error_at:
            return t + error_text(k, mat, mt)
        t += block(k, mat, mt, v)
    return t
