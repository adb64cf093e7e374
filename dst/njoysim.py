"""A stand-in for NJOY: reads the real input deck card by card, checks that the modules fit together
(tapes, material, temperatures, group structures) and writes tapes whose content is a function of
everything that determined it (the run, the evaluation, material, MF, temperature, weighting, groups).
So a result that stems from another run, tape, temperature, ... can be told from the right one."""
import hashlib
import json
import math
import re

import numpy as np

from . import core
from .popen import ChildExit, ChildSignal


class DeckError(Exception):
    pass


class Cards:
    """Free-format input as Fortran list-directed reads see it."""

    def __init__(self, text):
        self.lines = text.split('\n')
        self.i = 0

    def line(self):
        if self.i >= len(self.lines):
            raise DeckError('end of input')
        l = self.lines[self.i]
        self.i += 1
        return l

    def nums(self, n, need=0):
        out = []
        while len(out) < n:
            l = self.line()
            end = False
            for tok in re.findall(r"'[^']*'|/|[^\s,/']+", l):
                if tok == '/':
                    end = True
                    break
                if len(out) < n:
                    try:
                        out.append(float(tok) if not re.fullmatch(r'[+-]?\d+', tok) else int(tok))
                    except ValueError:
                        if re.fullmatch(r"'[^']*'", tok):
                            out.append(tok[1:-1])
                        else:
                            raise DeckError('bad number %r in card %r' % (tok, l))
            if end:
                break
        if len(out) < need:
            raise DeckError('card has %d of %d items' % (len(out), need))
        return out

    def string(self):
        while True:
            l = self.line()
            if l.strip():
                break
        m = re.match(r"\s*'([^']*)'", l)
        return m.group(1) if m else l.split('/')[0].strip()

    def module(self):
        while True:
            l = self.line()
            s = l.strip()
            if s and not s.startswith('--'):
                return s.split()[0].split('/')[0].lower()


def group_key(g):
    return ','.join(repr(float(x)) for x in g)


def endf_info(text):
    """(hash, {mat: set of (mf, mt)})"""
    secs = {}
    for l in text.split('\n'):
        if len(l) >= 75:
            mat, mf, mt = int(l[66:70]), int(l[70:72]), int(l[72:75])
            if mt > 0 and mat > 0 and mf > 0:
                secs.setdefault(mat, set()).add((mf, mt))
    return hashlib.sha256(text.encode()).hexdigest()[:16], secs


def f3(x):
    """Round to what 1PE10.3 can carry."""
    return float('%.3E' % x)


def matrices(key, ngroups, mt):
    """Cross sections, relative deviations and relative covariances (low to high energy) which the
    simulated NJOY finds for the given key.  Deterministic."""
    rs = np.random.RandomState(core.derive('cov', key, mt) % (2 ** 32))
    n = ngroups
    xs = np.array([f3(v) for v in 10 ** rs.uniform(-3, 4, n)])
    sd = np.array([f3(v) for v in 10 ** rs.uniform(-3, -0.5, n)])
    if rs.rand() < 0.5:
        k = rs.randint(0, n + 1) // 2
        xs[:k] = 0.0
        sd[:k] = 0.0
    if rs.rand() < 0.3:
        sd[rs.randint(0, n)] = 0.0
    style = 'diag' if n > 100 else ['full', 'diag', 'band', 'full'][rs.randint(0, 4)]
    rho = np.eye(n)
    if style == 'full':
        a = rs.randn(n, max(1, n // 2))
        c = a @ a.T + np.diag(rs.uniform(0.1, 1, n))
        d = np.sqrt(np.diag(c))
        rho = c / np.outer(d, d)
    elif style == 'band':
        for i in range(n - 1):
            rho[i, i + 1] = rho[i + 1, i] = rs.uniform(-0.45, 0.45)
    cov = rho * np.outer(sd, sd)
    cov = (cov + cov.T) / 2
    cov = np.array([[f3(v) if abs(v) > 1e-12 else 0.0 for v in row] for row in cov])
    return xs, sd, cov


# ------------------------------------------------------------------ BOXER format
NCF_WIDTH = {1: (80, 1), 2: (40, 2), 3: (26, 3), 4: (20, 4), 5: (16, 5), 6: (13, 6)}


def boxer_record(itype, mat, mt, mat1, mt1, nrow, ncolh, rows, descr='corr  -a-%3d'):
    """One data set.  rows: list of lists (upper triangle if ncolh == 0)."""
    out = []
    pages, vals, cons, prev, first = [], [], [], None, True
    start = 0
    for ri, row in enumerate(rows):
        rv, rc = [], []
        j = 0
        while j < len(row):
            k = j
            while k < len(row) and row[k] == row[j]:
                k += 1
            above = None
            if ncolh == 0 and prev is not None and not first:
                above = prev[1:]
            elif ncolh > 1 and prev is not None and not first:
                above = prev
            if above is not None:
                a = j
                while a < len(row) and row[a] == above[a]:
                    a += 1
                if a > j:
                    rc.append(a - j)
                    j = a
                    continue
            rv.append(row[j])
            rc.append(-(k - j))
            j = k
        if len(vals) + len(rv) > 1880 or len(cons) + len(rc) > 1900:
            pages.append((vals, cons, ri))
            vals, cons, first = [], [], True
            # a fresh page starts without a row above: encode this row again without copies
            rv, rc, j = [], [], 0
            while j < len(row):
                k = j
                while k < len(row) and row[k] == row[j]:
                    k += 1
                rv.append(row[j])
                rc.append(-(k - j))
                j = k
        vals += rv
        cons += rc
        prev, first = row, False
    pages.append((vals, cons, len(rows)))
    for vals, cons, upto in pages:
        ncf = max(len(str(c)) for c in cons) + 1 if cons else 3
        ncf = min(6, max(3, ncf))
        nrowm = len(rows) - upto if ncolh == 0 or ncolh > 1 else 0
        head = '%1d%-35s%5d%4d%5d%4d%4d%3d%4d%3d%4d%4d%4d' % (itype, ' ' + (descr % nrow)[:34], mat, mt, mat1, mt1, len(vals), 10, len(cons), ncf, nrowm, nrow, ncolh)
        assert len(head) == 80, len(head)
        out.append(head)
        for a in range(0, len(vals), 8):
            out.append(''.join('%10.3E' % v for v in vals[a:a + 8]))
        per, width = NCF_WIDTH[ncf]
        for a in range(0, len(cons), per):
            out.append(''.join('%*d' % (width, c) for c in cons[a:a + per]))
    return out


def vec_rows(v):
    return [[float(x)] for x in v]


def boxer_tape(key, mat, mts, groups):
    """The library tape COVR writes (all reactions of the material)."""
    g = [f3(x) for x in groups]
    n = len(g) - 1
    m0 = mts[0] if mts else 0
    lines = boxer_record(0, mat, m0, mat, m0, n + 1, 1, vec_rows(g))
    for mt in mts:
        xs, sd, cov = matrices(key, n, mt)
        lines += boxer_record(1, mat, mt, mat, mt, n, 1, vec_rows(xs))
        lines += boxer_record(2, mat, mt, mat, mt, n, 1, vec_rows(sd))
        lines += boxer_record(3, mat, mt, mat, mt, n, 0, [list(cov[i, i:]) for i in range(n)])
        # COVR also lists covariances between different reactions: these are not asked for
        other = [o for o in mts if o > mt][:1]
        for o in other:
            if n <= 12:
                lines += boxer_record(3, mat, mt, mat, o, n, n, [list(r) for r in np.full((n, n), 1e-4)])
    return '\n'.join(lines) + '\n'


def cov_key(nonce, endf_hash, mat, mf, T, iwt, wfun, groups):
    return '|'.join([str(nonce), endf_hash, str(mat), str(mf), repr(float(T)), str(int(iwt)),
                     group_key(wfun) if int(iwt) == 1 else '', group_key(groups)])


def mts_for(secs, mf):
    return sorted(mt for f, mt in secs if f == mf)


def viewr_text(key, mts):
    return '%%!PS-Adobe-\n%%%%plots of %s\n%s\nshowpage\n' % (hashlib.sha256(key.encode()).hexdigest()[:20], ' '.join(map(str, mts)))


def listing(nonce, endf_hash):
    return ' njoy 2016.simulated\n run %s\n evaluation %s\n' % (nonce, endf_hash)


def ace_text(nonce, endf_hash, mat, T, suffix, za, kind='n', extra=''):
    """A small text which starts the way an ACE table does."""
    ident = hashlib.sha256(('%s|%s|%d|%r|%s' % (nonce, endf_hash, mat, float(T), extra)).encode()).hexdigest()[:24]
    return '%s  %11.6f %11.4E   01/01/20\n%-70s mat%4d\n%s\n' % (('%6d.%sc' % (za, suffix)) if kind == 'n' else ('%10s' % ('tsl.%st' % suffix)),
                                                                 1.0, T * 8.617e-11, 'table ' + ident, mat, ident)


def xsdir_text(nonce, endf_hash, mat, T, suffix):
    return ' %d.%sc 1.0 filename route 1 1 %s %r\n' % (mat, suffix, hashlib.sha256(('%s%s' % (nonce, endf_hash)).encode()).hexdigest()[:8], float(T))


class Njoy:
    """The simulated program.  `plan` is what the scenario wants from this invocation."""

    def __init__(self, nonce, plan=None, ace_maker=None):
        self.nonce, self.plan = nonce, plan or {}
        self.ace_maker = ace_maker
        self.report = {}
        self.roles = {}

    def __call__(self, c):
        p = self.plan
        if p.get('talk_first'):
            c.write(('chatter before reading\n' * p['talk_first']).encode())
        deck = c.read_all().decode()
        self.deck = deck
        if not p.get('omit_output'):
            with open(self.tape(c, 'output'), 'w') as f:
                f.write(self.head(c))
        cards = Cards(deck)
        n = 0
        try:
            while True:
                name = cards.module()
                if name == 'stop':
                    break
                if p.get('close_early') == n:
                    c.close_out()
                c.write((' %s...%s%d.0s\n' % (name, ' ' * 30, n)).encode())
                if p.get('die_at') == n:
                    how, code = p['die_how']
                    if how == 'signal':
                        raise ChildSignal(code)
                    c.write(b' ***error in %s***simulated\n' % name.encode())
                    raise ChildExit(code)
                if p.get('talk') and n == p['talk'][0]:
                    for _ in range(p['talk'][1]):
                        c.write(b' ---message from purr---some text of the simulated program, long enough to fill a pipe\n')
                getattr(self, 'm_' + name, self.unknown)(c, cards)
                n += 1
        except DeckError as e:
            c.write((' ***error*** %s\n' % e).encode())
            self.report['deck_error'] = str(e)
            raise ChildExit(77)
        if p.get('die_at') is not None and p['die_at'] >= n:
            how, code = p['die_how']
            if how == 'signal':
                raise ChildSignal(code)
            raise ChildExit(code)
        return 0

    def head(self, c):
        try:
            with open(self.tape(c, 'tape20'), 'r', newline='') as f:
                h, secs = endf_info(f.read().replace('\r\n', '\n'))
        except OSError:
            h = 'none'
        return listing(self.nonce, h)

    def unknown(self, c, cards):
        raise DeckError('unknown module')

    @staticmethod
    def tape(c, n):
        return c.path('tape%d' % n if isinstance(n, int) else n)

    def get(self, c, n):
        n = abs(int(n))
        try:
            with open(self.tape(c, n), 'r') as f:
                t = f.read()
        except FileNotFoundError:
            raise DeckError('tape%d does not exist' % n)
        if t.startswith('{'):
            return json.loads(t)
        h, secs = endf_info(t)
        if not secs:
            raise DeckError('tape%d is not usable' % n)
        return {'k': 'endf', 'h': h, 'secs': {str(m): sorted(map(list, s)) for m, s in secs.items()}, 'text': t}

    def put(self, c, n, d, role=None):
        n = abs(int(n))
        if role is not None:
            k = self.roles.get(role, 0)
            self.roles[role] = k + 1
            if '%s:%d' % (role, k) in self.plan.get('omit', []):
                self.report.setdefault('omitted', []).append('%s:%d' % (role, k))
                c.w.fired.append(('omit', 'program', role))
                return
        text = d if isinstance(d, str) else json.dumps(d)
        with open(self.tape(c, n), 'w') as f:
            f.write(text)

    def endf(self, c, n, mat):
        d = self.get(c, n)
        if d['k'] != 'endf':
            raise DeckError('tape%d is not an evaluation' % n)
        if str(mat) not in d['secs']:
            raise DeckError('mat %s is not on tape%d' % (mat, n))
        return d['h'], {tuple(x) for x in d['secs'][str(mat)]}, d['text']

    def need(self, d, kind, h=None, mat=None):
        if d['k'] != kind:
            raise DeckError('wrong kind of tape: %s instead of %s' % (d['k'], kind))
        if h is not None and d['h'] != h:
            raise DeckError('tapes of different evaluations')
        if mat is not None and d['mat'] != mat:
            raise DeckError('tapes of different materials')

    # ---- modules
    def m_reconr(self, c, k):
        nendf, npend = k.nums(2, 2)
        k.string()
        mat, ncards = (k.nums(3, 1) + [0, 0])[:2]
        while mat:
            self.report.setdefault('err', []).append(float(k.nums(4, 1)[0]))
            for _ in range(int(ncards)):
                k.string()
            h, _, _ = self.endf(c, nendf, mat)
            self.put(c, npend, {'k': 'pendf', 'h': h, 'mat': mat, 'temps': [0.0], 'mods': ['reconr']})
            mat, ncards = (k.nums(3, 1) + [0, 0])[:2]

    def m_broadr(self, c, k):
        nendf, nin, nout = k.nums(3, 3)
        mat, ntemp = k.nums(5, 2)[:2]
        self.report.setdefault('err', []).append(float(k.nums(3, 1)[0]))
        temps = [float(t) for t in k.nums(int(ntemp), int(ntemp))]
        if k.nums(1, 1)[0]:
            raise DeckError('broadr: more than one material')
        h, _, _ = self.endf(c, nendf, mat)
        d = self.get(c, nin)
        self.need(d, 'pendf', h, mat)
        self.put(c, nout, dict(d, temps=temps, mods=d['mods'] + ['broadr']))

    def m_heatr(self, c, k):
        nendf, nin, nout = k.nums(4, 3)[:3]
        mat, npk = k.nums(7, 2)[:2]
        k.nums(int(npk), int(npk))
        h, _, _ = self.endf(c, nendf, mat)
        d = self.get(c, nin)
        self.need(d, 'pendf', h, mat)
        self.put(c, nout, dict(d, mods=d['mods'] + ['heatr']))

    def m_purr(self, c, k):
        nendf, nin, nout = k.nums(3, 3)
        mat, ntemp, nsig = k.nums(6, 5)[:3]
        temps = [float(t) for t in k.nums(int(ntemp), int(ntemp))]
        k.nums(int(nsig), int(nsig))
        if k.nums(1, 1)[0]:
            raise DeckError('purr: more than one material')
        h, _, _ = self.endf(c, nendf, mat)
        d = self.get(c, nin)
        self.need(d, 'pendf', h, mat)
        if any(t not in d['temps'] for t in temps):
            raise DeckError('purr: temperature not on tape')
        self.put(c, nout, dict(d, mods=d['mods'] + ['purr']))

    def m_thermr(self, c, k):
        nendf, nin, nout = k.nums(3, 3)
        v = k.nums(10, 9)
        matde, matdp, ntemp, mtref = v[0], v[1], int(v[3]), v[8]
        temps = [float(t) for t in k.nums(ntemp, ntemp)]
        tol, emax = k.nums(2, 2)
        self.report.setdefault('err', []).append(float(tol))
        d = self.get(c, nin)
        self.need(d, 'pendf', None, matdp)
        if any(t not in d['temps'] for t in temps):
            raise DeckError('thermr: temperature not on tape')
        th = None
        if nendf:
            th, secs, _ = self.endf(c, nendf, matde)
            if (7, 4) not in secs:
                raise DeckError('thermr: no scattering law')
        self.put(c, nout, dict(d, mods=d['mods'] + ['thermr%d' % mtref], th=th or d.get('th'), matde=matde, icoh=v[5], natom=v[7], emax=emax))

    def weight(self, k, iwt):
        if int(iwt) == 1:
            w = k.nums(10 ** 6, 8)
            nr, np_ = int(w[4]), int(w[5])
            w = w[6 + 2 * nr:]
            if len(w) != 2 * np_:
                raise DeckError('weight function has %d numbers instead of %d' % (len(w), 2 * np_))
            return [float(x) for x in w]
        if int(iwt) == 4:
            k.nums(4, 4)
        return []

    def m_groupr(self, c, k):
        nendf, npend, _, nout = k.nums(4, 4)
        mat, ign, igg, iwt, lord, ntemp = k.nums(8, 6)[:6]
        k.string()
        temps = [float(t) for t in k.nums(int(ntemp), int(ntemp))]
        k.nums(1, 1)
        if ign != 1:
            raise DeckError('groupr: group option %s' % ign)
        ng = int(k.nums(1, 1)[0])
        groups = [float(x) for x in k.nums(ng + 1, ng + 1)]
        w = self.weight(k, iwt)
        h, secs, _ = self.endf(c, nendf, mat)
        d = self.get(c, npend)
        self.need(d, 'pendf', h, mat)
        content = []
        for t in temps:
            if t not in d['temps']:
                raise DeckError('groupr: temperature %s not on tape' % t)
            this = []
            while True:
                r = k.nums(3, 1)
                if r[0] == 0:
                    break
                this.append([int(r[0]), int(r[1]) if len(r) > 1 else 0])
            content.append(this)
        if k.nums(1, 1)[0] != 0:
            raise DeckError('groupr: expected the end of materials')
        self.check_groups(groups)
        self.put(c, nout, {'k': 'gendf', 'h': h, 'mat': mat, 'temps': temps, 'groups': groups, 'iwt': int(iwt), 'w': w, 'content': content})

    @staticmethod
    def check_groups(g):
        if any(a >= b for a, b in zip(g, g[1:])):
            raise DeckError('group boundaries do not increase')

    def m_errorr(self, c, k):
        nendf, npend, ngout, nout = k.nums(6, 4)[:4]
        mat, ign, iwt = k.nums(5, 3)[:3]
        T = 0.0
        if ngout:
            T = float(k.nums(2, 2)[1])
        iread, mfcov = k.nums(7, 2)[:2]
        if ign != 1 or iread != 0:
            raise DeckError('errorr: options %s %s' % (ign, iread))
        ng = int(k.nums(1, 1)[0])
        groups = [float(x) for x in k.nums(ng + 1, ng + 1)]
        w = self.weight(k, iwt)
        h, secs, _ = self.endf(c, nendf, mat)
        self.check_groups(groups)
        if npend:
            self.need(self.get(c, npend), 'pendf', h, mat)
        if not ngout:
            raise DeckError('errorr: no group data')
        d = self.get(c, ngout)
        self.need(d, 'gendf', h, mat)
        if T not in d['temps']:
            raise DeckError('errorr: temperature %s is not on tape' % T)
        if d['groups'] != groups or d['iwt'] != int(iwt) or d['w'] != w:
            raise DeckError('errorr: group data made with other groups or weights')
        have = {tuple(x) for x in d['content'][d['temps'].index(T)]}
        mfneed = {33: (3, 0), 31: (3, 452), 35: (5, 18)}.get(int(mfcov))
        if mfneed is None or mfneed not in have:
            raise DeckError('errorr: group data for mf%s missing' % mfcov)
        mts = mts_for(secs, int(mfcov))
        if not mts:
            raise DeckError('errorr: no mf%s in the evaluation' % mfcov)
        key = cov_key(self.nonce, h, mat, mfcov, T, iwt, w, groups)
        self.put(c, nout, {'k': 'cov', 'h': h, 'mat': mat, 'mf': int(mfcov), 'key': key, 'groups': groups, 'mts': mts})

    def m_covr(self, c, k):
        v = k.nums(3, 2)
        nin, nout, nplot = (v + [0])[:3]
        d = self.get(c, nin)
        if nout <= 0:
            k.nums(1)
            k.nums(1)
            irel, ncase = (k.nums(5) + [1, 1])[:2]
            shown = []
            for _ in range(int(ncase)):
                q = k.nums(4, 1)
                if q[0] != d.get('mat'):
                    raise DeckError('covr: mat %s is not on tape' % q[0])
                shown.append(int(q[1]) if len(q) > 1 else 0)
            self.need(d, 'cov')
            self.put(c, nplot, {'k': 'plot', 'key': d['key'], 'mts': shown})
            return
        mt, ncase = (k.nums(2, 1) + [1])[:2]
        k.string()
        k.nums(1)
        if int(mt) != 3 or int(ncase) != 1:
            raise DeckError('covr: matrix type %s' % mt)
        q = k.nums(4, 1)
        self.need(d, 'cov', None, q[0])
        self.put(c, nout, boxer_tape(d['key'], d['mat'], d['mts'], d['groups']), 'covr')

    def m_viewr(self, c, k):
        nin, nout = k.nums(2, 2)
        d = self.get(c, nin)
        self.need(d, 'plot')
        self.put(c, nout, viewr_text(d['key'], d['mts']), 'viewr')

    def m_acer(self, c, k):
        nendf, npend, _, nace, ndir = k.nums(5, 5)
        iopt, ipr, ityp, suff = (k.nums(5, 3) + [0.8])[:4]
        k.string()
        sfx = '%02d' % int(round(float(suff) * 100))
        if iopt == 1:
            mat, T = k.nums(2, 2)
            k.nums(3)
            k.nums(3)
            h, secs, text = self.endf(c, nendf, mat)
            d = self.get(c, npend)
            self.need(d, 'pendf', h, mat)
            if float(T) not in d['temps']:
                raise DeckError('acer: temperature not on tape')
            za = za_of(text, mat)
            body = self.ace_maker(self, h, mat, float(T), sfx, za, d) if self.ace_maker else ace_text(self.nonce, h, mat, T, sfx, za, extra='+'.join(d['mods']))
        elif iopt == 2:
            v = k.nums(3, 3)
            mat, T = v[0], v[1]
            zaids = k.nums(3, 1)
            opts = k.nums(7, 6)
            h, secs, text = self.endf(c, nendf, mat)
            d = self.get(c, npend)
            self.need(d, 'pendf', h, mat)
            if float(T) not in d['temps'] or not d.get('th'):
                raise DeckError('acer: no thermal data at this temperature')
            extra = thermal_extra(d['th'], v[2], zaids, opts, d['icoh'], d['natom'], d['emax'], d['mods'])
            body = self.ace_maker(self, h, mat, float(T), sfx, None, d, extra=extra) if self.ace_maker else ace_text(self.nonce, h, mat, T, sfx, 0, 't', extra)
        else:
            raise DeckError('acer: option %s' % iopt)
        self.put(c, nace, body, 'ace')
        self.put(c, ndir, xsdir_text(self.nonce, h, mat, T, sfx), 'dir')


def thermal_extra(th, name, zaids, opts, icoh, natom, emax, mods):
    return json.dumps([th, name, [int(z) for z in zaids], [float(o) for o in opts], int(icoh), int(natom), float(emax), mods])


def za_of(text, mat):
    for l in text.split('\n'):
        if len(l) >= 75 and int(l[66:70]) == mat and int(l[70:72]) == 1 and int(l[72:75]) == 451:
            s = l[:11].strip()
            m = re.match(r'([\d.]+)([+-]\d+)$', s)
            return int(round(float('%sE%s' % m.groups())))
    raise DeckError('no header')
