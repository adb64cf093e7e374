"""Synthetic ENDF-6 tapes with known content."""
from . import core

SYM = {1: 'H', 4: 'Be', 6: 'C', 8: 'O', 13: 'Al', 26: 'Fe', 40: 'Zr', 47: 'Ag', 72: 'Hf', 90: 'Th', 92: 'U', 94: 'Pu', 95: 'Am'}


def fl(x):
    """11-column ENDF number."""
    if x == 0:
        return ' 0.000000+0'
    for dec in (6, 5, 4):
        m, e = ('%.*E' % (dec, abs(x))).split('E')
        es = '%+d' % int(e)
        if len(m) + len(es) <= 10:
            return ('-' if x < 0 else ' ') + m + es
    raise ValueError(x)


def fx(x):
    """11-column number without exponent and without blanks, for a number that fl() represents exactly."""
    s = '%.9f' % x
    return s[:11] if len(s) >= 11 and float(s[:11]) == float(fl(x).strip().replace('+', 'e+').replace('-', 'e-')) else fl(x)


def ints(*v):
    return ''.join('%11d' % x for x in v)


def cont(c1, c2, l1, l2, n1, n2):
    return fl(c1) + fl(c2) + ints(l1, l2, n1, n2)


def numlines(vals):
    out = []
    for i in range(0, len(vals), 6):
        out.append(''.join(fl(v) for v in vals[i:i + 6]).ljust(66))
    return out


def lst(c1, c2, l1, l2, n2, vals):
    return [cont(c1, c2, l1, l2, len(vals), n2)] + numlines(vals)


def regions(n, k, scheme):
    """k interpolation regions over n points: flat list of (last point, scheme)."""
    k = max(1, min(k, n - 1))
    ends = [1 + (n - 1) * (j + 1) // k for j in range(k)]
    return [v for j, e in enumerate(ends) for v in (e, scheme if k == 1 else 1 + (scheme + j) % 5)]


def intlines(vals):
    return [ints(*vals[i:i + 6]).ljust(66) for i in range(0, len(vals), 6)]


def tab1(c1, c2, l1, l2, x, y, scheme=2, nreg=1):
    flat = [v for p in zip(x, y) for v in p]
    reg = regions(len(x), nreg, scheme)
    return [cont(c1, c2, l1, l2, len(reg) // 2, len(x))] + intlines(reg) + numlines(flat)


def tab2(c1, c2, l1, l2, nz, scheme=4, nreg=1):
    reg = regions(nz, nreg, scheme)
    return [cont(c1, c2, l1, l2, len(reg) // 2, nz)] + intlines(reg)


def plain_section(r, za, awr, n):
    """A section of arbitrary numbers."""
    lines = [cont(za, awr, 0, r.choice([0, 1, 99]), 0, 1)]
    for _ in range(n):
        lines.append(''.join(fl(round(r.uniform(-1, 1), 6) * 10.0 ** r.randrange(-12, 9)) for _ in range(6)))
    return lines


def xs_section(r, za, awr, n, nreg=None):
    x = sorted({round(10 ** r.uniform(-5, 7), 6) for _ in range(n)})
    y = [round(r.random() * 10, 5) for _ in x]
    nreg = r.choice([1, 1, 2, 3, 4, 7]) if nreg is None else nreg
    q = round(r.uniform(-9e6, 1e7), -1)
    return [cont(za, awr, 0, 0, 0, 0)] + tab1(q, -q / 2, 0, r.choice([0, 0, 31]), x, y, nreg=nreg), \
        {'head': [za, awr, 0, 0, 0, 0], 'params': [q, -q / 2, 0], 'x': x, 'y': y, 'reg': regions(len(x), nreg, 2)}


def thermal_sections(sp, za, awr):
    """MF7 MT4 (always) and MT2 (if sp['elastic'])."""
    temps = sp['temps']
    sec = {}
    if sp.get('elastic'):
        s = [cont(za, awr, sp['elastic'], 0, 0, 0)]
        s += tab1(temps[0], 0, 0, 0, [1e-3, 1e-2, 1.0], [0.1, 0.2, 0.3])
        sec[7, 2] = s
    s = [cont(za, awr, 0, 0, 0, 0)]
    ns = sp.get('ns', 0)
    s += lst(0, 0, 0, 0, ns, [1.0, 2.0, awr, sp['emax'], 0.0, float(sp['natom'])] + [0.0, 3.7, 15.8, 4.5, 2.25, 1.0] * ns)
    na = sp.get('nalpha', 3)
    betas = [0.25 * k for k in range(sp.get('nbeta', 2))]
    alphas, vals = [round(0.1 * (k + 1), 6) for k in range(na)], [0.01 * (k + 1) for k in range(na)]
    s += tab2(0, 0, 0, 0, len(betas), nreg=sp.get('nreg', 1))
    for b in betas:
        s += tab1(temps[0], b, len(temps) - 1, 0, alphas, vals, nreg=sp.get('nreg', 1))
        for t in temps[1:]:
            s += lst(t, b, 4, 0, 0, [v + 0.01 for v in vals])
    sec[7, 4] = s
    return sec


def fv(x):
    """The number fl() writes."""
    s = fl(x).strip()
    k = max(s.rfind('+'), s.rfind('-'))
    return float(s[:k] + 'e' + s[k:]) if k > 0 else float(s)


def release_section(rel, za, awr):
    """MF1 MT458.  rel: coeffs: {part 1-9: [c0, ...]} and tabs: {part: [x, y]}."""
    n = len(rel['coeffs']['1'])
    vals = []
    for k in range(n):
        for j in range(1, 10):
            c = rel['coeffs'][str(j)][k]
            vals += [c, abs(c) / 128]
    s = [cont(za, awr, 0, 1 if rel['tabs'] else 0, 0, len(rel['tabs']))]
    s += [cont(0, 0, 0, n - 1, 18 * n, 9 * n)] + numlines(vals)
    for j, (x, y) in rel['tabs']:
        s += tab1(0, 0, 1, j, x, y)
    return s


def build_material(sp):
    """sp: mat, Z, A, liso, fiss, lib=(nlib, nver, lrel), nsub, text lines, sections [[mf, mt, n]], seed, thermal.
    Returns (list of lines without line end, model)."""
    r = core.rng_for('endf', sp['seed'])
    mat, za = sp['mat'], 1000 * sp['Z'] + sp['A']
    awr = round(sp['A'] * 0.9917 + 0.001, 4) or 1.0
    secs, numbers = {}, {}
    for mf, mt, n in sp['sections']:
        if mf == 3:
            secs[mf, mt], numbers[mf, mt] = xs_section(r, za, awr, n, sp.get('nreg'))
        else:
            secs[mf, mt] = plain_section(r, za, awr, n)
    if sp.get('release'):
        secs[1, 458] = release_section(sp['release'], za, awr)
    secs.update(sp.get('extra', {}))
    if sp.get('thermal'):
        secs.update(thermal_sections(sp['thermal'], za, awr))
    name = '%3d-%-2s-%3d%s' % (sp['Z'], SYM.get(sp['Z'], 'X'), sp['A'], 'M' if sp['liso'] else ' ')
    text = ['%-11s%-11s%-10s %-33s' % (name, 'LABO', 'EVAL-%05d' % (sp['seed'] % 99999), 'A.UTHOR'),
            ' REF %-17dDIST-JA%02d REV%d-FEB%02d             2020%04dX  ' % (sp['seed'] % 10 ** 9, sp['seed'] % 97, sp['seed'] % 7, sp['seed'] % 89, sp['seed'] % 9973),
            '----ENDF/B-VIII.0     MATERIAL %4d' % mat, '-----INCIDENT NEUTRON DATA', '------ENDF-6 FORMAT']
    for _ in range(sp['text']):
        text.append(' '.join(r.choice(['evaluation', 'of', 'cross', 'sections', '0', '-1', '  0', '1 451', '***']) for _ in range(r.randrange(0, 7))))
    text = [t.ljust(66)[:66] for t in text]
    keys = sorted(secs)
    nxc = len(keys) + 1
    x = dict({'nmod': 2, 'elis': 4.5e4 if sp['liso'] else 0.0, 'sta': 0, 'lis': sp['liso'], 'awi': 1.0, 'emax': 2e7, 'temp': 0.0, 'ldrv': 0, 'lrp': 1},
             **sp.get('ident', {}))
    head = [(fx(za) + fx(awr) if sp.get('fixed') else fl(za) + fl(awr)) + cont(0, 0, x['lrp'], 1 if sp['fiss'] else 0, sp['lib'][0], x['nmod'])[22:],
            cont(x['elis'], float(x['sta']), x['lis'], sp['liso'], 0, 6),
            cont(x['awi'], x['emax'], sp['lib'][2], 0, sp['nsub'], sp['lib'][1]),
            cont(x['temp'], 0.0, x['ldrv'], 0, len(text), nxc)]
    n451 = len(head) + len(text) + nxc
    # what the directory says need not be what follows
    count = {k: len(secs[k]) + (10 ** r.randrange(0, 11) if sp.get('bigdir') and r.random() < 0.5 else 0) for k in keys}
    mods = {k: sp['seed'] % 3 if not sp.get('bigdir') else r.randrange(0, 10) * 10 ** r.randrange(0, 11) for k in keys}
    direc = [' ' * 22 + ints(1, 451, n451, 2)] + [' ' * 22 + ints(mf, mt, count[mf, mt]) + ('%11d' % mods[mf, mt] if not (sp.get('nomod') and mods[mf, mt] == 0) else ' ' * 11) for mf, mt in keys]
    secs[1, 451] = head + text + direc
    lines, model = [], {}
    last_mf = None

    def ctl(m, f, t, n, body=None):
        b = body if body is not None else (fl(0.0) * 2 + ints(0, 0, 0, 0))
        return '%-66s%4d%2d%3d%5d' % (b, m, f, t, n)
    for (mf, mt) in sorted(secs):
        if last_mf is not None and mf != last_mf:
            lines.append(ctl(mat, 0, 0, 0))
        last_mf = mf
        rows = [ctl(mat, mf, mt, k + 1, b) for k, b in enumerate(secs[mf, mt])]
        model[mf, mt] = rows
        lines += rows
        lines.append(ctl(mat, mf, 0, 99999))
    lines.append(ctl(mat, 0, 0, 0))
    lines.append(ctl(0, 0, 0, 0))
    info = {'mat': mat, 'Z': sp['Z'], 'A': sp['A'], 'liso': sp['liso'], 'fiss': bool(sp['fiss']), 'sections': model, 'awr': awr,
            'zsymam': name, 'reactions': [(1, 451, n451, 2)] + [(mf, mt, count[mf, mt], mods[mf, mt]) for mf, mt in keys],
            'library': (sp['lib'][0], sp['lib'][1], sp['lib'][2]), 'nsub': sp['nsub'], 'description': text[5:], 'text': text, 'ident': x, 'numbers': numbers}
    return lines, info


def build(specs, tapeid=True, crlf=False):
    """Text of a tape with the given materials, and their models."""
    lines = ['%-66s%4d%2d%3d%5d' % (' tape id of the simulation', 1, 0, 0, 0)] if tapeid else []
    models = []
    for sp in specs:
        l, m = build_material(sp)
        lines += l
        models.append(m)
    lines.append('%-66s%4d%2d%3d%5d' % (fl(0.0) * 2 + ints(0, 0, 0, 0), -1, 0, 0, 0))
    nl = '\r\n' if crlf else '\n'
    return nl.join(lines) + nl, models


def random_spec(r, cov=True, small=True):
    Z = r.choice(sorted(SYM))
    A = {1: 1, 4: 9, 6: 12, 8: 16, 13: 27, 26: 56, 40: 90, 47: 110, 72: 178, 90: 232, 92: 235, 94: 239, 95: 242}[Z]
    fiss = Z >= 90 and r.random() < 0.7
    sections = []
    mts = sorted(r.sample([1, 2, 4, 16, 51, 91, 102, 103, 107], r.choice([1, 2, 3])))
    if fiss and 18 not in mts:
        mts = sorted(mts + [18])
    for mt in mts:
        sections.append([3, mt, r.randrange(1, 9)])
    if cov:
        for mt in (mts if r.random() < 0.7 else r.sample(mts, 1)):
            sections.append([33, mt, r.randrange(1, 7)])
        if fiss:
            sections += [[31, 452, 3], [35, 18, 3], [1, 452, 2], [5, 18, 4]]
            if [33, 18] not in [s[:2] for s in sections]:
                sections.append([33, 18, 2])
    return {'mat': r.randrange(100, 9999), 'Z': Z, 'A': A, 'liso': r.choice([0, 0, 0, 1, 2]), 'fiss': fiss,
            'lib': [r.choice([0, 0, 2, 6, 99]), r.randrange(0, 9), r.randrange(0, 3)], 'nsub': 10, 'text': r.choice([0, 1, 3, 12]),
            'sections': sections, 'seed': r.randrange(10 ** 9)}
