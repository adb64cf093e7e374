"""C11: damaged ENDF files are rejected, never looped on or read as something else."""
import copy
import os

from .. import core, gen_endf, seams
from ..worlda import job_task, run_world

ID = 'C11'
BUDGET = {'quick': 18000, 'thorough': 400000}
RULE = ('random tape (1-4 materials, with or without tape id, either line end), read by both readers after the writer was '
        'killed at a random byte, with read errors or with reads returning few bytes; non-trivial: the reader met a '
        'partial file, an error or a short read; distinct by event trace')
REAL = ['ASAPy.endf and ASAPy.data.endf (Evaluation, get_evaluations and the record readers)', 'Python text file layer']
STUB = ['the raw file below it (reads, writes, errors scheduled)', 'the process that wrote the tape (killed at the cut)']
ASSUMPTIONS = ['the tape does not change while it is read']
SUBLIB = {0: 'Photo-nuclear data', 3: 'Photo-atomic data', 4: 'Radioactive decay data', 5: 'Spontaneous fission product yields', 6: 'Atomic relaxation data',
          10: 'Incident-neutron data', 11: 'Neutron-induced fission product yields', 12: 'Thermal neutron scattering data', 19: 'Neutron standards',
          113: 'Electro-atomic data', 10010: 'Incident-proton data', 10020: 'Incident-deuteron data', 10030: 'Incident-triton data',
          20030: 'Incident-helion (3He) data', 20040: 'Incident-alpha data'}
LIB = {0: 'ENDF/B', 1: 'ENDF/A', 2: 'JEFF', 3: 'EFF', 4: 'ENDF/B High Energy', 5: 'CENDL', 6: 'JENDL', 31: 'INDL/V', 32: 'INDL/A', 33: 'FENDL',
       34: 'IRDF', 35: 'BROND', 36: 'INGDB-90', 37: 'FENDL/A', 41: 'BROND'}         # as both readers know them


def gen(r, i, tier):
    n = r.choice([1, 1, 1, 2, 3, 4])
    specs = [gen_endf.random_spec(r, cov=r.random() < 0.5) for _ in range(n)]
    for sp in specs:
        if sp['Z'] == 95:                      # the state of one isomer only is corrected by the reader
            sp['A'], sp['liso'] = r.choice([241, 242, 242, 244]), r.choice([0, 1, 1, 2])
        if r.random() < 0.15:
            sp['thermal'] = {'temps': [293.6, 400.0, 600.0][:r.choice([1, 2, 3])], 'elastic': r.choice([0, 1, 2]), 'emax': 4.0, 'natom': 2,
                             'nalpha': r.randrange(2, 15), 'nreg': r.choice([1, 2, 4, 7]), 'ns': r.choice([0, 1, 2]), 'nbeta': r.choice([2, 9])}
        if r.random() < 0.3:
            sp['fixed'] = True
        if r.random() < 0.3:
            sp['lib'][0] = r.choice(sorted(LIB))
        if r.random() < 0.4:
            sp['bigdir'] = True
        if r.random() < 0.3:
            sp['nomod'] = True
        if r.random() < 0.5:
            sp['ident'] = {'nmod': r.randrange(0, 999), 'elis': r.choice([0.0, 4.5e4, 2.4461e6, 1.234567e-7]), 'sta': r.choice([0, 1]),
                           'lis': r.choice([0, 1, 2, 16]), 'awi': r.choice([0.0, 1.0, 1.996256, 3.967131]), 'emax': r.choice([2e7, 1.5e8, 3e7, 2e8]),
                           'temp': r.choice([0.0, 293.6, 1200.0]), 'ldrv': r.choice([0, 0, 1, 2]), 'lrp': r.choice([-1, 0, 1, 2])}
            sp['nsub'] = r.choice([0, 3, 4, 5, 6, 10, 11, 12, 19, 113, 10010, 10020, 10030, 20030, 20040])
        if r.random() < 0.1:
            sp['sections'].append([r.choice([8, 12, 14]), r.choice([18, 102, 454]), r.choice([60, 200])])
    mode = r.choice(['cut', 'cut', 'cut', 'cut', 'readerr', 'chunks', 'intact'])
    sc = {'specs': specs, 'tapeid': r.random() < 0.7, 'crlf': r.random() < 0.25, 'mode': mode, 'reader': r.choice(['endf', 'data']),
          'call': r.choice(['one', 'one', 'obj', 'all', 'all']) if n > 1 or r.random() < 0.3 else 'one',
          'cut': round(r.random(), 7), 'near': r.choice(['none', 'none', 'line', 'send', 'end']), 'off': r.randrange(-3, 84),
          'faults': [], 'numbers': r.random() < 0.3}
    if mode == 'readerr':
        sc['faults'] = [{'rank': 0, 'op': r.choice(['read', 'read', 'read', 'open']), 'n': r.choice([0, 0, 1, 2, 3, 5, 9, 20]), 'act': r.choice(['EIO', 'EIO', 'EMFILE'])}]
        if sc['faults'][0]['op'] == 'open':
            sc['faults'][0]['n'] = 0
    if mode in ('chunks', 'cut') and r.random() < 0.7:
        sc['faults'] += [{'rank': 0, 'op': 'read', 'n': k, 'act': 'short', 'keep': r.choice([1, 2, 79, 81, 700])} for k in range(r.choice([1, 8, 40]))]
    return sc


def shrink(sc):
    for k in range(len(sc['specs'])):
        if len(sc['specs']) > 1:
            v = copy.deepcopy(sc)
            del v['specs'][k]
            yield v
    for k, sp in enumerate(sc['specs']):
        for j in range(len(sp['sections'])):
            v = copy.deepcopy(sc)
            del v['specs'][k]['sections'][j]
            yield v
        if sp.get('thermal'):
            v = copy.deepcopy(sc)
            del v['specs'][k]['thermal']
            yield v
        for key in ('bigdir', 'nomod', 'ident', 'fixed'):
            if key in sp:
                v = copy.deepcopy(sc)
                del v['specs'][k][key]
                yield v
        if sp['text']:
            v = copy.deepcopy(sc)
            v['specs'][k]['text'] = 0
            yield v
    if sc['faults']:
        yield dict(sc, faults=[])
        for k in range(len(sc['faults'])):
            yield dict(sc, faults=sc['faults'][:k] + sc['faults'][k + 1:])
    for k, v in (('crlf', False), ('tapeid', False), ('mode', 'cut'), ('call', 'one')):
        if sc[k] != v:
            yield dict(sc, **{k: v})


def cut_at(sc, data, lines):
    """Byte position of the cut."""
    pos = int(sc['cut'] * (len(data) + 1))
    if sc['near'] == 'line':
        w = len(lines[0])
        pos = pos // w * w + sc['off']
    elif sc['near'] == 'send':
        ends = [k for k, l in enumerate(lines) if l[72:75] == '  0']
        k = ends[int(sc['cut'] * len(ends))]
        pos = k * len(lines[0]) + sc['off']
    elif sc['near'] == 'end':
        pos = len(data) - 84 + sc['off']
    return max(0, min(len(data), pos))


def records(endf, ev):
    """Numbers of the pointwise sections, read with the reader's own record functions."""
    import io
    out = {}
    for k in sorted(ev.section):
        if k[0] != 3:
            continue
        fh = io.StringIO(ev.section[k])
        head, got = endf.get_head_record(fh), endf.get_tab1_record(fh)
        if len(got) == 2:
            p, f = got
            x, y, b, i = f.x, f.y, f.breakpoints, f.interpolation
        else:
            p, x, y, b, i = got
        out[k] = (list(head), list(p), [float(v) for v in x], [float(v) for v in y], [int(v) for q in zip(b, i) for v in q])
    return out


def compare(ev, m, which, recs=None):
    """Problems of one evaluation the reader returned."""
    out = []
    want = {k: ''.join(l + '\n' for l in v) for k, v in m['sections'].items()}
    if ev.material != m['mat']:
        out.append('MAT %s instead of %d' % (ev.material, m['mat']))
    for k in sorted(ev.section):
        if k not in want:
            out.append('section %s is not on the tape' % (k,))
        elif ev.section[k] != want[k]:
            out.append('section %s differs (%d of %d characters)' % (k, len(ev.section[k]), len(want[k])))
    missing = sorted(set(want) - set(ev.section))
    if missing:
        out.append('sections missing: %s' % missing[:4])
    if [tuple(x) for x in ev.reaction_list] != m['reactions']:
        out.append('directory differs')
    for k, n in sorted(m['numbers'].items()):
        f = lambda v: [float('%.6E' % q) for q in v]
        if recs is not None and k in recs and (f(recs[k][0]), f(recs[k][1][:3]), f(recs[k][2]), f(recs[k][3]), recs[k][4]) != \
                (f(n['head']), f(n['params']), f(n['x']), f(n['y']), n['reg']):
            out.append('numbers of section %s differ' % (k,))
    t, i, x, txt = ev.target, ev.info, m['ident'], m['text']
    num = lambda v: float('%.6E' % v)
    am = m['Z'] == 95 and m['A'] == 242 and m['liso'] == 1         # corrected by the reader
    for name, got, exp in (('modification', i.get('modification'), x['nmod']), ('excitation energy', t.get('excitation_energy'), num(x['elis'])),
                           ('stable', t.get('stable'), x['sta'] == 0), ('state', t.get('state'), 2 if am else x['lis']),
                           ('projectile', ev.projectile.get('mass'), num(x['awi'])), ('energy', i.get('energy_max'), num(x['emax'])),
                           ('temperature', t.get('temperature'), num(x['temp'])), ('derived', i.get('derived'), x['ldrv'] > 0),
                           ('sublibrary', i.get('sublibrary'), m['nsub'] if which == 'endf' else SUBLIB[m['nsub']]), ('laboratory', i.get('laboratory'), txt[0][11:22]),
                           ('date', i.get('date'), txt[0][22:32]), ('author', i.get('author'), txt[0][32:66]), ('reference', i.get('reference'), txt[1][1:22]),
                           ('date of distribution', i.get('date_distribution'), txt[1][22:32]), ('date of release', i.get('date_release'), txt[1][33:43]),
                           ('date of entry', i.get('date_entry'), txt[1][55:63]),
                           ('identifier', i.get('identifier'), txt[2:5])):
        if got != exp:
            out.append('%s is %r, not %r' % (name, got, exp))
    for name, got, exp in (('Z', t.get('atomic_number'), m['Z']), ('A', t.get('mass_number'), m['A']), ('fissionable', t.get('fissionable'), m['fiss']),
                           ('isomeric state', t.get('isomeric_state'), m['liso']), ('name', t.get('zsymam'), m['zsymam']),
                           ('mass', t.get('mass'), float('%.6E' % m['awr'])), ('description', i.get('description'), m['description']),
                           ('library', i.get('library'), (LIB.get(m['library'][0], 'Unknown'),) + m['library'][1:])):
        if got != exp:
            out.append('%s is %r, not %r' % (name, got, exp))
    return out


def run(sc, ctx):
    root = ctx.fresh('r')
    text, models = gen_endf.build(sc['specs'], sc['tapeid'], sc['crlf'])
    data = text.encode()
    lines = text.splitlines(True)
    path = os.path.join(root, 'tape')
    pos = cut_at(sc, data, lines) if sc['mode'] == 'cut' else len(data)
    with open(path, 'wb') as f:
        f.write(data[:pos])
    w = core.World(root, faults=sc['faults'], step_limit=30000)
    w.readonly = {os.path.basename(path)}
    w.kill_others_on_failure = False
    w.log.append(('tape', core.derive(text) % 10 ** 9, pos))

    def read():
        if sc['reader'] == 'endf':
            from ASAPy import endf
        else:
            from ASAPy.data import endf
        if sc['call'] == 'one':
            evs = [endf.Evaluation(path)]
        elif sc['call'] == 'obj':
            with open(path, 'r') as fh:
                evs = [endf.Evaluation(fh)]
        else:
            evs = endf.get_evaluations(path)
        return evs, [records(endf, e) for e in evs] if sc.get('numbers') else [None] * len(evs)
    t = job_task(w, read, 1)
    run_world(w, root)
    ctx.add(w, sc['mode'])
    who = '%s %s' % ({'endf': 'ASAPy.endf', 'data': 'ASAPy.data.endf'}[sc['reader']], 'get_evaluations' if sc['call'] == 'all' else 'Evaluation')
    ctx.nontrivial = bool(w.fired) or pos < len(data)
    d = {'cut': 'tape cut at byte %d of %d' % (pos, len(data)), 'readerr': 'read error',
         'chunks': 'short reads', 'intact': 'intact tape'}[sc['mode']]
    if t.status == 'steplimit' or w.deadlock:
        ctx.bad('no-end', '%s does not come to an end on a %s' % (who, d))
        return
    if t.status != 'ok':
        ctx.probes['rejected'] += 1
        hard = any(a not in ('short',) for a, _, _ in w.fired)
        if pos == len(data) and not hard:
            ctx.bad('intact-rejected', '%s fails on an intact tape (%s): %r' % (who, d, t.error))
        return
    if any(a not in ('short',) for a, _, _ in w.fired):
        ctx.probes['fault_survived'] += 1
    evs, recs = t.result
    ctx.probes['accepted_damaged' if pos < len(data) else 'accepted'] += 1
    if sc['call'] != 'all' and len(evs) != 1:
        ctx.bad('materials', '%s: %d evaluations' % (who, len(evs)))
    if sc['call'] == 'all' and [e.material for e in evs] != [m['mat'] for m in models]:
        ctx.bad('materials', '%s on a %s returns materials %s, the tape has %s' % (who, d, [e.material for e in evs], [m['mat'] for m in models]))
        return
    for e, m, rc in zip(evs, models, recs):
        p = compare(e, m, sc['reader'], rc)
        if p:
            ctx.bad('content', '%s on a %s: MAT %d: %s' % (who, d, m['mat'], '; '.join(p[:3])))
            break
