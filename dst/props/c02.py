"""C02: extracted matrices stem from this run and the right tape, MT and temperature."""
import copy
import os

from .. import chain, core, gen_endf, worlda

ID = 'C02'
BUDGET = {'quick': 900, 'thorough': 20000}
RULE = ('random history of 1-4 extractions (API and command line, several evaluations, groups, weights, temperatures, nu, chi) in one folder, with '
        'programs that fail at any module, by status or signal, omit outputs, close their output early or talk a lot, under random schedules; '
        'non-trivial: at least one extraction got as far as starting the converter; distinct by event trace')
REAL = ['ASAPy.EndfToCov (chain and command line)', 'ASAPy.njoy (deck, drivers)', 'ASAPy.endf', 'boxer2mat.f (compiled from the tree, run for real)',
        'shutil and tempfile on a scratch folder']
STUB = ['NJOY (reads the real deck card by card, writes tapes that carry where they come from)', 'subprocess.Popen and pipes', 'raw file layer']
ASSUMPTIONS = ['NJOY behaves as its manual says for the modules used; the physics of its numbers is not modelled',
               'one extraction at a time works in a folder']


def setup():
    import sys
    m = sys.modules[__name__]
    worlda.build_boxer(m.scratch_root)


def plan(r, nmods=14):
    p = {}
    k = r.random()
    if k < 0.16:
        p['die_at'] = r.randrange(0, nmods)
        p['die_how'] = r.choice([['exit', 77], ['exit', 1], ['exit', 2], ['signal', 11], ['signal', 9], ['signal', 6]])
    elif k < 0.28:
        p['omit'] = r.sample(['covr:0', 'covr:1', 'covr:2', 'viewr:0', 'viewr:1', 'viewr:2'], r.choice([1, 1, 2]))
    elif k < 0.32:
        p['omit_output'] = True
    if r.random() < 0.3:
        p['close_early'] = r.randrange(0, nmods)
    if r.random() < 0.3:
        p['talk'] = [r.randrange(0, nmods), r.choice([1, 30, 120])]
    if r.random() < 0.1:
        p['talk_first'] = r.choice([1, 20])
    return p


def boxer_plan(r):
    b = {}
    if r.random() < 0.2:
        k = str(r.randrange(0, 5))
        b[k] = r.choice([{'die': ['exit', 3]}, {'die': ['exit', 2]}, {'die': ['signal', 11]}, {'omit': True}, {'die': ['exit', 1], 'omit': True}, {'talk': 200}])
    return b


def gen(r, i, tier):
    specs = [gen_endf.random_spec(r) for _ in range(r.choice([1, 1, 2]))]
    if len(specs) > 1 and r.random() < 0.5:
        specs[1] = dict(copy.deepcopy(specs[0]), seed=r.randrange(10 ** 9))          # same nuclide, other evaluation
    steps = []
    first = chain.random_request(r, specs)
    if 0 < i < 6:                    # each group structure known by name, one of them by leaving it out
        first = chain.random_request(r, specs, 'cli')
        first.update(bins=[None, 'SCALE_238', 'SCALE_56', 'SCALE_44', 'SCALE_252'][i - 1], mts=first['mts'][:1] if first['mts'] else None)
        return {'specs': specs, 'tapeid': True, 'crlf': False, 'seed': r.randrange(10 ** 9),
                'steps': [{'req': first, 'plan': {}, 'boxer': {}, 'sched': [], 'cap': 65536}]}
    for k in range(r.choice([1, 2, 2, 3, 4])):
        req = chain.random_request(r, specs) if k == 0 or r.random() < 0.5 else copy.deepcopy(first)
        if k and r.random() < 0.3 and req['kind'] == 'api':
            req['groups'] = chain.random_groups(r)
        req['out'] = r.choice([None, 'path'])
        steps.append({'req': req, 'plan': plan(r), 'boxer': boxer_plan(r), 'sched': [r.choice([0, 1]) for _ in range(r.choice([0, 30, 200]))],
                      'cap': r.choice([64, 512, 4096, 65536])})
    return {'specs': specs, 'tapeid': r.random() < 0.8, 'crlf': r.random() < 0.15, 'steps': steps, 'seed': r.randrange(10 ** 9)}


def shrink(sc):
    for k in range(len(sc['steps'])):
        if len(sc['steps']) > 1:
            v = copy.deepcopy(sc)
            del v['steps'][k]
            yield v
    for k, s in enumerate(sc['steps']):
        for key in ('plan', 'boxer'):
            if s[key]:
                v = copy.deepcopy(sc)
                v['steps'][k][key] = {}
                yield v
                for q in s[key]:
                    if q in ('die_at', 'die_how'):
                        continue
                    v = copy.deepcopy(sc)
                    del v['steps'][k][key][q]
                    yield v
        if s['sched']:
            v = copy.deepcopy(sc)
            v['steps'][k]['sched'] = []
            yield v
        q = s['req']
        for name in ('mts', 'temps'):
            if isinstance(q.get(name), list) and len(q[name]) > 1:
                for j in range(len(q[name])):
                    v = copy.deepcopy(sc)
                    del v['steps'][k]['req'][name][j]
                    yield v
        for name in ('nu', 'chi'):
            if q.get(name):
                v = copy.deepcopy(sc)
                v['steps'][k]['req'][name] = False
                yield v
        if q['kind'] == 'api' and len(q['groups']) > 2:
            v = copy.deepcopy(sc)
            v['steps'][k]['req']['groups'] = q['groups'][:2]
            yield v
    for k, v in (('crlf', False), ('tapeid', False)):
        if sc[k] != v:
            yield dict(sc, **{k: v})


def must_fail(nj, bx, w):
    """Why this extraction has to fail, or None."""
    codes = chain.child_codes(w)
    if any(codes):
        return 'a program ended with %s' % [c for c in codes if c][0]
    om = [o for o in nj.report.get('omitted', []) if o.startswith('covr')]
    if om:
        return 'NJOY did not write covariance tape %s' % om[0]
    if any(p.get('omit') for _, _, p in bx.report):
        return 'the converter wrote no matrix'
    return None


def run(sc, ctx):
    root = ctx.fresh('r')
    texts = chain.materialise(sc, root)
    kept = {}
    work = os.path.join(root, 'work')
    allowed = set()
    for k, step in enumerate(sc['steps']):
        nonce = '%d.%d' % (sc['seed'], k)
        w, t, nj, bx = chain.run_extraction(sc, step, root, nonce, sched=step['sched'], cap=step['cap'], lists=kept)
        ctx.add(w, 'extraction %d' % k)
        ctx.nontrivial |= len(w.children) > 1
        d = 'extraction %d (%s)' % (k + 1, step['req']['kind'])
        if w.deadlock or any(x.status == 'steplimit' for x in w.tasks):
            ctx.bad('no-end', '%s does not end: %s' % (d, w.deadlock))
            return
        if nj.report.get('deck_error'):
            ctx.bad('deck', '%s: NJOY cannot use its input: %s' % (d, nj.report['deck_error']))
            return
        ex = chain.Expect(step['req'], sc['specs'], texts, nonce)
        allowed |= set(ex.files) | {n for _, _, n in ex.matrix_files()}
        extra = sorted(n for n in os.listdir(work) if (n.startswith(('covr', 'viewr')) or n.endswith('_matrix.txt')) and n not in allowed)
        if extra:
            ctx.bad('extra', '%s leaves %s, which nobody asked for' % (d, extra[:3]))
            return
        why = must_fail(nj, bx, w)
        if why:
            ctx.probes['program_failed'] += 1
            if t.status == 'ok':
                ctx.bad('false-success', '%s succeeded although %s' % (d, why))
                return
            continue
        if t.status != 'ok':
            if step['plan'].get('omit_output'):
                continue
            ctx.bad('failed', '%s failed although all programs did their work: %s: %s' % (d, t.status, repr(t.error)[:300]))
            return
        ctx.probes['succeeded'] += 1
        names = [n for n in ex.files if n.endswith('.eps')]
        for o in nj.report.get('omitted', []):
            # a plot NJOY did not make: then there is none
            n = names[int(o.split(':')[1])]
            del ex.files[n]
            if os.path.exists(os.path.join(work, n)):
                ctx.bad('stale', '%s: %s is there although NJOY made no such plot in this run' % (d, n))
                return
        bad = chain.compare_results(ex, work)
        if bad:
            ctx.bad('wrong-result', '%s: %s' % (d, bad))
            return
        ctx.probes['matrices_compared'] += len(ex.matrix_files())
        for j, txt in enumerate(texts):
            if open(os.path.join(root, 'eval%d.endf' % j), newline='').read() != txt:
                ctx.bad('input', '%s changed its evaluation file' % d)
                return
