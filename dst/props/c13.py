"""C13: NJOY table production: tables of this run, in order, or an error."""
import copy
import json
import os
import shutil

from .. import gen_endf, njoysim, popen, worlda
from ..oracleb import describe
from .c04 import resolve

ID = 'C13'
BUDGET = {'quick': 900, 'thorough': 24000}
RULE = ('random history of 1-4 table productions (neutron, thermal, pointwise only) sharing a folder and file names, with programs that fail, omit '
        'tapes, close their output early or talk a lot, failing or short file operations and kills in parent or program; non-trivial: a '
        'program was started; distinct by event trace')
REAL = ['ASAPy.data.njoy (make_ace, make_ace_thermal, make_pendf, run)', 'ASAPy.njoy (make_njoy_run, make_ace_thermal, make_pendf, run)', 'ASAPy.data.endf', 'ASAPy.endf', 'shutil and tempfile on a scratch folder']
STUB = ['NJOY (reads the real deck card by card, writes tapes that carry where they come from)', 'subprocess.Popen and pipes', 'raw file layer']
ASSUMPTIONS = ['NJOY behaves as its manual says for the modules used; the physics of its numbers is not modelled',
               'one table production at a time works on a file name', 'a program whose own file operation fails ends with a non-zero status']
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'thermal.json')) as _f:
    THERMAL = {int(k): v for k, v in json.load(_f).items()}


def plan(r):
    p = {}
    u = r.random()
    if u < 0.15:
        p['die_at'] = r.randrange(0, 9)
        p['die_how'] = r.choice([['exit', 77], ['exit', 1], ['signal', 11], ['signal', 9]])
    elif u < 0.33:
        p['omit'] = r.sample(['ace:0', 'ace:1', 'ace:2', 'dir:0', 'dir:1', 'dir:2'], r.choice([1, 1, 2]))
    elif u < 0.37:
        p['omit_output'] = True
    if r.random() < 0.2:
        p['close_early'] = r.randrange(0, 9)
    if r.random() < 0.2:
        p['talk'] = [r.randrange(0, 9), r.choice([1, 30, 120])]
    return p


def fault(r):
    f = {'who': 'parent' if r.random() < 0.75 else 'child', 'pick': round(r.random(), 4), 'op': r.choice(['any', 'any', 'open', 'write', 'close', 'read', 'unlink', 'rename', 'spawn']),
         'frac': round(r.random() if r.random() < 0.5 else 1 - 0.4 * r.random(), 6), 'act': r.choice(['EIO', 'ENOSPC', 'EMFILE', 'EACCES', 'EDQUOT', 'short', 'kill', 'kill'])}
    if f['act'] == 'kill' and r.random() < 0.3:
        f['all'] = True
    if r.random() < 0.6:
        f['keepfrac'] = round(r.random(), 4)
    return f


def gen(r, i, tier):
    specs = [gen_endf.random_spec(r, cov=False) for _ in range(r.choice([1, 2]))]
    if r.random() < 0.5:
        specs[0]['liso'] = r.choice([1, 2])
    therm = []
    for _ in range(r.choice([0, 1, 1, 2])):
        sp = gen_endf.random_spec(r, cov=False)
        sp.update(mat=r.choice(sorted(THERMAL)), liso=0, fiss=False, sections=[], nsub=12,
                  thermal={'temps': sorted(r.sample([293.6, 296.0, 350.0, 400.0, 600.0, 1200.0], r.choice([1, 2, 3]))), 'elastic': r.choice([None, 1, 2]),
                           'emax': r.choice([4.95, 1.855, 10.0]), 'natom': r.choice([1, 2]),
                           'nalpha': r.randrange(2, 15), 'nreg': r.choice([1, 2, 4, 7]), 'ns': r.choice([0, 1, 2]), 'nbeta': r.choice([2, 9])})
        therm.append(sp)
    names = [['ace', 'xsdir'], ['my.ace', 'my.dir']]
    steps = []
    for k in range(r.choice([1, 1, 2, 3, 4])):
        kind = r.choice(['ace', 'ace', 'ace', 'thermal' if therm else 'ace', 'pendf'])
        temps = r.sample([0.1, 293, 293.6, 300.0, 300, 600.0, 900.5, 1200.25, 2400], r.choice([1, 1, 2, 3, 5]))
        if 300 in temps and r.random() < 0.8:
            temps = [t for t in temps if not isinstance(t, int) or t != 300] or [300]
        if r.random() < 0.06:
            temps = temps + [temps[0] + 0.004]
        s = {'kind': kind, 'spec': r.randrange(len(specs)), 'temps': temps if r.random() < 0.85 else None, 'names': r.choice(names) if r.random() < 0.35 else names[0],
             'pendf': r.choice([None, None, 'pendf']), 'heatr': r.random() < 0.7, 'purr': r.random() < 0.7, 'abs': r.random() < 0.3,
             'input': r.choice([None, None, 'deck.txt']), 'stdout': r.random() < 0.3, 'plan': plan(r) if r.random() < 0.6 else {},
             'sched': [r.choice([0, 1]) for _ in range(r.choice([0, 30, 200]))], 'cap': r.choice([64, 4096, 65536])}
        if kind == 'thermal':
            s['therm'] = r.randrange(len(therm))
        if r.random() < 0.35:
            s['fault'] = fault(r)
        if r.random() < 0.3:
            s['module'] = 'asapy'
        if r.random() < 0.25:
            s['error'] = r.choice([0.01, 0.005, 0.0005])
        steps.append(s)
        if k and r.random() < 0.4:
            steps[-1].update({x: copy.deepcopy(steps[0][x]) for x in ('kind', 'spec', 'temps', 'names', 'pendf', 'heatr', 'purr', 'therm') if x in steps[0]})
    if r.random() < 0.3:
        # a production that is stopped late, then the same again with a program that omits a tape
        s = steps[0]
        s['plan'] = {}
        s['fault'] = {'who': 'parent', 'pick': 0.0, 'op': r.choice(['any', 'unlink', 'unlink', 'open', 'write']), 'frac': round(1 - 0.4 * r.random() ** 2, 6),
                      'act': r.choice(['kill', 'kill', 'EIO', 'EACCES', 'ENOSPC'])}
        v = copy.deepcopy(s)
        del v['fault']
        v['plan'] = {'omit': r.sample(['ace:0', 'ace:1', 'ace:2', 'dir:0', 'dir:1', 'dir:2'], r.choice([1, 1, 2, 3]))}
        if r.random() < 0.5 and s['temps'] and len(s['temps']) > 1:
            r.shuffle(v['temps'])
        steps.insert(1, v)
    return {'specs': specs, 'therm': therm, 'steps': steps, 'seed': r.randrange(10 ** 9), 'tapeid': r.random() < 0.8}


def shrink(sc):
    for k in range(len(sc['steps'])):
        if len(sc['steps']) > 1:
            v = copy.deepcopy(sc)
            del v['steps'][k]
            yield v
    for k, s in enumerate(sc['steps']):
        if 'fault' in s:
            v = copy.deepcopy(sc)
            del v['steps'][k]['fault']
            yield v
        for q in s['plan']:
            if q != 'die_how':
                v = copy.deepcopy(sc)
                del v['steps'][k]['plan'][q]
                yield v
        if s['sched']:
            v = copy.deepcopy(sc)
            v['steps'][k]['sched'] = []
            yield v
        for key in ('error', 'module'):
            if key in s:
                v = copy.deepcopy(sc)
                del v['steps'][k][key]
                yield v
        for key, val in (('heatr', False), ('purr', False), ('pendf', None), ('input', None), ('stdout', False), ('abs', False)):
            if s[key] != val:
                v = copy.deepcopy(sc)
                v['steps'][k][key] = val
                yield v
        if s['temps'] and len(s['temps']) > 1:
            for j in range(len(s['temps'])):
                v = copy.deepcopy(sc)
                del v['steps'][k]['temps'][j]
                yield v


def materialise(sc, root):
    texts = {}
    for name, specs in (('n', sc['specs']), ('t', sc['therm'])):
        for k, sp in enumerate(specs):
            t, _ = gen_endf.build([sp], sc['tapeid'])
            texts['%s%d.endf' % (name, k)] = t
    for n, t in texts.items():
        with open(os.path.join(root, n), 'w', newline='') as f:
            f.write(t)
    os.makedirs(os.path.join(root, 'work'))
    return texts


def execute(sc, step, root, nonce, faults=()):
    nj = njoysim.Njoy(nonce, step['plan'])
    w = popen.world(root, {'njoy': nj, '/sim/bin/njoy': nj, '/Users/veeshy/projects/NJOY2016/bin/njoy': nj}, pipe_capacity=step['cap'], sched=step['sched'], faults=faults, step_limit=30000)
    w.readonly = {'%s%d.endf' % (n, k) for n, specs in (('n', sc['specs']), ('t', sc['therm'])) for k in range(len(specs))}
    work = os.path.join(root, 'work')

    def path(n):
        return os.path.join(work, n) if n is not None and step['abs'] else n

    def go():
        if step.get('module') == 'asapy':
            from ASAPy import njoy
            make_ace = lambda *a, **k: njoy.make_njoy_run(*a, errorr=False, run=True, **k)
        else:
            from ASAPy.data import njoy
            make_ace = njoy.make_ace
        endf = os.path.join(root, 'n%d.endf' % step['spec'])
        kw = {'njoy_exec': '/sim/bin/njoy'} if step['abs'] else {}
        if step['input']:
            kw['input_filename'] = path(step['input'])
        if step.get('error'):
            kw['error'] = step['error']
        if step['kind'] == 'pendf':
            return njoy.make_pendf(endf, path(step['pendf'] or 'pendf'), stdout=step['stdout'], **({'error': step['error']} if step.get('error') else {}))
        kw['stdout'] = step['stdout']
        temps = copy.deepcopy(step['temps'])
        if step['kind'] == 'thermal':
            return njoy.make_ace_thermal(endf, os.path.join(root, 't%d.endf' % step['therm']), temps, path(step['names'][0]), path(step['names'][1]), **kw)
        return make_ace(endf, temps, path(step['names'][0]), path(step['names'][1]), path(step['pendf']), heatr=step['heatr'], purr=step['purr'], **kw)
    t = worlda.job_task(w, go, 11)
    worlda.run_world(w, work)
    return w, t, nj


def expected(sc, step, texts, nonce):
    """{file: text} of an undisturbed run."""
    sp = sc['specs'][step['spec']]
    text = texts['n%d.endf' % step['spec']]
    h, secs = njoysim.endf_info(text)
    out = {}
    if step['kind'] == 'pendf' or (step['kind'] == 'ace' and step['pendf']):
        out[step['pendf'] or 'pendf'] = json.dumps({'k': 'pendf', 'h': h, 'mat': sp['mat'], 'temps': [0.0], 'mods': ['reconr']})
    if step['kind'] == 'pendf':
        return out
    temps = step['temps'] if step['temps'] is not None else [293.6]
    ace = xsd = ''
    if step['kind'] == 'thermal':
        th = sc['therm'][step['therm']]
        temps = step['temps'] if step['temps'] is not None else th['thermal']['temps']
        name, zaids, nmix = THERMAL[th['mat']]
        hth, _ = njoysim.endf_info(texts['t%d.endf' % step['therm']])
        el = th['thermal']['elastic']
        opts = [222, 64, 223 if el else 0, el - 1 if el else 0, nmix, th['thermal']['emax'], 2]
        extra = njoysim.thermal_extra(hth, name, zaids[:3], opts, 1 if el else 0, th['thermal']['natom'], th['thermal']['emax'], ['reconr', 'broadr', 'thermr221', 'thermr222'])
        for k, T in enumerate(temps):
            ace += njoysim.ace_text(nonce, h, sp['mat'], T, '%02d' % (k + 1), 0, 't', extra)
            xsd += njoysim.xsdir_text(nonce, h, sp['mat'], T, '%02d' % (k + 1))
    else:
        za = 1000 * sp['Z'] + sp['A']
        mods = '+'.join(['reconr', 'broadr'] + (['heatr'] if step['heatr'] else []) + (['purr'] if step['purr'] else []))
        for k, T in enumerate(temps):
            a = njoysim.ace_text(nonce, h, sp['mat'], T, '%02d' % (k + 1), za, extra=mods)
            if sp['liso']:
                a = '%6d' % (za + 400) + a[6:]
            ace += a
            xsd += njoysim.xsdir_text(nonce, h, sp['mat'], T, '%02d' % (k + 1))
    out[step['names'][0]] = ace
    out[step['names'][1]] = xsd
    return out


def collide(step, sc):
    temps = step['temps'] or []
    return len({'%.1f' % t for t in temps}) != len(temps)


def listing(root):
    return sorted(os.listdir(os.path.join(root, 'work')))


def run(sc, ctx):
    root = ctx.fresh('r')
    texts = materialise(sc, root)
    work = os.path.join(root, 'work')
    for k, step in enumerate(sc['steps']):
        nonce = '%d.%d' % (sc['seed'], k)
        faults = []
        if step.get('fault'):
            twin = ctx.fresh('twin')
            shutil.rmtree(twin)
            shutil.copytree(root, twin)
            w0 = execute(sc, step, twin, nonce)[0]
            ctx.add(w0, 'undisturbed')
            faults = resolve([step['fault']], w0)
        before = listing(root)
        tmp_before = os.listdir(os.path.join(root, 'tmp')) if os.path.isdir(os.path.join(root, 'tmp')) else []
        w, t, nj = execute(sc, step, root, nonce, faults)
        ctx.add(w, 'production %d' % (k + 1))
        ctx.nontrivial |= bool(w.children)
        d = 'production %d (%s)%s' % (k + 1, step['kind'], ' with ' + describe(faults) if faults else '')
        if w.deadlock or any(x.status == 'steplimit' for x in w.tasks):
            ctx.bad('no-end', '%s does not end: %s' % (d, w.deadlock))
            return
        for n, txt in texts.items():
            with open(os.path.join(root, n), newline='') as f:
                if f.read() != txt:
                    ctx.bad('input', '%s changed the input file %s' % (d, n))
                    return
        if nj.report.get('deck_error') and not collide(step, sc) and not any(x[0] != 'omit' and x[1] != 'program' for x in w.fired):
            ctx.bad('deck', '%s: NJOY cannot use its input: %s' % (d, nj.report['deck_error']))
            return
        want = expected(sc, step, texts, nonce)
        if t.status == 'ok' and any(e != step.get('error', 0.001) for e in nj.report.get('err', [])):
            ctx.bad('deck', '%s: NJOY was asked for an accuracy of %s instead of %s' % (d, nj.report['err'], step.get('error', 0.001)))
            return
        if t.status == 'ok':
            codes = [getattr(c, 'exit_code', -9) for c in w.children]
            if any(codes) or not codes:
                ctx.bad('false-success', '%s reported success although NJOY ended with %s' % (d, codes))
                return
            om = nj.report.get('omitted', [])
            if om:
                ctx.bad('false-success', '%s reported success although NJOY wrote no %s' % (d, om[0]))
                return
            for n in sorted(want):
                p = os.path.join(work, n)
                if not os.path.isfile(p):
                    ctx.bad('missing', '%s reported success but there is no %s' % (d, n))
                    return
                with open(p) as f:
                    got = f.read()
                if got != want[n]:
                    ctx.bad('content', '%s reported success but %s is not what NJOY wrote in this run' % (d, n))
                    return
            new = [n for n in listing(root) if n not in before and n not in want and n != step['input']]
            left = [n for n in os.listdir(os.path.join(root, 'tmp')) if n not in tmp_before]
            if new or left:
                ctx.bad('leftover', '%s left %s' % (d, new or left))
                return
            ctx.probes['tables_compared'] += len(want)
            ctx.probes['success_despite_fault'] += bool(faults and w.fired)
        elif not w.fired and not collide(step, sc) and not step['plan'].get('omit'):
            ctx.bad('failed', '%s failed although nothing was wrong: %s: %s' % (d, t.status, repr(t.error)[:300]))
            return
        else:
            ctx.probes['failed'] += 1
