"""C10: a killed sampling run can simply be repeated."""
import os

from .. import core, gen_ace, genb, sampling, seams
from ..oracleb import describe, resolve

ID = 'C10'
BUDGET = {'quick': 320, 'thorough': 7000}
RULE = ('random job killed 1-3 times in a row (one or several ranks, any operation, torn writes), then repeated with another random stream '
        'and rank count; compared with the same run in a fresh folder; non-trivial: a kill fired after the first file was opened for writing; '
        'distinct by event trace')
REAL = genb.REAL
STUB = genb.STUB
ASSUMPTIONS = genb.ASSUMPTIONS + ['data of completed write calls survives a kill of the process (no machine crash)']


def shrink(sc):
    import copy
    if len(sc['crashes']) > 1:
        for i in range(len(sc['crashes'])):
            v = copy.deepcopy(sc)
            del v['crashes'][i]
            yield v
    for i, c in enumerate(sc['crashes']):
        if len(c['faults']) > 1:
            for k in range(len(c['faults'])):
                v = copy.deepcopy(sc)
                del v['crashes'][i]['faults'][k]
                yield v
        if c['sched']:
            v = copy.deepcopy(sc)
            v['crashes'][i]['sched'] = []
            yield v
    yield from genb.shrink(sc)


def gen(r, i, tier):
    sc = genb.scenario(r, tier, max_n=r.choice([1, 3, 5]), max_mts=r.choice([1, 2, 3]))
    sc['crashes'] = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        n = r.choice([1, 1, 2, 3, 4])
        c = {'nranks': n, 'sched': genb.sched(r, r.choice([40, 300])), 'rng': r.randrange(10 ** 9), 'abort_delay': r.choice([0, 3, 30, 300]), 'faults': []}
        for rank in r.sample(range(n), min(n, r.choice([1, 1, 2]))):
            op = r.choice(['any', 'write', 'write', 'write', 'open', 'close'])
            f = {'rank': rank, 'op': op, 'frac': round(r.random() if r.random() < 0.6 else 1 - 0.15 * r.random(), 6), 'act': 'kill'}
            if r.random() < 0.75:
                f['keepfrac'] = round(r.random(), 4)
            c['faults'].append(f)
        sc['crashes'].append(c)
    sc['nranks'] = r.choice([1, 2, 3])
    sc['sched'] = genb.sched(r, 200)
    return sc


def accepted(root, name):
    """What the table reader of the package says about a file: (accepted, problem)."""
    w = core.World(root)
    proc = core.ProcessState(['x'], 1, {})

    def go():
        from ASAPy import AceIO
        e = AceIO.AceEditor(os.path.join(root, name))
        # a user of the table looks at all of it
        for mt in e.all_mts:
            e.get_sigma(mt)
            e.get_energy(mt)
        return True
    t = w.spawn(0, go, proc)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w.run()
    return w, t.status == 'ok'


def run(sc, ctx):
    b = ctx.fresh('b')
    model = sampling.materialise(sc, b)
    before = sampling.input_digest(b)
    base = sampling.read_outputs(b, model)
    began = False
    for k, c in enumerate(sc['crashes']):
        a = ctx.fresh('a')
        s = dict(sc, rng=c['rng'])
        sampling.materialise(s, a)
        w0 = ctx.add(sampling.run_job(s, a, c['nranks'], sched=c['sched']), 'undisturbed')
        if sampling.failed(w0) or w0.deadlock:
            ctx.bad('run-failed', 'undisturbed run failed: %s %s' % (sampling.job_status(w0), sampling.errors_of(w0)[:1]))
            return
        ref = sampling.read_outputs(a, model)
        old = sampling.read_outputs(b, model)
        f = resolve(c['faults'], w0)
        w = ctx.add(sampling.run_job(s, b, c['nranks'], sched=c['sched'], faults=f, abort_delay=c['abort_delay']), 'with ' + describe(f))
        d = 'run %d with %s' % (k + 1, describe(f))
        if w.deadlock or any(t.status == 'steplimit' for t in w.tasks):
            ctx.bad('no-end', '%s: ranks stuck: %s' % (d, w.deadlock))
            return
        if w.fired and not sampling.failed(w):
            ctx.bad('status', '%s: reported as success' % d)
        if sampling.input_digest(b) != before:
            ctx.bad('input', '%s: base table or store modified' % d)
        out = sampling.read_outputs(b, model)
        written = {str(e[2]).rsplit(':', 1)[0] for e in w.log if len(e) == 4 and e[1] == 'open' and str(e[2])[-1:] in 'wax+'}
        began |= bool(written)
        for n in sorted(out):
            if '.' in n or not n.startswith(sampling.prefix(model) + '_'):
                continue
            if out[n] == ref.get(n) or out[n] == old.get(n):
                continue
            full = ref.get(n)
            if full is None:
                ctx.bad('leftover', '%s: %s does not exist in an undisturbed run' % (d, n))
                return
            wr, ok = accepted(b, n)
            ctx.probes['torn_tables_seen'] += 1
            if ok:
                ht, tok = gen_ace.parse_text(out[n].decode(), len(model['header']))
                hr, rtok = gen_ace.parse_text(full.decode(), len(model['header']))
                if ht == hr and tok[:-1] == rtok[:-1] and len(tok) == len(rtok):
                    ctx.probes['cut_in_last_number'] += tok != rtok
                    continue
                ctx.bad('leftover', '%s: %s (%d of %d bytes) is incomplete but the reader accepts it' % (d, n, len(out[n]), len(full)))
                return
    c = ctx.fresh('c')
    sampling.materialise(sc, c)
    wf = ctx.add(sampling.run_job(sc, c, sc['nranks'], sched=sc['sched']), 'fresh folder')
    wr = ctx.add(sampling.run_job(sc, b, sc['nranks'], sched=sc['sched']), 'repeated in the used folder')
    ctx.nontrivial = began
    if sampling.failed(wf) or wf.deadlock:
        ctx.bad('run-failed', 'undisturbed run failed: %s %s' % (sampling.job_status(wf), sampling.errors_of(wf)[:1]))
        return
    if sampling.failed(wr) or wr.deadlock:
        ctx.bad('repeat-failed', 'repeated run failed: %s %s' % (sampling.job_status(wr), sampling.errors_of(wr)[:1]))
        return
    fresh, again = sampling.read_outputs(c, model), sampling.read_outputs(b, model)
    for n in sorted(fresh):
        if again.get(n) != fresh[n]:
            ctx.bad('repeat-differs', 'after the kills, %s of the repeated run differs from the one made in a fresh folder' % n)
            break
    if sampling.input_digest(b) != before:
        ctx.bad('input', 'repeated run: base table or store modified')
    ctx.probes['tables_repeated'] += sum(1 for n in fresh if '.' not in n)
