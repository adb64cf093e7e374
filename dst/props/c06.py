"""C06: all ranks use the same draws, and every parallel run ends."""
import numpy as np

from .. import genb, gen_ace, gen_store, sampling
from ..oracleb import check_run, resolve, describe, faults_for

ID = 'C06'
BUDGET = {'quick': 320, 'thorough': 6000}
RULE = ('random options (plots, plot only, oversampling, distributions), stores, rank counts and schedules, every rank with its own '
        'random stream, half of the runs with one rank failing at a random operation; non-trivial: two or more ranks ran; distinct by event trace')
REAL = genb.REAL
STUB = genb.STUB + ['rendering of figures (drawing calls are real)']
ASSUMPTIONS = genb.ASSUMPTIONS
shrink = genb.shrink


def gen(r, i, tier):
    sc = genb.scenario(r, tier, max_n=r.choice([2, 4, 7]), max_mts=r.choice([1, 2, 3]))
    sc['nranks'] = r.choice([1, 2, 2, 3, 4, 6])
    sc['sched'] = genb.sched(r, r.choice([60, 200, 600]))
    u = r.random()
    if u < 0.12:
        sc['cli']['plots'] = True
    elif u < 0.2:
        sc['cli']['plot_only'] = True
    if 'plots' in sc['cli'] or 'plot_only' in sc['cli']:
        sc['cli']['n'] = max(2, sc['cli']['n'])
        if 'over' in sc['cli']:
            sc['cli']['over'] = max(sc['cli']['over'], sc['cli']['n'])
    rest = [m for m in sc['ace']['mts'] if str(m) not in sc['store']['mts'] and m not in (3, 27, 203, 207, 444)]
    if r.random() < 0.08 and rest:
        # asked for and on the table, but the store does not have it
        m = r.choice(rest)
        named = list(sc['cli'].get('mts') or [int(x) for x in sc['store']['mts']])
        named.insert(r.randrange(len(named) + 1), m)
        sc['cli']['mts'] = named
        sc['lacks'] = m
        return sc
    if r.random() < 0.05 and sc['cli']['n'] > 1:
        sc['cli']['over'] = r.randrange(1, sc['cli']['n'])         # fewer made than wanted: cannot be done
        return sc
    if r.random() < 0.5:
        sc['faults'] = faults_for(r, sc['nranks'], 1, ['EIO', 'ENOSPC', 'EMFILE', 'kill', 'EACCES'])
        sc['abort_delay'] = r.choice([0, 3, 30, 300])
    return sc


def run(sc, ctx):
    a, b = ctx.fresh('a'), ctx.fresh('b')
    model = sampling.materialise(sc, a)
    w0 = ctx.add(sampling.run_job(sc, a, sc['nranks'], sched=sc['sched']), 'undisturbed')
    if w0.deadlock or w0.fabric.mismatch:
        ctx.bad('deadlock', 'undisturbed run: ranks stuck: %s %s' % (w0.deadlock, w0.fabric.mismatch))
        return
    lacks = sc.get('lacks')
    if lacks is not None and str(lacks) not in sc['store']['mts'] and lacks in (sc['cli'].get('mts') or []) and lacks in sc['ace']['mts']:
        ctx.probes['asked_for_but_not_in_store'] += 1
        ctx.nontrivial = sc['nranks'] > 1
        if not sampling.failed(w0):
            ctx.bad('silent', 'MT %d was asked for, the table has it and the store does not, but the run reported success' % lacks)
        return
    if 0 < sc['cli'].get('over', 0) < sc['cli']['n']:
        ctx.probes['impossible_request'] += 1
        if not sampling.failed(w0) and sampling.expected_mts(sc, model):
            ctx.bad('silent', '%d samples cannot be kept of %d made, but the run reported success' % (sc['cli']['n'], sc['cli']['over']))
        return
    if sampling.failed(w0):
        ctx.bad('run-failed', 'undisturbed run failed: %s %s' % (sampling.job_status(w0), sampling.errors_of(w0)[:1]))
        return
    mts = sampling.expected_mts(sc, model)
    out = sampling.read_outputs(a, model)
    ctx.nontrivial = sc['nranks'] > 1
    if not mts:
        ctx.probes['nothing_to_sample'] += 1
        if out:
            ctx.bad('output', 'nothing to sample but files were written: %s' % sorted(out)[:3])
    elif sc['cli'].get('plot_only'):
        ctx.probes['plot_only'] += 1
        extra = [n for n in out if not n.endswith('.png')]
        if extra:
            ctx.bad('output', 'plot-only run wrote %s' % extra[:3])
    else:
        for cls, text in check_run(sc, a, model, mts, out):
            ctx.bad(cls, text)
    if sc['cli'].get('plots'):
        ctx.probes['plots'] += 1
    if len({tuple(x) for x in w0.fabric.seq}) > 1:
        ctx.bad('collectives', 'ranks took part in different collective operations: %s' % w0.fabric.seq)
    if sc.get('faults'):
        sampling.materialise(sc, b)
        f = resolve(sc['faults'], w0)
        w = ctx.add(sampling.run_job(sc, b, sc['nranks'], sched=sc['sched'], faults=f, abort_delay=sc.get('abort_delay', 0)), 'with ' + describe(f))
        if w.deadlock:
            ctx.bad('deadlock', 'with %s: ranks stuck although no rank failed: %s' % (describe(f), w.deadlock))
        elif any(t.status == 'steplimit' for t in w.tasks):
            ctx.bad('no-end', 'with %s: run does not end' % describe(f))
        elif not sampling.failed(w):
            if sampling.read_outputs(b, model) != out:
                ctx.bad('silent', 'with %s: run reported success with different results' % describe(f))
        ctx.probes['rank_failed'] += sampling.failed(w)
