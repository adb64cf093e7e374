"""C05: parallel sampling writes every sample once, independent of ranks and timing."""
import os

from .. import genb, sampling, gen_ace

ID = 'C05'
BUDGET = {'quick': 320, 'thorough': 6000}
RULE = ('random base table, store, options, rank count and schedule; the parallel run is compared with the single-rank run on the '
        'same random stream; non-trivial: at least two ranks took turns and at least one sample was written; distinct by event trace')
REAL, STUB, ASSUMPTIONS = genb.REAL, genb.STUB, genb.ASSUMPTIONS


def gen(r, i, tier):
    sc = genb.scenario(r, tier, max_n=r.choice([3, 6, 9]), max_mts=r.choice([1, 2, 3]))
    sc['nranks'] = r.choice([2, 2, 3, 3, 4, 5, 7])
    sc['sched'] = genb.sched(r, r.choice([60, 200, 600]))
    if r.random() < 0.3:
        names = ['%s%d_%s' % (gen_ace.SYMBOL[sc['ace']['Z']], sc['ace']['A'], k) for k in ('0', '1', '102_samples.csv')]
        sc['pre'] = {n: 'left over from before\n' * r.choice([1, 4000]) for n in names if r.random() < 0.6}
    if r.random() < 0.4:                       # an earlier run of the same job, with other numbers, happened here
        sc['earlier'] = {'rng': r.randrange(10 ** 9), 'nranks': r.choice([1, 2]), 'n': max(1, sc['cli']['n'] + r.choice([0, 0, -1, 2]))}
        if r.random() < 0.3:
            sc['earlier']['dist'] = r.choice(genb.DISTS)
        if r.random() < 0.3:
            sc['earlier']['cut'] = round(r.random(), 3)
        sc.pop('pre', None)
    return sc


def earlier(sc, root, model, ctx):
    """Let an earlier run fill the folder; possibly cut one of its files short.  Returns what lies there."""
    e = sc['earlier']
    cli = dict(sc['cli'], n=e['n'])
    if 'over' in cli:
        cli['over'] = max(cli['over'], e['n'])
    if 'dist' in e:
        cli['dist'] = e['dist']
    w = ctx.add(sampling.run_job(dict(sc, rng=e['rng'], cli=cli), root, e['nranks']), 'earlier run')
    if sampling.failed(w) or w.deadlock:
        ctx.bad('earlier-failed', 'fault-free run failed: %s' % sampling.errors_of(w)[:1])
    left = sampling.read_outputs(root, model)
    if 'cut' in e and left:
        n = sorted(left)[int(e['cut'] * len(left))]
        left[n] = left[n][:int(len(left[n]) * e['cut'])]
        with open(os.path.join(root, n), 'wb') as f:
            f.write(left[n])
    return left


def shrink(sc):
    for v in genb.shrink(sc):
        yield v
    for key in ('cut', 'dist'):
        if key in sc.get('earlier', {}):
            yield dict(sc, earlier={k: x for k, x in sc['earlier'].items() if k != key})


def writers(w):
    """{final path: set of ranks that opened it for writing or renamed onto it}"""
    out = {}
    for e in w.log:
        if len(e) == 4 and e[1] == 'open' and ':' in str(e[2]):
            path, mode = e[2].rsplit(':', 1)
            if mode[0] in 'wax' or '+' in mode:
                out.setdefault(path, set()).add(e[0])
        elif len(e) == 4 and e[1] in ('rename', 'link'):
            out.setdefault(e[2].split('->')[1], set()).add(e[0])
    return out


def run(sc, ctx):
    a, b = ctx.fresh('a'), ctx.fresh('b')
    ref_sc = dict(sc, pre={})
    model = sampling.materialise(ref_sc, a)
    w1 = ctx.add(sampling.run_job(sc, a, 1), 'single rank')
    sampling.materialise(sc, b)
    left = {p: v.encode() for p, v in sc.get('pre', {}).items()}
    if sc.get('earlier'):
        left = earlier(sc, b, model, ctx)
        ctx.probes['earlier_run'] += 1
    w2 = ctx.add(sampling.run_job(sc, b, sc['nranks'], sched=sc['sched']), '%d ranks' % sc['nranks'])
    ref, out = sampling.read_outputs(a, model), sampling.read_outputs(b, model)
    s1, s2 = sampling.failed(w1), sampling.failed(w2)
    if s1:
        ctx.bad('single-rank-failed', 'fault-free single-rank run failed: %s' % sampling.errors_of(w1)[:1])
        return
    if w2.deadlock or w2.fabric.mismatch:
        ctx.bad('deadlock', 'ranks stuck: %s %s' % (w2.deadlock, w2.fabric.mismatch))
        return
    if s2:
        ctx.bad('parallel-failed', 'fault-free run on %d ranks failed: %s' % (sc['nranks'], sampling.errors_of(w2)[:1]))
        return
    for p, v in left.items():
        if p not in ref and out.get(p) == v:
            del out[p]
    if sorted(ref) != sorted(out):
        ctx.bad('file-set', 'files differ: only single %s, only parallel %s' % (
            sorted(set(ref) - set(out))[:4], sorted(set(out) - set(ref))[:4]))
    for n in sorted(set(ref) & set(out)):
        if ref[n] != out[n]:
            ctx.bad('file-bytes', '%s differs from the single-rank run' % n)
            break
    for p, rs in sorted(writers(w2).items()):
        if len(rs) > 1:
            ctx.bad('two-writers', '%s written by ranks %s' % (p, sorted(rs)))
            break
    # count of samples
    mts = sampling.expected_mts(sc, model)
    have = sorted(int(n.rsplit('_', 1)[1]) for n in out if '.' not in n)
    want = None
    if mts:
        try:
            cols = [len(sampling.factors_from_csv(sc, b, model, [m])[m].columns) for m in mts]
        except Exception as e:
            ctx.bad('csv', 'sample list unreadable: %r' % e)
            return
        want = min(cols)
        if max(cols) != want:
            ctx.bad('csv', 'reactions list different numbers of samples: %s' % cols)
        if not neg_possible(sc, mts) and want != sc['cli']['n']:
            ctx.bad('count', '%d samples instead of %d although none can be negative' % (want, sc['cli']['n']))
        if want > sc['cli']['n']:
            ctx.bad('count', '%d samples, %d requested' % (want, sc['cli']['n']))
    else:
        want = 0
    if have != list(range(want)):
        ctx.bad('numbering', 'sample files %s, expected 0..%d' % (have, want - 1))
    switches = sum(1 for x, y in zip(w2.log, w2.log[1:]) if x[0] != y[0])
    ctx.nontrivial = switches > 4 and want > 0
    ctx.probes['more_ranks_than_samples'] += sc['nranks'] > max(want, 1)
    ctx.probes['negatives_removed'] += want < sc['cli']['n']
    ctx.probes['no_sample_left'] += bool(mts) and want == 0
    ctx.probes['nothing_to_sample'] += not mts
    ctx.probes['samples_written'] += want


def neg_possible(sc, mts):
    d = sc['cli'].get('dist') or 'normal'
    if d in ('lognormal', 'loguncorrelated'):
        return False
    lim = {'normal': 5.0, 'uncorrelated': 5.0, 'uniform': 1.7320508}[d]
    for m in mts:
        if sc['store']['mts'][str(m)]['rel'][1] * lim >= 0.999:
            return True
    return False
