"""C09: I/O failures during sampling are never silent and never damage inputs."""
from .. import genb, sampling
from ..oracleb import describe, faults_for, resolve

ID = 'C09'
BUDGET = {'quick': 420, 'thorough': 9000}
RULE = ('random job; an undisturbed run, then the same run with 1-3 file faults (error, full disk, quota, descriptors, permission, '
        'partial read, partial write) at random operations of random ranks; non-trivial: a fault fired; distinct by event trace')
REAL, STUB, ASSUMPTIONS = genb.REAL, genb.STUB, genb.ASSUMPTIONS
shrink = genb.shrink


def gen(r, i, tier):
    sc = genb.scenario(r, tier, max_n=r.choice([2, 4, 6]), max_mts=r.choice([1, 2, 3]))
    sc['nranks'] = r.choice([1, 1, 2, 3, 4])
    sc['sched'] = genb.sched(r, r.choice([60, 200, 600]))
    if r.random() < 0.3:
        acts, k = ['short'], r.choice([1, 2, 4, 8])
    else:
        acts, k = ['EIO', 'ENOSPC', 'EDQUOT', 'EMFILE', 'EACCES', 'ENOMEM', 'short'], r.choice([1, 1, 1, 2, 3])
    sc['faults'] = faults_for(r, sc['nranks'], k, acts, ops=('any', 'write', 'write', 'write', 'read', 'open', 'close', 'close', 'hdf_get', 'hdf_open'))
    sc['abort_delay'] = r.choice([0, 3, 30, 300])
    return sc


def excused(w):
    """Paths a failed or aborted rank had open for writing when it was hit or ended."""
    ended = {t.rank: t.status for t in w.tasks}
    bad = {r for r, s in ended.items() if s != 'ok'}
    opened = {}
    out = set()
    for e in w.log:
        if e[0] == 'fault':
            if e[1] in bad:
                out |= {p for p, n in opened.get(e[1], {}).items() if n > 0}
                if e[3] in ('write', 'close', 'rename', 'truncate'):
                    out.add(str(e[4]).split('->')[-1])
            continue
        if e[0] == 'end':
            if e[1] in bad:
                out |= {p for p, n in opened.get(e[1], {}).items() if n > 0}
            continue
        if len(e) != 4 or not isinstance(e[0], int):
            continue
        rank, kind, what, _ = e
        if kind == 'open' and ':' in str(what):
            p, mode = what.rsplit(':', 1)
            if mode[0] in 'wax' or '+' in mode:
                opened.setdefault(rank, {})
                opened[rank][p] = opened[rank].get(p, 0) + 1
        elif kind == 'close' and what in opened.get(rank, {}):
            opened[rank][what] -= 1
    return out


def run(sc, ctx):
    a, b = ctx.fresh('a'), ctx.fresh('b')
    model = sampling.materialise(sc, a)
    w0 = ctx.add(sampling.run_job(sc, a, sc['nranks'], sched=sc['sched']), 'undisturbed')
    if sampling.failed(w0) or w0.deadlock:
        ctx.bad('run-failed', 'undisturbed run failed: %s %s' % (sampling.job_status(w0), sampling.errors_of(w0)[:1]))
        return
    ref = sampling.read_outputs(a, model)
    sampling.materialise(sc, b)
    before = sampling.input_digest(b)
    f = resolve(sc['faults'], w0)
    d = describe(f)
    w = ctx.add(sampling.run_job(sc, b, sc['nranks'], sched=sc['sched'], faults=f, abort_delay=sc.get('abort_delay', 0)), 'with ' + d)
    out = sampling.read_outputs(b, model)
    ctx.nontrivial = bool(w.fired)
    if sampling.input_digest(b) != before:
        ctx.bad('input', 'with %s: base table or store modified' % d)
    if w.deadlock:
        ctx.bad('deadlock', 'with %s: ranks stuck although none failed: %s' % (d, w.deadlock))
        return
    if any(t.status == 'steplimit' for t in w.tasks):
        ctx.bad('no-end', 'with %s: run does not end' % d)
        return
    harmless = all(x[0] == 'short' for x in w.fired)
    if not sampling.failed(w):
        ctx.probes['success_despite_fault'] += bool(w.fired) and not harmless
        if out != ref:
            n = sorted(x for x in set(ref) | set(out) if ref.get(x) != out.get(x))
            ctx.bad('silent', 'with %s: run reported success but %s differ from the undisturbed run' % (d, n[:4]))
        return
    ctx.probes['failed_as_reported'] += 1
    if harmless:
        ctx.bad('short', 'with %s: partial reads and writes made the run fail: %s' % (d, sampling.errors_of(w)[:1]))
        return
    ok = excused(w)
    tables = sampling.prefix(model) + '_'
    for n in sorted(out):
        if n in ok or out[n] == ref.get(n):
            continue
        if n in ref or n.startswith(tables):
            ctx.bad('left-behind', 'with %s: %s (%d bytes) is not the undisturbed result (%s) and was not being written by a failed rank' % (
                d, n, len(out[n]), '%d bytes' % len(ref[n]) if n in ref else 'absent'))
            break
    ctx.probes['finished_files_after_failure'] += sum(1 for n in out if out[n] == ref.get(n))
