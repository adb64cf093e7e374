"""C07: a sampled table is the base table times the group factors, with consistent sums."""
from .. import genb, sampling
from ..oracleb import check_run

ID = 'C07'
BUDGET = {'quick': 900, 'thorough': 12000}
RULE = ('random base tables (reactions with thresholds, absent and redundant sums, fission data), group structures, reactions in any order, '
        'ranks and schedules; every value of every written table is compared with a reference model; non-trivial: at least one table written; '
        'distinct by event trace')
REAL, STUB, ASSUMPTIONS = genb.REAL, genb.STUB, genb.ASSUMPTIONS
shrink = genb.shrink

AMBIGUOUS = {'ace': {'seed': 7, 'Z': 26, 'A': 56, 'n': 8, 'mts': [4, 51, 102], 'bounds': [1e-5, 1.0, 2e7], 'zeros': False},
             'store': {'mts': {'4': {'bounds': [1e-5, 1.0, 2e7], 'seed': 3, 'corr': 'identity', 'rel': [.05, .15]}}, 'others': []},
             'cli': {'n': 1, 'dist': 'lognormal', 'mts': [4]}, 'rng': 11, 'nranks': 1, 'sched': [], 'ambiguous': 1}

# the reader takes the negative value (below the group structure) for zero
NEGATIVE = {'ace': {'seed': 9, 'Z': 26, 'A': 56, 'n': 8, 'mts': [16, 102], 'bounds': [1e-5, 1.0, 2e7], 'zeros': False, 'neg': 102},
            'store': {'mts': {'102': {'bounds': [1e-1, 1.0, 2e7], 'seed': 4, 'corr': 'identity', 'rel': [.05, .15]}}, 'others': []},
            'cli': {'n': 1, 'dist': 'lognormal', 'mts': [102]}, 'rng': 12, 'nranks': 1, 'sched': [], 'negative': 1}

MEMBERS = sorted(set(range(51, 92)) | set(range(600, 850)) | set(range(875, 892)) | {m for m in genb.RARE} | {5, 11, 16, 17, 19, 20, 21, 38, 102, 103, 104})
CHUNK = 14


def member_scenario(r, chosen, keep_sums):
    """A table with the given members of sums and some of the sums; exactly the members are sampled."""
    fis = bool({18, 19, 20, 21, 38, 452, 1018} & set(chosen)) or r.random() < 0.2
    z = (92, 235) if fis else r.choice([x for x in genb.NUCLIDES if x not in genb.FISSILE])
    mts = (set(chosen) - {452, 1018}) | {102} | ({18} if fis else set())
    if chosen == [18]:                         # all fission is first chance fission: the same values twice
        mts.add(19)
    for lo, hi in ((50, 92), (875, 892), (600, 650), (650, 700), (700, 750), (750, 800), (800, 850)):
        have = [m for m in mts if lo <= m < hi]
        if len(have) == 1:
            mts.add(have[0] + 1 if have[0] + 1 < hi else have[0] - 1)
    for s in (3, 27, 4, 16, 103, 104, 105, 106, 107):
        if r.random() < keep_sums:
            mts.add(s)
    b = genb.bounds(r, r.choice([1, 2, 2, 3, 3]))
    ace = {'seed': r.randrange(10 ** 6), 'Z': z[0], 'A': z[1], 'n': 8, 'mts': sorted(mts), 'bounds': b, 'zeros': False}
    if fis:
        ace['chi_nin'] = 1
        if chosen == [1018]:
            ace['chi_nin'], ace['chi_same'] = 5, r.choice([1, 2, 3])
    if r.random() < 0.3:
        ace['photons'] = 2
    if r.random() < 0.3:
        ace['loose'] = 1.25
    store = {'mts': {str(m): genb.spec(r, b, m, True) for m in chosen}, 'others': []}
    return {'ace': ace, 'store': store, 'cli': {'n': 1, 'dist': 'lognormal', 'mts': r.sample(chosen, len(chosen))}, 'rng': r.randrange(10 ** 9),
            'nranks': 1, 'sched': []}


def gen(r, i, tier):
    if i == 0:
        return AMBIGUOUS
    if i == 1:
        return NEGATIVE
    i -= 1
    n_cov = -(-len(MEMBERS) // CHUNK)
    if i <= n_cov:                             # every member of every sum once, in any order
        return member_scenario(r, MEMBERS[(i - 1) * CHUNK:i * CHUNK], 0.4)
    if i <= n_cov + 90 or r.random() < 0.1:    # one or two members alone
        kind = r.choice([range(51, 92), range(875, 892), range(600, 650), range(650, 700), range(700, 750), range(750, 800), range(800, 850),
                         [19, 20, 21, 38], [19, 20, 21, 38], [18, 102], [18], [1018], [16, 17, 22, 28], genb.RARE, range(102, 118)])
        kind = [m for m in kind if m in MEMBERS or m in (18, 1018)]
        if kind in ([18], [1018]):
            return member_scenario(r, kind, 0.5)
        return member_scenario(r, r.sample(kind, r.choice([1, 1, 1, 2])), 0.5)
    sc = genb.scenario(r, tier, max_n=r.choice([1, 2, 3]), max_mts=r.choice([1, 2, 3, 5, 8]))
    if r.random() < 0.4:
        sc['cli']['dist'] = 'lognormal'
    sc['nranks'] = r.choice([1, 1, 2, 3])
    sc['sched'] = genb.sched(r, 100)
    return sc


def run(sc, ctx):
    a = ctx.fresh('a')
    model = sampling.materialise(sc, a)
    before = sampling.input_digest(a)
    w = ctx.add(sampling.run_job(sc, a, sc['nranks'], sched=sc['sched']))
    if sampling.failed(w) or w.deadlock:
        ctx.bad('run-failed', 'undisturbed run failed: %s %s' % (sampling.job_status(w), sampling.errors_of(w)[:1]))
        return
    mts = sampling.expected_mts(sc, model)
    out = sampling.read_outputs(a, model)
    if not mts:
        return
    for cls, text in check_run(sc, a, model, mts, out):
        if sc.get('ambiguous') and cls == 'table' and 'MT 51' in text:
            cls = 'identical-arrays'
        if sc.get('negative') and cls == 'table' and 'MT 102' in text:
            cls = 'negative-values'
        ctx.bad(cls, text)
    if sampling.input_digest(a) != before:
        ctx.bad('input', 'base table or store modified')
    n = sum(1 for x in out if '.' not in x)
    ctx.nontrivial = n > 0
    ctx.probes['tables'] += n
    for m in mts:
        ctx.probes['sampled_%s' % ('sum' if m in (1, 4, 16, 18, 101, 103, 104, 107) else 'nu' if m == 452 else 'chi' if m == 1018 else 'partial')] += 1
    ctx.probes['virtual_sum_sampled'] += any(m in model['virtual'] for m in mts)
    ctx.probes['absent_sum_in_chain'] += 4 not in model['arrays'] and any(51 <= m <= 91 for m in mts)
    ctx.probes['zero_base_values'] += any(0.0 in model['arrays'][m][2] for m in mts if m in model['arrays'])
