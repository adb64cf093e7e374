"""Runs the simulation checks: many seeded scenarios over worker processes, a watchdog, a
minimiser, replay files, known findings, evidence."""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

_monotonic = time.monotonic      # the real clock, kept before any seam is installed


def load_check(pid):
    return importlib.import_module('dst.props.%s' % pid.lower())


class Ctx:
    """What one scenario run reports."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.worlds = 0
        self.steps = 0
        self.sim_s = 0.0
        self.faults = collections.Counter()
        self.inter = []
        self.traces = []
        self.probes = collections.Counter()
        self.violations = []       # (class, text)
        self.logs = []
        self.nontrivial = False

    def fresh(self, name):
        p = os.path.join(self.scratch, name)
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        return p

    def add(self, w, label=''):
        self.worlds += 1
        self.steps += w.steps
        self.sim_s += w.now - 1.0e9
        for act, kind, what in w.fired:
            self.faults['%s@%s' % (act, kind)] += 1
        self.inter.append(w.interleaving())
        self.traces.append(w.trace_hash())
        for k, v in w.probes.items():
            self.probes[k] += v
        self.logs.append((label, w.log))
        return w

    def bad(self, cls, text):
        self.violations.append((cls, text))

    def trace(self):
        return hashlib.sha256(json.dumps([self.traces, self.violations]).encode()).hexdigest()[:16]

    def result(self):
        return {'violations': self.violations, 'worlds': self.worlds, 'steps': self.steps,
                'sim_s': round(self.sim_s, 6), 'faults': dict(self.faults), 'inter': self.inter,
                'trace': self.trace(), 'probes': dict(self.probes), 'nontrivial': self.nontrivial}


def run_scenario(check, sc, scratch):
    ctx = Ctx(scratch)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        check.run(sc, ctx)
    except (AttributeError, TypeError, ValueError, LookupError, ArithmeticError, AssertionError) as e:
        # the simulated run is over and what the code handed back is not what it hands back on the original tree
        last = traceback.extract_tb(e.__traceback__)[-1]
        ctx.bad('unjudgeable', 'results cannot be compared: %s (%s, %s)' % (repr(e)[:200], os.path.basename(last.filename), last.name))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return ctx


# ---------------------------------------------------------------- worker processes
def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def _worker(check, conn, scratch, seed, tier):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _limits()
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        kind, arg = job
        try:
            sc = generate(check, seed, tier, arg) if kind == 'index' else arg
            ctx = run_scenario(check, sc, scratch)
            res = ctx.result()
            res['log'] = ctx.logs if ctx.violations else None
        except BaseException:
            res = {'harness': traceback.format_exc()}
        try:
            conn.send(res)
        except Exception:
            conn.send({'harness': traceback.format_exc()})


def generate(check, seed, tier, i):
    from . import core
    sc = check.gen(core.rng_for('scenario', check.ID, seed, i), i, tier)
    return json.loads(json.dumps(sc))


class Pool:
    def __init__(self, check, n, seed, tier, root):
        self.check, self.n, self.seed, self.tier, self.root = check, n, seed, tier, root
        self.ctx = mp.get_context('fork')
        self.workers = [None] * n
        self.made = 0

    def start(self, k):
        a, b = self.ctx.Pipe()
        self.made += 1
        d = os.path.join(self.root, 'w%d' % k)
        p = self.ctx.Process(target=_worker, args=(self.check, b, d, self.seed, self.tier), daemon=True)
        p.start()
        b.close()
        self.workers[k] = [p, a, None, None]      # process, pipe, job, start time

    def kill(self, k):
        w = self.workers[k]
        if w is not None:
            try:
                os.kill(w[0].pid, signal.SIGKILL)
            except OSError:
                pass
            w[0].join()
            w[1].close()
            self.workers[k] = None
            shutil.rmtree(os.path.join(self.root, 'w%d' % k), ignore_errors=True)

    def submit(self, k, job):
        if self.workers[k] is None or not self.workers[k][0].is_alive():
            self.kill(k)
            self.start(k)
        w = self.workers[k]
        w[2], w[3] = job, _monotonic()
        w[1].send(job)

    def poll(self, timeout):
        """Yields (worker, job, result or None) of finished or dead or overdue workers."""
        from multiprocessing.connection import wait
        busy = {self.workers[k][1]: k for k in range(self.n)
                if self.workers[k] is not None and self.workers[k][2] is not None}
        if not busy:
            return
        for c in wait(list(busy), timeout=0.5):
            k = busy[c]
            job = self.workers[k][2]
            try:
                res = c.recv()
            except (EOFError, ConnectionError):
                self.kill(k)
                yield k, job, {'died': True}
                continue
            self.workers[k][2] = None
            yield k, job, res
        for k in busy.values():
            w = self.workers[k]
            if w is not None and w[2] is not None and _monotonic() - w[3] > timeout:
                job = w[2]
                self.kill(k)
                yield k, job, {'hang': True}

    def one(self, job, timeout):
        """Run one job alone on worker 0 and wait for it."""
        self.submit(0, job)
        while True:
            for k, j, res in self.poll(timeout):
                return res

    def close(self):
        for k in range(self.n):
            self.kill(k)


def normal(res, timeout):
    """Turn watchdog outcomes into violations."""
    if res.get('hang'):
        return dict(violations=[('hang', 'no end within %d s of processor time for one simulated run' % timeout)],
                    trace='hang', worlds=1, steps=0, sim_s=0, faults={}, inter=[], probes={}, nontrivial=True)
    if res.get('died'):
        return dict(violations=[('crash', 'the interpreter died (or ran out of memory)')],
                    trace='crash', worlds=1, steps=0, sim_s=0, faults={}, inter=[], probes={}, nontrivial=True)
    return res


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                out.append((key.split('=', 1)[1], what))
    return out


# ---------------------------------------------------------------- main check
def classes(res):
    return sorted({c for c, _ in res['violations']})


def minimise(check, sc, res, pool, budget_s, timeout):
    want = classes(res)[0]
    t0 = _monotonic()
    best, best_res, tried = sc, res, 0
    if not hasattr(check, 'shrink'):
        return best, best_res, tried
    seen = {json.dumps(sc, sort_keys=True)}
    progress = True
    while progress and _monotonic() - t0 < budget_s:
        progress = False
        for cand in check.shrink(json.loads(json.dumps(best))):
            if _monotonic() - t0 > budget_s:
                break
            cand = json.loads(json.dumps(cand))
            key = json.dumps(cand, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            r = pool.one(('scenario', cand), timeout)
            if 'harness' in r:
                continue
            r = normal(r, timeout)
            if want in classes(r):
                best, best_res, progress = cand, r, True
                break
    return best, best_res, tried


def write_replay(check, seed, index, sc, res, extra=None):
    os.makedirs(REPLAYS, exist_ok=True)
    body = {'property': check.ID, 'seed': seed, 'index': index, 'scenario': sc,
            'expect': {'classes': classes(res), 'trace': res['trace']},
            'violation': res['violations'][:5]}
    body.update(extra or {})
    h = hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, '%s-%s.json' % (check.ID, h))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    return path


def scratch_root():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
    import tempfile
    return tempfile.mkdtemp(prefix='verif-dst-', dir=base)


def prepare(check):
    # everything heavy is imported before any simulated process exists, so that no import
    # happens inside (and only inside the first) simulated run
    import matplotlib.pyplot, matplotlib.ticker, matplotlib.gridspec    # noqa
    import numpy, pandas, scipy.linalg, scipy.stats, scipy.interpolate, scipy.special, scipy.integrate   # noqa
    import h5py, tables, SALib.sample.latin               # noqa
    from . import core, seams
    core.install_finder()
    seams.install()
    if hasattr(check, 'setup'):
        check.setup()
    import gc
    gc.collect()
    gc.freeze()             # collections during runs look at the objects of the runs only


def main_check(pid, tier):
    t0 = _monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    check = load_check(pid)
    root = scratch_root()
    check.scratch_root = root
    rc = 3
    try:
        prepare(check)
        rc = _main_check(check, pid, tier, seed, root, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return rc


def _main_check(check, pid, tier, seed, root, t0):
    nworkers = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    budget = int(os.environ.get('VERIF_RUNS', '0')) or check.BUDGET[tier]
    wall = {'quick': 240.0, 'thorough': 1500.0}[tier]
    wall = float(os.environ.get('VERIF_WALL', wall))
    timeout = getattr(check, 'TIMEOUT', 60)
    print('%s %s seed=%d budget=%d scenarios, %d workers, tree %s' % (
        pid, tier, seed, budget, nworkers, os.environ.get('VERIF_REPO', '/repo')), flush=True)
    pool = Pool(check, nworkers, seed, tier, root)
    known = dict(known_findings(pid))
    known_hit = {}
    agg = dict(evaluations=0, worlds=0, steps=0, sim_s=0.0)
    faults, probes = collections.Counter(), collections.Counter()
    inter, nontrivial = set(), set()
    traces = {}
    first_bad = None
    nxt = 0
    again = []
    retried = set()
    recheck = {}
    recheck_done = 0
    nondet = []
    harness_fail = None
    idle = set(range(nworkers))
    stop = False

    def assign():
        nonlocal nxt
        for k in sorted(idle):
            if again:
                j = again.pop(0)
            elif not stop and nxt < budget and _monotonic() - t0 < wall:
                j = ('index', nxt)
                nxt += 1
            else:
                return
            idle.discard(k)
            pool.submit(k, j)

    assign()
    while len(idle) < nworkers:
        for k, job, res in pool.poll(timeout):
            idle.add(k)
            i = job[1]
            if ('harness' in res or 'hang' in res or 'died' in res) and i not in retried:
                retried.add(i)
                again.append(job)
                continue
            if 'harness' in res:
                harness_fail = (i, res['harness'])
                stop = True
                continue
            res = normal(res, timeout)
            if i in recheck and i in traces:
                recheck_done += 1
                if traces[i] != res['trace']:
                    nondet.append(i)
                continue
            agg['evaluations'] += 1
            agg['worlds'] += res['worlds']
            agg['steps'] += res['steps']
            agg['sim_s'] += res['sim_s']
            faults.update(res['faults'])
            probes.update(res['probes'])
            inter.update(res['inter'])
            traces[i] = res['trace']
            if res['nontrivial']:
                nontrivial.add(res['trace'])
            unknown = []
            for c, t in res['violations']:
                if c in known:
                    known_hit[c] = t
                else:
                    unknown.append((c, t))
            if unknown:
                res = dict(res, violations=unknown)
                if first_bad is None or i < first_bad[0]:
                    first_bad = (i, res)
                stop = True
            elif i % 97 == 5 and i not in recheck:
                recheck[i] = True
                again.append(job)
        assign()
    explore_s = _monotonic() - t0

    violations = 0
    out_lines = []
    replay = None
    if first_bad is not None:
        violations = 1
        i, res = first_bad
        sc = generate(check, seed, tier, i)
        best, bres, tried = minimise(check, sc, res, pool, 60 if tier == 'quick' else 300, timeout)
        bres = dict(bres, violations=[v for v in bres['violations'] if v[0] not in known] or bres['violations'])
        replay = write_replay(check, seed, i, best, bres,
                              {'minimise_runs': tried, 'original_scenario': sc, 'log': bres.get('log')})
        ok = subprocess.run([sys.executable, '-m', 'dst.driver', 'replay', replay], cwd=VERIF,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        repro = ok.returncode == 1
        print('replay in a fresh process: %s' % ('reproduced exactly' if repro else 'NOT reproduced: ' + ok.stdout.decode()[-500:]))
        for c, t in bres['violations'][:5]:
            print('  [%s] %s' % (c, t))
        out_lines.append('VIOLATION property=%s replay=%s' % (pid, replay))
    pool.close()
    for key, what in sorted(known.items()):
        if key in known_hit:
            out_lines.append('KNOWN-FINDING: property=%s %s' % (pid, what))
    if nondet:
        print('warning: scenarios %s did not repeat exactly' % nondet[:5])

    samples = []
    for i in sorted(traces)[:3]:
        samples.append({'index': i, 'trace': traces[i], 'scenario': generate(check, seed, tier, i)})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': agg['evaluations'],
            'distinct_nontrivial': len(nontrivial),
            'rule': check.RULE,
            'samples': samples,
            'simulated_runs': agg['worlds'],
            'simulated_runs_per_hour': int(agg['worlds'] / max(explore_s, 1e-9) * 3600),
            'seeds_per_hour': int(agg['evaluations'] / max(explore_s, 1e-9) * 3600),
            'simulated_steps': agg['steps'],
            'simulated_seconds': round(agg['sim_s'], 3),
            'faults_injected': dict(sorted(faults.items())),
            'distinct_interleavings': len(inter),
            'interleaving_measure': 'distinct sequences of (rank, operation kind) over a whole simulated run',
            'probes': dict(sorted(probes.items())),
            'real_components': check.REAL, 'stub_components': check.STUB,
            'determinism_rechecks': {'scenarios_run_twice': recheck_done, 'different': len(nondet)},
            'known_findings_hit': sorted(known_hit),
        },
        'assumptions': check.ASSUMPTIONS,
        'wall_s': round(_monotonic() - t0, 2),
        'violations': violations,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d scenarios (%d non-trivial, distinct), %d simulated runs, %d steps, %d faults, '
          '%d interleavings, %.1f s' % (pid, agg['evaluations'], len(nontrivial), agg['worlds'], agg['steps'],
                                        sum(faults.values()), len(inter), _monotonic() - t0))
    print('faults: %s' % dict(sorted(faults.items())))
    print('probes: %s' % dict(sorted(probes.items())))
    for l in out_lines:
        print(l)
    sys.stdout.flush()
    if first_bad is not None:
        return 1
    if harness_fail is not None:
        print('HARNESS ERROR at scenario %d:\n%s' % harness_fail)
        return 2
    return 0


def main_replay(path):
    body = json.load(open(path))
    check = load_check(body['property'])
    root = scratch_root()
    check.scratch_root = root
    try:
        prepare(check)
        pool = Pool(check, 1, body.get('seed', 1), 'quick', root)
        timeout = getattr(check, 'TIMEOUT', 60)
        res = pool.one(('scenario', body['scenario']), timeout)
        pool.close()
        if 'harness' in res:
            print(res['harness'])
            return 2
        res = normal(res, timeout)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for label, log in res.get('log') or []:
        print('--- simulated run %s' % label)
        for e in log[-40:]:
            print('   ', *e)
    for c, t in res['violations']:
        print('[%s] %s' % (c, t))
    want = body['expect']['classes'][0]
    exact = res['trace'] == body['expect']['trace']
    if want in classes(res):
        print('reproduced%s' % (' exactly (trace %s)' % res['trace'] if exact else ' (trace differs: %s)' % res['trace']))
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        return 1
    print('not reproduced: no violation of class %s' % want)
    return 0


def main_scenario(pid, tier, i):
    """Debug: run one scenario in this process."""
    check = load_check(pid)
    root = scratch_root()
    check.scratch_root = root
    try:
        prepare(check)
        sc = generate(check, int(os.environ.get('VERIF_SEED', '1') or 1), tier, i)
        print(json.dumps(sc, indent=1))
        t = _monotonic()
        ctx = run_scenario(check, sc, os.path.join(root, 'w0'))
        print(json.dumps({k: v for k, v in ctx.result().items()}, indent=1)[:3000])
        print('%.2f s' % (_monotonic() - t))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return 0


def main_digest(pid, tier, lo, hi):
    """Print the trace of scenarios lo..hi-1 (used to compare determinism across processes)."""
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    check = load_check(pid)
    root = scratch_root()
    check.scratch_root = root
    try:
        prepare(check)
        n = int(os.environ.get('VERIF_WORKERS', '8'))
        pool = Pool(check, n, seed, tier, root)
        out, todo, idle = {}, list(range(lo, hi)), set(range(n))
        while todo or len(idle) < n:
            for k in sorted(idle):
                if todo:
                    idle.discard(k)
                    pool.submit(k, ('index', todo.pop(0)))
            for k, job, res in pool.poll(120):
                idle.add(k)
                out[job[1]] = res.get('trace', 'none')
        pool.close()
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for i in sorted(out):
        print(pid, i, out[i])
    return 0


def main(argv):
    if argv[0] == 'replay':
        return main_replay(argv[1])
    if argv[0] == 'one':
        return main_scenario(argv[1], argv[2], int(argv[3]))
    if argv[0] == 'digest':
        return main_digest(argv[1], argv[2], int(argv[3]), int(argv[4]))
    return main_check(argv[0], argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick'))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
