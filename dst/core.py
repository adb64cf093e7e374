"""Core of the deterministic simulator.

A *scenario* is an explicit JSON value (workload + schedule decisions + faults).
Executing a scenario is a pure function of (scenario, code under /repo): every
choice of which task runs next, which fault fires and what random numbers are
drawn is taken from the scenario.  Tasks are real threads parked and released
one at a time (a baton), so who runs next is decided here and nowhere else.
"""
import gc
import hashlib
import io
import json
import os
import random
import sys
import threading
import types

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
_os_open, _os_read, _os_write, _os_close = os.open, os.read, os.write, os.close      # not simulated


class SimKill(BaseException):
    """The simulated process was killed (no further effects are possible)."""


class StepLimit(BaseException):
    """A task used more simulated steps than any terminating run could."""


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


def derive(*parts):
    """Deterministic 63-bit integer from the parts (independent of PYTHONHASHSEED)."""
    h = hashlib.sha256('\x1f'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big') >> 1


def rng_for(*parts):
    return random.Random(derive(*parts))


# --------------------------------------------------------------------------
# module isolation: every simulated process imports its own copy of ASAPy
# --------------------------------------------------------------------------
_ISOLATED_PREFIXES = ('ASAPy', 'mpi4py', 'coupleorigen')


def _isolated(name):
    return name == '__main__' or name.split('.', 1)[0] in _ISOLATED_PREFIXES


_code_cache = {}


def compiled(path):
    """Compile a source file of the tree under test, once per harness process."""
    if path not in _code_cache:
        with _real_open(path, 'rb') as f:
            _code_cache[path] = compile(f.read(), path, 'exec', dont_inherit=True)
    return _code_cache[path]


_real_open = open


class _RepoLoader:
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.path
        exec(compiled(self.path), module.__dict__)


class _RepoFinder:
    """Serves `ASAPy` and its submodules from REPO's working tree, compiled once."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        import importlib.machinery as m
        if name.split('.', 1)[0] != 'ASAPy':
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            spec = m.ModuleSpec(name, _RepoLoader(p, True), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + '.py'):
            return m.ModuleSpec(name, _RepoLoader(base + '.py', False), origin=base + '.py')
        return None


def install_finder():
    if not any(f is _RepoFinder for f in sys.meta_path):
        sys.meta_path.insert(0, _RepoFinder)


class ProcessState:
    """The interpreter-global state one simulated process owns."""

    def __init__(self, argv, np_seed, stubs):
        self.modules = {'__main__': types.ModuleType('__main__')}
        self.modules.update(stubs)
        self.argv = list(argv)
        self.out = io.StringIO()
        self.entropy_key, self.entropy_n = np_seed, 0
        rs = np.random.RandomState(np_seed % (2 ** 32))
        self.np_state = rs.get_state()
        self.py_state = random.Random(np_seed).getstate()

    def entropy(self):
        """Next value of this process's operating-system entropy."""
        self.entropy_n += 1
        return derive('entropy', self.entropy_key, self.entropy_n)

    def load(self):
        for k in [k for k in sys.modules if _isolated(k)]:
            del sys.modules[k]
        sys.modules.update(self.modules)
        sys.argv = self.argv
        sys.stdout = self.out
        sys.stderr = self.out
        np.random.set_state(self.np_state)
        random.setstate(self.py_state)

    def save(self):
        self.modules = {k: v for k, v in sys.modules.items() if _isolated(k)}
        self.argv = sys.argv
        self.np_state = np.random.get_state()
        self.py_state = random.getstate()


class _HarnessState:
    def __init__(self):
        self.modules = {k: v for k, v in sys.modules.items() if _isolated(k)}
        self.argv, self.stdout, self.stderr = sys.argv, sys.stdout, sys.stderr
        self.np_state, self.py_state = np.random.get_state(), random.getstate()

    def restore(self):
        for k in [k for k in sys.modules if _isolated(k)]:
            del sys.modules[k]
        sys.modules.update(self.modules)
        sys.argv, sys.stdout, sys.stderr = self.argv, self.stdout, self.stderr
        np.random.set_state(self.np_state)
        random.setstate(self.py_state)


# --------------------------------------------------------------------------
# tasks and the world
# --------------------------------------------------------------------------
LEGAL = {'read': ('EIO', 'short', 'kill'), 'write': ('ENOSPC', 'EDQUOT', 'EIO', 'short', 'kill'),
         'open': ('EMFILE', 'EACCES', 'EIO', 'ENOMEM', 'kill'), 'close': ('EIO', 'ENOSPC', 'EDQUOT', 'kill'),
         'hdf_get': ('EIO', 'ENOMEM', 'kill'), 'hdf_open': ('EMFILE', 'EACCES', 'EIO', 'kill'),
         'hdf_close': ('EIO', 'ENOSPC', 'kill'),
         'hdf_put': ('ENOSPC', 'EIO', 'EDQUOT', 'kill'), 'hdf_remove': ('EIO', 'ENOSPC', 'kill'),
         'unlink': ('EACCES', 'EIO', 'kill'), 'mkdir': ('ENOSPC', 'EACCES', 'EIO', 'kill'),
         'rename': ('ENOSPC', 'EACCES', 'EIO', 'kill'), 'link': ('ENOSPC', 'EACCES', 'EIO', 'kill'),
         'truncate': ('EIO', 'ENOSPC', 'kill'), 'mpi': ('kill',), 'spawn': ('ENOMEM', 'EMFILE', 'EACCES', 'kill')}


def legal(act, kind):
    """The nearest fault an operation of this kind can really meet."""
    ok = LEGAL.get(kind, (act,))
    if act in ok:
        return act
    return ok[0] if act not in ('EIO',) or 'EIO' not in ok else 'EIO'


class Task:
    NEW, READY, BLOCKED, DONE = range(4)

    def __init__(self, world, rank, fn, proc):
        self.world, self.rank, self.fn, self.proc = world, rank, fn, proc
        self.sem = threading.Semaphore(0)
        self.state = Task.READY
        self.light = False           # a stand-in program: holds nothing worth flushing
        self.dead = False            # killed: no further effects
        self.status = None           # 'ok' | 'exit:<n>' | 'error' | 'killed' | 'steplimit'
        self.error = None            # exception of the code under test
        self.cond = None
        self.opcount = {}
        self.total_ops = 0
        self.result = None
        self.thread = threading.Thread(target=self._run, daemon=True)

    def _run(self):
        self.sem.acquire()
        try:
            try:
                if self.dead:
                    raise SimKill()
                self.result = self.fn()
                self.status = 'killed' if self.dead else 'ok'
            except SystemExit as e:
                code = e.code
                code = 0 if code is None else (code if isinstance(code, int) else 1)
                self.status = 'ok' if code == 0 else 'exit:%d' % code
            except SimKill:
                self.status = 'killed'
            except StepLimit:
                self.status = 'steplimit'
            except BaseException as e:   # noqa: the code under test failed
                if self.dead:
                    # killed process: the kill was re-raised as something else on the way out
                    self.status = 'killed'
                else:
                    self.status = 'error'
                    self.error = e
                    import traceback
                    self.tb = traceback.format_exc()
            # drop what the simulated process still holds, while it is current, so that
            # buffered files left open are flushed the way interpreter exit would
            if self.status != 'killed' and not self.light:
                main = sys.modules.get('__main__')
                if main is not None and isinstance(main, types.ModuleType):
                    main.__dict__.clear()
                if self.error is not None:
                    _clear_tb(self.error)
                gc.collect()
        finally:
            self.state = Task.DONE
            self.world._task_finished(self)


def _clear_tb(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        e = e.__cause__ or e.__context__


class World:
    """One simulated execution: tasks, their schedule, their faults, their event log."""

    current = None       # the world whose tasks are running (one per harness process)

    def __init__(self, root, sched=(), faults=(), step_limit=20000, abort_delay=0):
        self.root = os.path.realpath(root)
        self.sched = list(sched)
        self.sched_pos = 0
        self.sched_choices = []          # (position, number of runnable tasks, choice)
        self.faults = [dict(f) for f in faults]
        self.fired = []
        self.step_limit = step_limit
        self.abort_delay = abort_delay
        self.abort_countdown = None
        self.tasks = []
        self.active = None
        self.steps = 0
        self.log = []
        self.now = 1.0e9                 # simulated clock (seconds)
        self.deadlock = None
        self.done = threading.Event()
        self.finished = False
        self.probes = {}
        self.kill_others_on_failure = True
        self.readonly = set()            # inputs (relative names) nobody has the right to write to
        self.mounts = {}                 # files elsewhere that take part in the simulation: path -> name
        self.fds = {}                    # files opened with os.open: fd -> (path, relative name, task, for writing)
        self.hdf_writers = []            # (task, path) of HDF5 files open for writing
        self.hdf_at_kill = {}            # their contents on disk when the task was killed

    # -- construction -----------------------------------------------------
    def spawn(self, rank, fn, proc):
        t = Task(self, rank, fn, proc)
        self.tasks.append(t)
        return t

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- running ------------------------------------------------------------
    def run(self, wall_limit=None):
        if World.current is not None:
            raise HarnessError('nested worlds')
        harness = _HarnessState()
        World.current = self
        try:
            for t in self.tasks:
                t.thread.start()
            first = self._pick()
            self._enter(first)
            self.done.wait()
        finally:
            self.finished = True
            World.current = None
            harness.restore()
        for t in self.tasks:
            t.thread.join()
        return self

    def _enter(self, t):
        self.active = t
        t.proc.load()
        t.sem.release()

    def _runnable(self):
        r = []
        for t in self.tasks:
            if t.state == Task.DONE:
                continue
            if t.dead or t.cond is None or t.cond():
                r.append(t)
        return r

    def _choose(self, n):
        if n <= 1:
            return 0
        if self.sched_pos < len(self.sched):
            c = self.sched[self.sched_pos] % n
            self.sched_pos += 1
        else:
            c = 0
        self.sched_choices.append(c)
        return c

    def _pick(self, prefer=None):
        """Choose the next task.  Decision 0 = keep the current one (or the lowest rank)."""
        r = self._runnable()
        if not r:
            live = [t for t in self.tasks if t.state != Task.DONE]
            if not live:
                return None
            if self.abort_countdown is not None and self.abort_countdown > 0:
                # a rank failed and everyone else waits: the launcher's delay passes
                self.abort_countdown = 0
                self._maybe_abort()
                return self._pick(prefer)
            # nobody can run: real processes would wait for ever
            self.deadlock = sorted((t.rank, getattr(t, 'waiting', '?')) for t in live)
            self.log.append(('deadlock', self.deadlock))
            for t in live:
                t.dead = True
            return live[0]
        if prefer in r:
            r.remove(prefer)
            r.insert(0, prefer)
        return r[self._choose(len(r))]

    def _switch_from(self, t):
        nxt = self._pick(prefer=t if t.state != Task.DONE else None)
        if nxt is t:
            return
        if nxt is None:
            self.done.set()
            return
        t.proc.save()
        self._enter(nxt)
        if t.state != Task.DONE:
            t.sem.acquire()

    def _task_finished(self, t):
        self.log.append(('end', t.rank, t.status, type(t.error).__name__ if t.error else None))
        if t.status not in ('ok',) and self.kill_others_on_failure:
            # the launcher (mpiexec) takes the job down, after an arbitrary delay
            if self.abort_countdown is None:
                self.abort_countdown = self.abort_delay
            self._maybe_abort()
        self._switch_from(t)

    def _maybe_abort(self):
        if self.abort_countdown is not None and self.abort_countdown <= 0:
            for o in self.tasks:
                if o.state != Task.DONE:
                    o.dead = True

    # -- called by seams, in the active task's thread -----------------------
    def me(self):
        t = self.active
        if t is not None and threading.current_thread() is t.thread:
            return t
        return None

    def rel(self, path):
        p = os.path.abspath(path)
        if p == self.root:
            return '.'
        if p.startswith(self.root + os.sep):
            return p[len(self.root) + 1:]
        return self.mounts.get(p)

    def op(self, kind, what='', size=None):
        """One simulated effect: yield, then decide which fault (if any) hits it.

        Returns None (proceed) or the fault dictionary the seam has to apply.
        """
        t = self.me()
        if t is None:
            return None
        if t.dead:
            raise SimKill()
        self.steps += 1
        self.now += 0.001
        if self.abort_countdown is not None:
            self.abort_countdown -= 1
            self._maybe_abort()
            if t.dead:
                raise SimKill()
        if self.steps > self.step_limit:
            for o in self.tasks:
                o.dead = True
            raise StepLimit()
        self._switch_from(t)
        if t.dead:
            raise SimKill()
        n = t.opcount.get(kind, 0)
        t.opcount[kind] = n + 1
        na = t.total_ops
        t.total_ops += 1
        self.log.append((t.rank, kind, what, size))
        for f in self.faults:
            if f.get('_used') or f.get('rank', t.rank) != t.rank or (kind in ('edit', 'poll', 'wait', 'sleep', 'signal') and f['act'] != 'kill') \
                    or (kind == 'pipe' and f['act'] not in ('kill', 'short')):
                continue
            idx = na if f['op'] == 'any' else (n if f['op'] == kind else None)
            if idx is None or idx != f['n']:
                continue
            if f['act'] in ('short',) and kind not in ('write', 'read', 'pipe'):
                continue
            f['_used'] = True
            f['act'] = legal(f['act'], kind)
            self.fired.append((f['act'], kind, what))
            self.log.append(('fault', t.rank, f['act'], kind, what))
            if f['act'] == 'kill':
                for o, path in self.hdf_writers:
                    if (o is t or f.get('all')) and not o.dead:
                        # whatever HDF5 has not handed to the system yet dies with the process
                        self.hdf_at_kill[path] = self.disk_state(path)
                if f.get('all'):
                    for o in self.tasks:     # the whole machine stops, not just this process
                        o.dead = True
                if kind == 'write' and f.get('keep', 0) > 0:
                    return f             # torn: the seam writes a prefix, then kills
                self.kill(t)
            return f
        return None

    @staticmethod
    def disk_state(path):
        fd = _os_open(path, os.O_RDONLY)
        try:
            return b''.join(iter(lambda: _os_read(fd, 1 << 20), b''))
        finally:
            _os_close(fd)

    @staticmethod
    def put_disk_state(path, data):
        fd = _os_open(path, os.O_WRONLY | os.O_TRUNC | os.O_CREAT, 0o644)
        try:
            while data:
                data = data[_os_write(fd, data):]
        finally:
            _os_close(fd)

    def restore_killed_hdf(self):
        """After the handles of killed tasks are closed: put back what was on disk when they died."""
        for path, data in self.hdf_at_kill.items():
            if os.path.exists(path):
                self.put_disk_state(path, data)

    def kill(self, t):
        t.dead = True
        raise SimKill()

    def wait(self, cond, waiting):
        """Block the active task until cond() holds."""
        t = self.me()
        if t.dead:
            raise SimKill()
        t.cond, t.waiting = cond, waiting
        self._switch_from(t)
        t.cond = None
        if t.dead:
            raise SimKill()

    # -- results -------------------------------------------------------------
    def trace_hash(self):
        return hashlib.sha256(json.dumps(self.log, default=str).encode()).hexdigest()[:16]

    def interleaving(self):
        return hashlib.sha256(repr([(e[0], e[1]) for e in self.log]).encode()).hexdigest()[:16]


def run_file_as_main(relpath):
    """Execute a script of the tree under test as `__main__` of the current simulated process."""
    path = os.path.join(REPO, relpath)
    mod = types.ModuleType('__main__')
    mod.__file__ = path
    sys.modules['__main__'] = mod
    exec(compiled(path), mod.__dict__)
