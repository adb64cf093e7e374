"""World A: the covariance extraction and NJOY drivers as one parent process and its child programs."""
import os
import tempfile
import warnings

from . import core, popen, seams


def job_task(w, fn, seed, argv=('prog',), rank=0):
    return w.spawn(rank, fn, core.ProcessState(list(argv), core.derive('job', seed), {}))


def run_world(w, cwd):
    """Run a World with working directory and temporary files under its root."""
    popen.install()
    tmp = os.path.join(w.root, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    old, oldtmp = os.getcwd(), tempfile.tempdir
    os.chdir(cwd)
    tempfile.tempdir = tmp
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            w.run()
    finally:
        os.chdir(old)
        tempfile.tempdir = oldtmp
        seams.close_leaked_hdf()
        w.restore_killed_hdf()
    return w


# ------------------------------------------------------------------ the real matrix converter
BOXER = {'path': None, 'dir': None}
_boxer_cache = {}


def build_boxer(scratch_root):
    """Compile /repo's boxer2mat.f the way its Makefile does."""
    d = os.path.join(scratch_root, 'boxer')
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'boxer2mat')
    r = popen.REAL(['gfortran', os.path.join(core.REPO, 'boxer2mat', 'boxer2mat.f'), '-o', exe], cwd=d,
                   stdout=popen.PIPE, stderr=popen.STDOUT)
    out = r.communicate()[0]
    if r.returncode:
        raise core.HarnessError('boxer2mat does not compile: %s' % out[-2000:])
    BOXER['path'], BOXER['dir'] = exe, d


def boxer_result(stdin, fort20):
    """(exit code, stdout, fort.21 or None) of the real converter."""
    import hashlib
    import shutil
    key = hashlib.sha256(stdin + b'\0' + (fort20 if fort20 is not None else b'-')).digest()
    if key not in _boxer_cache:
        if len(_boxer_cache) > 400:
            _boxer_cache.clear()
        d = os.path.join(BOXER['dir'], 'run%d' % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        op = seams._real.get('open', open)
        if fort20 is not None:
            with op(os.path.join(d, 'fort.20'), 'wb') as f:
                f.write(fort20)
        p = popen.REAL(['timeout', '-s', 'KILL', '20', BOXER['path']], cwd=d, stdin=popen.PIPE, stdout=popen.PIPE, stderr=popen.STDOUT)
        # no timeout here: with one, the real Popen would poll through the simulated clock
        out = p.communicate(stdin)[0]
        res = None
        f21 = os.path.join(d, 'fort.21')
        if os.path.exists(f21):
            with op(f21, 'rb') as f:
                res = f.read()
        shutil.rmtree(d, ignore_errors=True)
        _boxer_cache[key] = (p.returncode, out, res)
    return _boxer_cache[key]


class Boxer:
    """The converter as a program of the simulated world: its work is done by the real executable,
    its inputs and outputs pass through simulated files."""

    def __init__(self, plans=None):
        self.plans = plans or {}
        self.n = 0
        self.report = []

    def __call__(self, c):
        k = self.n
        self.n += 1
        p = self.plans.get(str(k), {})
        stdin = c.read_all()
        try:
            with open(c.path('fort.20'), 'rb') as f:
                fort20 = f.read()
        except FileNotFoundError:
            fort20 = None
        code, out, res = boxer_result(stdin, fort20)
        self.report.append((k, code, p))
        if out:
            c.write(out)
        if p.get('talk'):
            c.write(b'some words of the converter\n' * p['talk'])
        if res is not None and not p.get('omit'):
            with open(c.path('fort.21'), 'wb') as f:
                f.write(res if not p.get('die') else res[:len(res) // 2])
        if p.get('omit'):
            c.w.fired.append(('omit', 'program', 'fort.21'))
        if p.get('die'):
            how, num = p['die']
            if how == 'signal':
                raise popen.ChildSignal(num)
            return num
        return code
