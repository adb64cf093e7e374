"""Simulated child processes.  `subprocess.Popen` called by a task of the current World starts
another task of that World which runs a *program* (a Python function registered in
`world.programs`); pipes between the two are bounded buffers whose every transfer is scheduled
by the World, so the relative timing of parent and child is decided by the scenario."""
import io
import os
import subprocess

from . import core, seams
from .core import SimKill, Task, World, _os_close, _os_read, _os_write

REAL = subprocess.Popen
PIPE, STDOUT, DEVNULL = subprocess.PIPE, subprocess.STDOUT, subprocess.DEVNULL


class ChildExit(Exception):
    def __init__(self, code):
        self.code = code


class ChildSignal(Exception):
    def __init__(self, sig):
        self.sig = sig


class Pipe:
    def __init__(self, world, name, capacity):
        self.w, self.name, self.cap = world, name, capacity
        self.buf = bytearray()
        self.w_closed = self.r_closed = False
        self.writer = self.reader = None        # tasks
        self.moved = 0

    def no_writer(self):
        return self.w_closed or (self.writer is not None and self.writer.state == Task.DONE)

    def no_reader(self):
        return self.r_closed or (self.reader is not None and (self.reader.state == Task.DONE or self.reader.dead))

    def read(self, n):
        f = self.w.op('pipe', '%s<%d' % (self.name, n))
        if not self.buf and not self.no_writer():
            self.w.wait(lambda: self.buf or self.no_writer(), 'reading ' + self.name)
        if f is not None and f['act'] == 'short' and n > 1:
            n = max(1, min(n - 1, int(f.get('keep', 1))))
        data = bytes(self.buf[:n])
        del self.buf[:n]
        return data

    def write(self, data):
        """Write at least one byte, at most what fits."""
        self.w.op('pipe', '%s>%d' % (self.name, len(data)))
        if not self.no_reader() and len(self.buf) >= self.cap:
            self.w.wait(lambda: len(self.buf) < self.cap or self.no_reader(), 'writing ' + self.name)
        if self.no_reader():
            raise BrokenPipeError(32, 'Broken pipe')
        k = min(len(data), self.cap - len(self.buf))
        self.buf += data[:k]
        self.moved += k
        return k


class PipeEnd(io.RawIOBase):
    """The parent's end of a pipe."""

    def __init__(self, pipe, writing, fd):
        self.p, self.writing, self.fd = pipe, writing, fd
        self.name = fd

    def readable(self):
        return not self.writing

    def writable(self):
        return self.writing

    def fileno(self):
        raise io.UnsupportedOperation('fileno of a simulated pipe')

    def _me(self):
        if self.p.w.me() is None:
            raise core.HarnessError('pipe used outside a task')

    def readinto(self, b):
        if self.p.w.finished:
            raise SimKill()
        self._me()
        data = self.p.read(len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if self.p.w.finished or (self.p.writer is not None and self.p.writer.dead):
            return len(b)
        self._me()
        return self.p.write(bytes(b))

    def close(self):
        if not self.closed:
            if self.writing:
                self.p.w_closed = True
            else:
                self.p.r_closed = True
        super().close()


class Child:
    """What a program sees."""

    def __init__(self, world, args, cwd, stdin, out, err, pid):
        self.w, self.args, self.cwd = world, args, cwd
        self.stdin, self.out, self.err = stdin, out, err
        self.pid = pid
        self.returncode = None
        self.printed = b''            # what it managed to write to stdout and stderr
        self.stdin_read = b''
        self.stdin_eof = False
        self.note = {}

    # stdin: Pipe, ('fd', n) or None
    def read(self, n):
        s = self.stdin
        if s is None:
            self.stdin_eof = True
            return b''
        if isinstance(s, Pipe):
            d = s.read(n)
        else:
            self.w.op('pipe', 'stdin file<%d' % n)
            d = _os_read(s[1], n)
        self.stdin_read += d
        if not d:
            self.stdin_eof = True
        return d

    def read_all(self):
        while self.read(4096):
            pass
        return self.stdin_read

    def _write(self, dest, data):
        if dest is None:
            self.printed += data
            return
        while data:
            if isinstance(dest, Pipe):
                if dest.w_closed_child:
                    return
                try:
                    k = dest.write(data)
                except BrokenPipeError:
                    raise ChildSignal(13)
            else:
                self.w.op('pipe', 'stdout file>%d' % len(data))
                k = _os_write(dest[1], data)
            self.printed += data[:k]
            data = data[k:]

    def write(self, data, err=False):
        self._write(self.err if err else self.out, data)

    def close_out(self):
        self.w.op('pipe', 'close stdout')
        for p in (self.out, self.err):
            if isinstance(p, Pipe):
                p.w_closed = p.w_closed_child = True

    def close_stdin(self):
        self.w.op('pipe', 'close stdin')
        if isinstance(self.stdin, Pipe):
            self.stdin.r_closed = True

    def path(self, name):
        return os.path.join(self.cwd, name)


def _real_fd(f):
    """The file descriptor behind a file object of the simulated parent (or an int)."""
    if isinstance(f, int):
        return f
    x = f
    for a in ('buffer', 'raw', '_f'):
        x = getattr(x, a, x)
    x = getattr(x, '_f', x)
    return x.fileno()


class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, text=None, encoding=None, errors=None, **kw):
        w = World.current
        me = w.me()
        self.args = args
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None
        argv = [args] if isinstance(args, (str, bytes, os.PathLike)) else list(args)
        argv = [os.fsdecode(os.fspath(a)) for a in argv]
        prog_name = os.fsdecode(os.fspath(executable)) if executable is not None else argv[0]
        f = w.op('spawn', os.path.basename(prog_name))
        if f is not None and f['act'] in seams.ERRNO:
            raise seams.oserror(f['act'], prog_name)
        folder = os.path.realpath(os.fspath(cwd) if cwd is not None else os.getcwd())
        if not os.path.isdir(folder):
            raise FileNotFoundError(2, 'No such file or directory', cwd)
        prog = w.programs.get(prog_name)
        if prog is None and os.path.isabs(prog_name):
            prog = w.programs.get(os.path.basename(prog_name)) if os.path.dirname(prog_name) in w.program_dirs else None
        if prog is None:
            raise FileNotFoundError(2, 'No such file or directory', prog_name)
        w.child_n += 1
        rank = 100 * (me.rank + 1) + w.child_n
        cap = w.pipe_capacity
        fds = []

        def std_out(x, name):
            if x == PIPE:
                p = Pipe(w, name, cap)
                p.w_closed_child = False
                p.reader = me
                return p
            if x is None or x == DEVNULL:
                return None
            fd = os.dup(_real_fd(x))
            fds.append(fd)
            return ('fd', fd)
        if stdin == PIPE:
            cin = Pipe(w, 'stdin%d' % rank, cap)
            cin.writer = me
        elif stdin is None or stdin == DEVNULL:
            cin = None
        else:
            fd = os.dup(_real_fd(stdin))
            fds.append(fd)
            cin = ('fd', fd)
        cout = std_out(stdout, 'stdout%d' % rank)
        cerr = cout if stderr == STDOUT else std_out(stderr, 'stderr%d' % rank)
        if stdout is None:
            cout = None
        self.pid = rank
        c = self.child = Child(w, argv, folder, cin, cout, cerr, rank)
        if cin is None and stdin is None:
            c.note['stdin_inherited'] = True

        def run():
            code = 0
            try:
                r = prog(c)
                code = r if isinstance(r, int) else 0
            except ChildExit as e:
                code = e.code
            except ChildSignal as e:
                code = -e.sig
            except SimKill:
                code = getattr(c, 'exit_code', -9)
                raise
            except OSError as e:
                try:
                    c.write(b' ***i/o error*** ' + str(e.strerror or e).encode() + b'\n')
                    code = 2
                except ChildSignal as s:
                    code = -s.sig
                except SimKill:
                    code = -9
                    raise
            finally:
                c.exit_code = code
                if code:
                    w.fired.append(('signal' if code < 0 else 'exit', 'program', os.path.basename(str(argv[0]))))
                for fd in fds:
                    _os_close(fd)
                if isinstance(c.stdin, Pipe):
                    c.stdin.r_closed = True
                for p in (c.out, c.err):
                    if isinstance(p, Pipe):
                        p.w_closed = True
            return code
        proc = core.ProcessState(argv, core.derive('child', rank), {})
        t = self.task = w.spawn(rank, run, proc)
        t.light = True
        for p in (cout, cerr):
            if isinstance(p, Pipe):
                p.writer = t
        if isinstance(cin, Pipe):
            cin.reader = t
        w.children.append(c)
        t.thread.start()

        is_text = bool(text or universal_newlines or encoding or errors)

        def mk(p, writing):
            raw = PipeEnd(p, writing, -1)
            if bufsize == 0:
                b = raw
            else:
                b = io.BufferedWriter(raw) if writing else io.BufferedReader(raw)
            if not is_text:
                return b
            return io.TextIOWrapper(b, encoding or 'utf-8', errors, write_through=writing and bufsize == 1,
                                    line_buffering=writing and bufsize == 1)
        if isinstance(cin, Pipe):
            self.stdin = mk(cin, True)
        if isinstance(cout, Pipe):
            self.stdout = mk(cout, False)
        if isinstance(cerr, Pipe) and cerr is not cout:
            self.stderr = mk(cerr, False)
        self.text_mode = self.universal_newlines = is_text

    # -- waiting ----------------------------------------------------------
    def _done(self):
        return self.task.state == Task.DONE

    def _reap(self):
        if self.returncode is None and self._done():
            self.returncode = getattr(self.child, 'exit_code', -9)
        return self.returncode

    def poll(self):
        w = World.current
        w.op('poll', '')
        if not self._done():
            # a real process that polls does not stop the others from running
            s = w.steps
            w.wait(lambda: self._done() or w.steps > s, 'polling child %d' % self.pid)
        return self._reap()

    def wait(self, timeout=None):
        w = World.current
        w.op('wait', '')
        if timeout is None:
            w.wait(self._done, 'waiting for child %d' % self.pid)
            return self._reap()
        end = w.now + timeout
        me = w.me()
        busy = []

        def cond():
            if self._done() or w.now >= end:
                return True
            if busy:
                return False
            busy.append(1)
            try:
                others = [t for t in w.tasks if t is not me and t.state != Task.DONE]
                return not any(t.dead or t.cond is None or t.cond() for t in others)
            finally:
                busy.pop()
        w.wait(cond, 'waiting for child %d' % self.pid)
        if self._done():
            return self._reap()
        w.now = max(w.now, end)
        raise subprocess.TimeoutExpired(self.args, timeout)

    def communicate(self, input=None, timeout=None):
        w = World.current
        data = b''
        if input is not None:
            data = input.encode('utf-8') if isinstance(input, str) else bytes(input)
        res = {}
        if self.stdin is not None and not data:
            self._close_quietly(self.stdin)
        pipes = [x for x in (self.child.out, self.child.err) if isinstance(x, Pipe)]
        pipes = list(dict.fromkeys(id(p) for p in pipes)) and list({id(p): p for p in pipes}.values())
        got = {id(p): bytearray() for p in pipes}
        opened = {id(p) for p in pipes}
        cin = self.child.stdin if self.stdin is not None and data else None

        def ready():
            if cin is not None and (cin.no_reader() or len(cin.buf) < cin.cap):
                return True
            return any(id(p) in opened and (p.buf or p.no_writer()) for p in pipes)
        while opened or cin is not None:
            w.wait(ready, 'communicating with child %d' % self.pid)
            if cin is not None and (cin.no_reader() or len(cin.buf) < cin.cap):
                try:
                    k = cin.write(data)
                    data = data[k:]
                except BrokenPipeError:
                    data = b''
                if not data:
                    cin = None
                    self._close_quietly(self.stdin)
            for p in pipes:
                if id(p) in opened and (p.buf or p.no_writer()):
                    d = p.read(4096)
                    got[id(p)] += d
                    if not d:
                        opened.discard(id(p))
        self.wait()

        def fin(stream, p):
            if stream is None:
                return None
            raw = bytes(got[id(p)])
            if isinstance(stream, io.TextIOWrapper):
                raw = raw.decode(stream.encoding, stream.errors or 'strict').replace('\r\n', '\n').replace('\r', '\n')
            stream.close()
            return raw
        res['o'] = fin(self.stdout, self.child.out)
        res['e'] = fin(self.stderr, self.child.err)
        return res['o'], res['e']

    @staticmethod
    def _close_quietly(f):
        try:
            f.close()
        except BrokenPipeError:
            pass

    def send_signal(self, sig):
        World.current.op('signal', str(int(sig)))
        if not self._done():
            self.child.exit_code = -int(sig)
            self.task.dead = True

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if self.stdout:
            self.stdout.close()
        if self.stderr:
            self.stderr.close()
        if self.stdin:
            self._close_quietly(self.stdin)
        if et is not None and issubclass(et, SimKill):
            return
        self.wait()


class Popen:
    """Stands in for subprocess.Popen: simulated inside a World, real outside."""

    def __new__(cls, *a, **k):
        if seams._world() is not None:
            return SimPopen(*a, **k)
        return REAL(*a, **k)

    def __class_getitem__(cls, item):
        return cls


_installed = False


def install():
    global _installed
    if not _installed:
        _installed = True
        subprocess.Popen = Popen


def world(root, programs, program_dirs=(), pipe_capacity=4096, **k):
    """A World whose tasks can start the given programs."""
    w = World(root, **k)
    w.programs, w.program_dirs = dict(programs), set(program_dirs)
    w.pipe_capacity = pipe_capacity
    w.children = []
    w.child_n = 0
    w.kill_others_on_failure = False
    return w
