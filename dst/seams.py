"""Seams: file system, HDF5 store calls, clock, sleep.  Installed once per harness process;
they act only for the active task of the current World and only on paths under its root."""
import builtins
import ctypes
import errno
import io
import os
import time

import numpy as np

from .core import World, SimKill

_real = {}
ERRNO = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EMFILE': errno.EMFILE,
         'EACCES': errno.EACCES, 'EROFS': errno.EROFS, 'EDQUOT': errno.EDQUOT,
         'EINTR': errno.EINTR, 'ENOMEM': errno.ENOMEM, 'EXDEV': errno.EXDEV}


def oserror(act, path=None):
    e = ERRNO[act]
    return OSError(e, os.strerror(e), path)


def _world():
    w = World.current
    if w is not None and not w.finished and w.me() is not None:
        return w
    return None


def _fd_path(fd):
    try:
        return os.readlink('/proc/self/fd/%d' % fd)
    except OSError:
        return ''


class SimRaw(io.RawIOBase):
    """A raw file whose every read and write is a simulated effect."""

    def __init__(self, world, rel, fio, give_fileno):
        self._w, self._rel, self._f = world, rel, fio
        self._task = world.me()
        self._give = give_fileno
        self.name = fio.name
        self.mode = fio.mode

    # capability
    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def isatty(self):
        return False

    def fileno(self):
        if self._give:
            return self._f.fileno()
        raise io.UnsupportedOperation('fileno')

    def _gone(self):
        return self._task.dead or self._w.finished

    def _alive_op(self, kind, size=None):
        w = self._w
        if w.finished or w.me() is None:
            return None
        return w.op(kind, self._rel, size)

    def readinto(self, b):
        if self._gone():
            raise SimKill()
        f = self._alive_op('read', len(b))
        if f is not None:
            if f['act'] == 'short' and len(b) > 1:
                k = max(1, min(len(b) - 1, int(f.get('keep', 1))))
                data = _real['os.read'](self._f.fileno(), k)
                b[:len(data)] = data
                return len(data)
            if f['act'] in ERRNO:
                raise oserror(f['act'])
        return self._f.readinto(b)

    def write(self, b):
        if self._gone():
            return len(b)            # a killed process has no further effects
        data = bytes(b)
        f = self._alive_op('write', len(data))
        if f is not None:
            keep = min(len(data), int(f.get('keep', 0)))
            if f['act'] == 'short' and len(data) > 1:
                return self._f.write(data[:max(1, min(len(data) - 1, keep))])
            if f['act'] == 'kill':
                if keep:
                    self._f.write(data[:keep])
                self._w.kill(self._w.me())
            if f['act'] in ERRNO:
                if keep:
                    self._f.write(data[:keep])
                raise oserror(f['act'])
        return self._f.write(data)

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        if self._gone():
            raise SimKill()
        self._alive_op('truncate')
        return self._f.truncate(self._f.tell() if size is None else size)

    def close(self):
        if self.closed:
            return
        err = None
        try:
            if not self._gone() and self.writable():
                f = self._alive_op('close')
                if f is not None and f['act'] in ERRNO:
                    err = oserror(f['act'])
        finally:
            try:
                self._f.close()
            finally:
                super().close()
        if err is not None:
            raise err


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    w = _world()
    rel = None
    if w is not None and isinstance(mode, str):
        if isinstance(file, int):
            rel = w.rel(_fd_path(file)) if _fd_path(file).startswith('/') else None
        else:
            try:
                rel = w.rel(os.fsdecode(os.fspath(file)))
            except TypeError:
                rel = None
    if rel is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    rawmode = mode.replace('b', '').replace('t', '')
    give = isinstance(file, int) or opener is not None
    f = w.op('open', '%s:%s' % (rel if not give else 'tmp', rawmode))
    if f is not None and f['act'] in ERRNO:
        raise oserror(f['act'], file)
    if rel in w.readonly and any(c in rawmode for c in 'wax+'):
        raise oserror('EACCES', file)
    fio = io.FileIO(file, rawmode, closefd=closefd, opener=opener)
    raw = SimRaw(w, rel if not give else 'tmp', fio, give)
    if binary and buffering == 0:
        return raw
    bs = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    line_buffering = buffering == 1 and not binary
    if '+' in rawmode:
        buf = io.BufferedRandom(raw, bs)
    elif rawmode[0] in 'wax':
        buf = io.BufferedWriter(raw, bs)
    else:
        buf = io.BufferedReader(raw, bs)
    if binary:
        return buf
    txt = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering)
    txt.mode = mode
    return txt


def _resolve(path, dir_fd):
    p = os.fsdecode(os.fspath(path)) if not isinstance(path, int) else _fd_path(path)
    if dir_fd is not None and not os.path.isabs(p):
        p = os.path.join(_fd_path(dir_fd), p)
    return p


def _mount(rel):
    """The folder for temporary files is a file system of its own, as on most machines."""
    return rel is not None and (rel == 'tmp' or rel.startswith('tmp' + os.sep))


def _wrap_fds():
    """Files opened with os.open and written or read with os.write, os.read and the like."""
    real_open, real_close = os.open, os.close
    _real['os.open'], _real['os.close'] = real_open, real_close

    def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
        w = _world()
        rel = None if w is None else w.rel(_resolve(path, dir_fd))
        if rel is None or flags & (os.O_DIRECTORY | getattr(os, 'O_PATH', 0)) or os.path.isdir(path):
            return real_open(path, flags, mode, dir_fd=dir_fd)
        wr = flags & (os.O_WRONLY | os.O_RDWR)
        act = w.op('open', '%s:%s' % (rel, 'w' if wr else 'r'))
        if act is not None and act['act'] in ERRNO:
            raise oserror(act['act'], path)
        if rel in w.readonly and wr:
            raise oserror('EACCES', path)
        fd = real_open(path, flags, mode, dir_fd=dir_fd)
        w.fds[fd] = (_fd_path(fd), rel, w.me(), bool(wr))
        return fd

    def known(fd):
        w = _world()
        e = w.fds.get(fd) if w is not None and isinstance(fd, int) else None
        return (w, e) if e is not None and _fd_path(fd) == e[0] else (w, None)

    def sim_close(fd):
        w, e = known(fd)
        act = None
        if e is not None:
            if e[3] and not e[2].dead:
                act = w.op('close', e[1])
            w.fds.pop(fd, None)
        real_close(fd)
        if act is not None and act['act'] in ERRNO:
            raise oserror(act['act'])

    def writer(name, data_of, cut):
        real = getattr(os, name)
        _real['os.' + name] = real

        def f(fd, data, *a):
            w, e = known(fd)
            if e is None:
                return real(fd, data, *a)
            b = data_of(data)
            if e[2].dead:
                return len(b)
            act = w.op('write', e[1], len(b))
            if act is not None:
                keep = min(len(b), int(act.get('keep', 0)))
                if act['act'] == 'short' and len(b) > 1:
                    return real(fd, cut(b[:max(1, min(len(b) - 1, keep))]), *a)
                if act['act'] == 'kill':
                    if keep:
                        real(fd, cut(b[:keep]), *a)
                    w.kill(w.me())
                if act['act'] in ERRNO:
                    if keep:
                        real(fd, cut(b[:keep]), *a)
                    raise oserror(act['act'])
            return real(fd, data, *a)
        f.__name__ = name
        setattr(os, name, f)

    def reader(name):
        real = getattr(os, name)
        _real['os.' + name] = real

        def f(fd, n, *a):
            w, e = known(fd)
            if e is not None:
                act = w.op('read', e[1], n)
                if act is not None:
                    if act['act'] == 'short' and n > 1:
                        n = max(1, min(n - 1, int(act.get('keep', 1))))
                    elif act['act'] in ERRNO:
                        raise oserror(act['act'])
            return real(fd, n, *a)
        f.__name__ = name
        setattr(os, name, f)
    os.open, os.close = sim_os_open, sim_close
    writer('write', bytes, lambda b: b)
    writer('pwrite', bytes, lambda b: b)
    writer('writev', b''.join, lambda b: [b])
    reader('read')
    reader('pread')


def _wrap1(name, kind):
    real = getattr(os, name)
    _real[name] = real

    def f(path, *a, **k):
        w = _world()
        if w is not None:
            rel = w.rel(_resolve(path, k.get('dir_fd')))
            if rel is not None:
                act = w.op(kind, rel)
                if act is not None and act['act'] in ERRNO:
                    raise oserror(act['act'], path)
        return real(path, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


def _wrap2(name, kind):
    real = getattr(os, name)
    _real[name] = real

    def f(src, dst, *a, **k):
        w = _world()
        if w is not None:
            rel = w.rel(_resolve(dst, k.get('dst_dir_fd') or k.get('dir_fd')))
            if rel is not None:
                rsrc = w.rel(_resolve(src, k.get('src_dir_fd')))
                act = w.op(kind, '%s->%s' % (rsrc, rel))
                if act is not None and act['act'] in ERRNO:
                    raise oserror(act['act'], dst)
                if name != 'symlink' and _mount(rsrc) != _mount(rel):
                    raise oserror('EXDEV', dst)
        return real(src, dst, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


def _wrap_hdf():
    import pandas as pd
    HS = pd.HDFStore

    def wrap(name, kind):
        real = getattr(HS, name)

        def f(self, key, *a, **k):
            w = _world()
            if w is not None:
                act = w.op(kind, str(key))
                if act is not None and act['act'] in ERRNO:
                    if act.get('after'):
                        real(self, key, *a, **k)      # the effect happened, the error came later
                    raise oserror(act['act'])
            return real(self, key, *a, **k)
        f.__name__ = name
        f.__doc__ = real.__doc__
        setattr(HS, name, f)
    wrap('put', 'hdf_put')
    wrap('append', 'hdf_put')
    wrap('remove', 'hdf_remove')
    wrap('get', 'hdf_get')
    wrap('select', 'hdf_get')
    real_open = HS.open

    def hopen(self, mode='a', **k):
        w = _world()
        if w is not None:
            act = w.op('hdf_open', '%s:%s' % (w.rel(os.path.abspath(self._path)), mode))
            if act is not None and act['act'] in ERRNO:
                raise oserror(act['act'], self._path)
            if mode != 'r' and w.rel(os.path.abspath(self._path)) in w.readonly:
                raise oserror('EACCES', self._path)
        res = real_open(self, mode, **k)
        if w is not None and mode != 'r':
            w.hdf_writers.append((w.me(), os.path.abspath(self._path)))
        return res
    HS.open = hopen
    real_close = HS.close

    def hclose(self):
        w = _world()
        if w is None or not self.is_open:
            return real_close(self)
        path = os.path.abspath(self._path)
        mine = [x for x in w.hdf_writers if x[1] == path and x[0] is w.me()]
        if not mine:
            return real_close(self)
        act = w.op('hdf_close', str(w.rel(path)))
        if act is not None and act['act'] in ERRNO:
            before = w.disk_state(path)           # what HDF5 still had in memory is lost
            real_close(self)
            w.put_disk_state(path, before)
            w.hdf_writers.remove(mine[0])
            raise oserror(act['act'], path)
        res = real_close(self)
        w.hdf_writers.remove(mine[0])
        return res
    HS.close = hclose


_clear_exception = ctypes.pythonapi.PyErr_Clear
_clear_exception.restype = None


class SimH5Raw(SimRaw):
    """A raw file below HDF5, which expects whole reads and writes and closes files of dead processes.

    After a failed call HDF5 goes on calling while the exception of that call is still set; what attribute
    lookups then do depends on the interpreter's caches.  So h5py's entry points stand in this very class
    (the first one looked at) and begin by clearing it; h5py reports the failure from HDF5's own error stack."""

    def seek(self, *a):
        _clear_exception()
        return self._f.seek(*a)

    def tell(self):
        _clear_exception()
        return self._f.tell()

    def readinto(self, b):
        _clear_exception()
        if self._gone():
            return self._f.readinto(b)
        m, n = memoryview(b).cast('B'), 0
        while n < len(m):
            k = super().readinto(m[n:])
            if not k:
                break
            n += k
        return n

    def write(self, b):
        _clear_exception()
        if self._gone():
            return len(b)
        m, n = memoryview(b).cast('B'), 0
        while n < len(m):
            n += super().write(m[n:])
        return n

    def truncate(self, size=None):
        _clear_exception()
        if self._gone():
            return size
        f = self._alive_op('truncate')
        if f is not None and f['act'] in ERRNO:
            raise oserror(f['act'])
        return self._f.truncate(self._f.tell() if size is None else size)

    def flush(self):
        _clear_exception()

    def close(self):
        _clear_exception()
        if not self.closed:
            self._f.close()
            io.RawIOBase.close(self)


def _wrap_h5py():
    """h5py's files lie on simulated raw files; the HDF5 library itself is real."""
    import h5py
    Real = h5py.File

    class File(Real):
        def __init__(self, name, mode='r', *a, **k):
            w = _world()
            rel = None
            if w is not None and k.get('driver') is None and not a:
                try:
                    rel = w.rel(os.fsdecode(os.fspath(name)))
                except TypeError:
                    rel = None
            if rel is None:
                super().__init__(name, mode, *a, **k)
                return
            k.pop('locking', None)
            f = w.op('open', '%s:%s' % (rel, mode))
            if f is not None and f['act'] in ERRNO:
                raise oserror(f['act'], name)
            there = os.path.exists(name)
            if mode == 'a':
                mode = 'r+' if there else 'w'
            elif mode in ('x', 'w-'):
                if there:
                    raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), name)
                mode = 'w'
            if mode != 'r' and rel in w.readonly:
                raise oserror('EACCES', name)
            raw = SimH5Raw(w, rel, io.FileIO(name, {'r': 'rb', 'r+': 'r+b', 'w': 'w+b'}[mode]), False)
            super().__init__(raw, mode, **k)
    File.__name__ = File.__qualname__ = 'File'
    File.__doc__ = Real.__doc__
    _real['h5py.File'] = Real
    h5py.File = File


def _wrap_time():
    for n in ('time', 'monotonic', 'perf_counter'):
        real = getattr(time, n)
        _real['time.' + n] = real

        def f(real=real):
            w = _world()
            return real() if w is None else w.now
        setattr(time, n, f)
    real_sleep = time.sleep
    _real['time.sleep'] = real_sleep

    def sleep(s):
        w = _world()
        if w is None:
            return real_sleep(s)
        w.op('sleep', '%g' % s)
        w.now += max(0.0, s)
    time.sleep = sleep


def _wrap_entropy():
    real_rng = np.random.default_rng
    _real['default_rng'] = real_rng

    def default_rng(seed=None):
        w = _world()
        if w is not None and seed is None:
            seed = w.me().proc.entropy()
        return real_rng(seed)
    np.random.default_rng = default_rng
    real_seed = np.random.seed
    _real['np.seed'] = real_seed

    def seed(s=None):
        w = _world()
        if w is not None and s is None:
            s = w.me().proc.entropy() % (2 ** 32)
        return real_seed(s)
    np.random.seed = seed
    real_urandom = os.urandom
    _real['urandom'] = real_urandom

    def urandom(n):
        w = _world()
        if w is None:
            return real_urandom(n)
        p = w.me().proc
        return b''.join(p.entropy().to_bytes(8, 'little') for _ in range(n // 8 + 1))[:n]
    os.urandom = urandom
    import random as _random
    real_r = _random.Random.seed

    # random.Random() without a seed reads C-level entropy: tempfile's name generator does this
    import tempfile
    seq = {}

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            w = World.current
            if w is None:
                seq['n'] = seq.get('n', 0) + 1
                return 'out%06d' % seq['n']
            w.tempnames = getattr(w, 'tempnames', 0) + 1
            return 'sim%06d' % w.tempnames
    tempfile._name_sequence = Names()
    tempfile._get_candidate_names = lambda: tempfile._name_sequence
    tempfile._RandomNameSequence = Names


def _wrap_plots():
    """Rendering is replaced by a small file; the drawing calls before it are real."""
    from matplotlib.figure import Figure
    real = Figure.savefig
    _real['savefig'] = real

    def savefig(self, fname, *a, **k):
        if _world() is None:
            return real(self, fname, *a, **k)
        with builtins.open(fname, 'wb') as f:
            f.write(b'figure with %d axes\n' % len(self.axes))
    Figure.savefig = savefig
    Figure.tight_layout = lambda self, *a, **k: None


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _real['open'] = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    for n in ('remove', 'unlink'):
        _wrap1(n, 'unlink')
    _wrap1('rmdir', 'rmdir')
    _wrap1('mkdir', 'mkdir')
    _wrap1('truncate', 'truncate')
    _wrap2('rename', 'rename')
    _wrap2('replace', 'rename')
    _wrap2('link', 'link')
    _wrap2('symlink', 'link')
    _wrap_fds()
    real_fsync = os.fsync

    def fsync(fd):
        w = _world()
        if w is not None:
            act = w.op('fsync', '')
            if act is not None and act['act'] in ERRNO:
                raise oserror(act['act'])
        return real_fsync(fd)
    os.fsync = fsync
    _wrap_hdf()
    _wrap_h5py()
    _wrap_time()
    _wrap_entropy()
    _wrap_plots()


def close_leaked_hdf():
    """Close HDF5 handles that killed simulated processes left open."""
    import tables
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tables.file._open_files.close_all()
