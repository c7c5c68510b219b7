"""
Seams: every source of nondeterminism that the repository reaches goes through here.

* wall clock        time.time / time_ns / monotonic / perf_counter / localtime / gmtime / sleep (datetime.now
                    follows time.time on PyPy)
* file system       open() (raw layer: open, write, read, close), mkdir, rename/replace, unlink, stat, listing order,
                    fsync, for every path below the scratch folder of the simulated world
* randomness        numpy's global generator and os.urandom start from the world's "process entropy"
* solvers           sparse linear solves (power flow Newton steps and identification), dense decompositions and inverses,
                    construction of large sparse matrices

Nothing here changes behaviour unless a kernel is attached (`attach`), which only happens in the forked children that
play the operating-system processes of a simulated world.  A kernel answers every operation with a directive:
go on, fail with an errno, raise an exception, perform a short transfer, tear the write and die, die.
"""
import builtins
import errno
import io
import os
import pathlib
import random
import time

_real = {}
KERNEL = None          # attached kernel of this process (None: every seam is transparent)
ROOT = None            # absolute scratch folder of the simulated world


class SolverFault(Exception):
    pass


def attach(kernel, root):
    global KERNEL, ROOT
    KERNEL, ROOT = kernel, os.path.realpath(root)


def _inside(path):
    """Path relative to the world's root, or None if the path is not part of the simulated file system."""
    if KERNEL is None:
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not os.path.isabs(p):
        p = os.path.join(_real['getcwd'](), p)
    p = os.path.normpath(p)
    if p == ROOT or p.startswith(ROOT + '/'):
        return p[len(ROOT) + 1:]
    return None


def _apply(d, path=None):
    """Directives that do not depend on the operation."""
    a = d['a']
    if a == 'go':
        return
    if a == 'crash':
        os._exit(137)
    if a == 'err':
        raise OSError(d['e'], os.strerror(d['e']), path)
    if a == 'exc':
        if d['x'] == 'LinAlgError':
            from numpy.linalg import LinAlgError
            raise LinAlgError('injected by the simulator')
        raise {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
               'RuntimeError': RuntimeError}[d['x']]('injected by the simulator')


class SimRaw(io.FileIO):
    """Raw file of the simulated file system."""

    def __init__(self, path, mode, rel, opener=None):
        self._rel = None
        super().__init__(path, mode, opener=opener)
        self._rel = rel
        self._w = any(c in mode for c in 'wax+')

    def write(self, b):
        if KERNEL is None or self._rel is None:
            return super().write(b)
        m = memoryview(b).cast('B')
        n = len(m)
        d = KERNEL.op('write', self._rel, n=n)
        if d['a'] == 'short':
            return super().write(m[:max(1, int(n * d['f']))]) if n else super().write(m)
        if d['a'] == 'torn':
            k = int(n * d['f'])
            if k:
                super().write(m[:k])
            os._exit(137)
        if d['a'] == 'err' and d.get('f') is not None:      # part of the data reaches the disk before the error
            k = int(n * d['f'])
            if k:
                super().write(m[:k])
        _apply(d, self._rel)
        return super().write(m)

    def readinto(self, b):
        if KERNEL is None or self._rel is None:
            return super().readinto(b)
        m = memoryview(b).cast('B')
        d = KERNEL.op('read', self._rel, n=len(m))
        if d['a'] == 'short' and len(m) > 1:
            tmp = bytearray(max(1, int(len(m) * d['f'])))
            n = super().readinto(tmp)
            m[:n] = tmp[:n]
            return n
        if d['a'] != 'short':
            _apply(d, self._rel)
        return super().readinto(m)

    def truncate(self, size=None):
        if KERNEL is not None and self._rel is not None:
            _apply(KERNEL.op('truncate', self._rel), self._rel)
        return super().truncate(size)

    def close(self):
        if KERNEL is not None and self._rel is not None and not self.closed and self._w:
            rel, self._rel = self._rel, None
            d = KERNEL.op('close', rel)
            if d['a'] in ('err', 'exc'):
                super().close()
            if d['a'] != 'short':
                _apply(d, rel)
        super().close()


class SimReader(io.BufferedReader):
    def read(self, size=-1):
        if size is not None and size >= 0:
            return super().read(size)
        out = []
        while True:
            c = super().read(65536)
            if not c:
                return b''.join(out)
            out.append(c)


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    rel = None if isinstance(file, int) or KERNEL is None else _inside(file)
    if rel is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    rawmode = mode.replace('b', '').replace('t', '')
    if binary and 't' in mode or not rawmode.strip('+') in ('r', 'w', 'a', 'x'):
        raise ValueError("invalid mode: %r" % mode)
    writing = any(c in rawmode for c in 'wax+')
    d = KERNEL.op('open_w' if writing else 'open_r', rel, mode=rawmode)
    if d['a'] != 'short':
        _apply(d, os.fspath(file))
    raw = SimRaw(os.fspath(file), rawmode, rel, opener)
    if binary and buffering == 0:
        return raw
    if '+' in rawmode:
        buf = io.BufferedRandom(raw)
    elif writing:
        buf = io.BufferedWriter(raw)
    else:
        buf = SimReader(raw)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
    text.mode = mode
    return text


def _path_op(name, kind):
    real = getattr(os, name)

    def f(path, *a, **k):
        rel = _inside(path) if KERNEL is not None and not isinstance(path, int) else None
        if rel is not None:
            extra = {}
            if kind == 'rename':
                extra['to'] = _inside(a[0])
            d = KERNEL.op(kind, rel, **extra)
            if d['a'] != 'short':
                _apply(d, os.fspath(path))
        return real(path, *a, **k)
    f.__name__ = name
    return f


class _Scan:
    """scandir context manager over a list of entries in the order chosen by the world."""
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _scandir(path='.'):
    rel = _inside(path) if KERNEL is not None and not isinstance(path, int) else None
    if rel is None:
        return _real['scandir'](path)
    d = KERNEL.op('list', rel)
    if d['a'] != 'short':
        _apply(d, os.fspath(path))
    with _real['scandir'](path) as it:
        entries = sorted(it, key=lambda e: e.name)
    random.Random(d.get('s', 0)).shuffle(entries)
    return _Scan(entries)


def _listdir(path='.'):
    rel = _inside(path) if KERNEL is not None and not isinstance(path, int) else None
    if rel is None:
        return _real['listdir'](path)
    d = KERNEL.op('list', rel)
    if d['a'] != 'short':
        _apply(d, os.fspath(path))
    names = sorted(_real['listdir'](path))
    random.Random(d.get('s', 0)).shuffle(names)
    return names


def _urandom(n):
    if KERNEL is None:
        return _real['urandom'](n)
    return KERNEL.entropy(n)


def _time():
    return _real['time']() if KERNEL is None else KERNEL.now()


def _sleep(s):
    if KERNEL is None:
        return _real['sleep'](s)
    KERNEL.op('sleep', None, s=float(s))


def _localtime(t=None):
    if KERNEL is None:
        return _real['localtime']() if t is None else _real['localtime'](t)
    return _real['gmtime'](_time() if t is None else t)


def _gmtime(t=None):
    return _real['gmtime'](_time() if t is None else t)


def _ctime(t=None):
    return time.asctime(_localtime(t))


_real_strftime = time.strftime


def _strftime(fmt, t=None):
    return _real_strftime(fmt, _localtime() if t is None else t)


def _solver(real):
    def spsolve(*a, **k):
        if KERNEL is not None:
            d = KERNEL.op('solve', None)
            if d['a'] not in ('short', 'nan'):
                _apply(d)
            r = real(*a, **k)
            if d['a'] == 'nan':
                r = r * float('nan')
            return r
        return real(*a, **k)
    return spsolve


def _alloc(kind, real):
    """A dense decomposition or a large construction: it may run out of memory (or not converge)."""
    import functools

    @functools.wraps(real)
    def f(*a, **k):
        if KERNEL is not None:
            d = KERNEL.op(kind, None)
            if d['a'] not in ('short', 'nan'):
                _apply(d)
        return real(*a, **k)
    return f


_installed = False


def install():
    """Patches the standard library before the repository is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    for n in ('time', 'sleep', 'localtime', 'gmtime'):
        _real[n] = getattr(time, n)
    _real['open'] = io.open
    for n in ('scandir', 'listdir', 'urandom', 'getcwd', 'stat', 'fsync'):
        _real[n] = getattr(os, n)
    time.time = _time
    time.time_ns = lambda: int(_time() * 1e9)
    time.sleep = _sleep
    time.localtime = _localtime
    time.gmtime = _gmtime
    time.ctime = _ctime
    time.strftime = _strftime
    for n in ('monotonic', 'perf_counter', 'process_time'):
        def clk(real=getattr(time, n)):
            return real() if KERNEL is None else KERNEL.now()
        setattr(time, n, clk)

        def clk_ns(real=getattr(time, n)):
            return int((real() if KERNEL is None else KERNEL.now()) * 1e9)
        setattr(time, n + '_ns', clk_ns)
    builtins.open = io.open = _open
    os.scandir, os.listdir, os.urandom = _scandir, _listdir, _urandom
    random._urandom = _urandom
    acc = pathlib._NormalAccessor
    for n, kind in (('mkdir', 'mkdir'), ('rename', 'rename'), ('replace', 'rename'), ('unlink', 'unlink'),
                    ('rmdir', 'unlink'), ('stat', 'stat')):
        f = _path_op(n, kind)
        setattr(os, n, f)
        if hasattr(acc, n):
            setattr(acc, n, staticmethod(f))
    os.remove = _path_op('remove', 'unlink')
    acc.scandir, acc.listdir = staticmethod(_scandir), staticmethod(_listdir)
    # os.path.isfile/isdir/exists are Python functions that look up os.stat at call time (genericpath)

    def fsync(fd):
        if KERNEL is not None:
            try:
                rel = _inside(os.readlink('/proc/self/fd/%d' % (fd if isinstance(fd, int) else fd.fileno())))
            except OSError:
                rel = None
            if rel is not None:
                _apply(KERNEL.op('fsync', rel))
        return _real['fsync'](fd)
    os.fsync = fsync


def install_solvers():
    """Patches the solver entry points, after scipy was imported and before the repository is."""
    import scipy.sparse.linalg as sl
    import numpy.linalg
    import scipy.linalg
    import scipy.sparse
    for m, kind, names in ((numpy.linalg, 'dense', ('svd', 'inv', 'eig', 'eigvals', 'lstsq')),
                           (scipy.linalg, 'dense', ('pinv', 'svd', 'inv', 'lstsq')),
                           (scipy.sparse, 'alloc', ('kron', 'bmat'))):
        for n in names:
            f = getattr(m, n)
            if not hasattr(f, '_dsim'):
                g = _alloc(kind, f)
                g._dsim = True
                setattr(m, n, g)
    if hasattr(sl.spsolve, '_dsim'):
        return
    wrapped = _solver(sl.spsolve)
    wrapped._dsim = True
    orig = sl.spsolve
    sl.spsolve = wrapped
    import sys
    for m in list(sys.modules.values()):
        if getattr(m, 'spsolve', None) is orig and m is not None:
            try:
                m.spsolve = wrapped
            except Exception:
                pass
    import tqdm
    tqdm.tqdm.monitor_interval = 0
