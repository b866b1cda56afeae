"""Simulated descriptors, files and process boundary for the command line.

Raw byte devices (SimRaw) sit below the *real* io.BufferedReader / BufferedWriter / TextIOWrapper and csv code.
Every read or write may be short; a fault fires at a chosen byte (or at open or close).
"""
import atexit
import builtins
import csv
import errno
import importlib
import importlib.abc
import importlib.util
import io
import os
import sys

from fogsim import world as W

PREFIX = '/sim/'
_real_open = builtins.open


class Fault(object):
    """kind: the name of an errno ('eio', 'enospc'...) or 'interrupt' ; at: byte offset, 'open' or 'close'."""

    def __init__(self, kind, at, sticky=True):
        self.kind, self.at, self.sticky = kind, at, sticky
        self.fired = 0

    def error(self):
        self.fired += 1
        w = W.world()
        w.fault('%s_%s' % (self.kind, self.at if isinstance(self.at, str) else 'at_byte'))
        w.log('fault', self.kind, self.at)
        if self.kind == 'interrupt':
            return KeyboardInterrupt()
        no = getattr(errno, self.kind.upper())
        return OSError(no, os.strerror(no))

    def due(self):
        return self.sticky or not self.fired


class SimRaw(io.RawIOBase):
    def __init__(self, name, data=None, sizes=None, fault=None, limit=0):
        self.name = name
        self.data = data              # bytes to read, or None when writing
        self.pos = 0
        self.out = bytearray()
        self.sizes = sizes            # () -> int, how much the device transfers at once (>= 1)
        self.fault = fault
        self.ops = 0
        self.dead = False             # the process is gone

    def readable(self):
        return self.data is not None

    def writable(self):
        return self.data is None

    def isatty(self):
        return False

    def readinto(self, b):
        self.ops += 1
        w = W.world()
        if w is not None:
            w.advance(w.io_cost)
        f = self.fault
        n = min(len(b), len(self.data) - self.pos)
        if n > 1 and self.sizes is not None:
            n = min(n, self.sizes())
        if f is not None and isinstance(f.at, int) and f.due():
            if self.pos >= f.at:
                raise f.error()
            n = min(n, f.at - self.pos)
        if n < min(len(b), len(self.data) - self.pos):
            W.world().fault('short_read')
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        if self.dead:
            return len(b)
        self.ops += 1
        w = W.world()
        if w is not None:
            w.advance(w.io_cost)
        f = self.fault
        b = bytes(b)
        n = len(b)
        if n > 1 and self.sizes is not None:
            n = min(n, self.sizes())
        if f is not None and isinstance(f.at, int) and f.due():
            if len(self.out) >= f.at and n:
                if f.kind == 'eagain':
                    f.error()
                    return None       # what FileIO does for a non-blocking descriptor
                raise f.error()
            n = min(n, f.at - len(self.out))
        if n < len(b):
            W.world().fault('short_write')
        self.out += b[:n]
        return n

    def close(self):
        if self.closed:
            return
        super().close()
        f = self.fault
        if f is not None and f.at == 'close' and f.due():
            raise f.error()


class FS(object):
    """Files under /sim/ and the three standard streams of one simulated process."""

    def __init__(self, w):
        self.w = w
        self.files = {}        # path -> bytes | SimRaw (written)
        self.faults = {}       # path or 'stdin' / 'stdout' -> Fault
        self.sizes = None
        self.bufsize = 8192
        self.chunk = 8192
        self.opened = []
        self.raws = []

    def open(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        f = self.faults.get(path)
        if f is not None and f.at == 'open' and f.due():
            raise f.error()
        self.w.log('open', path, mode)
        size = self.bufsize if buffering in (-1, 1) else max(buffering, 1)
        if 'r' in mode and '+' not in mode:
            if path not in self.files:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            raw = SimRaw(path, bytes(self.files[path]), self.sizes, f)
            if buffering == 0:
                return raw
            buf = io.BufferedReader(raw, size)
        else:
            raw = SimRaw(path, None, self.sizes, f)
            if 'a' in mode and path in self.files:
                raw.out += self.files[path]
            self.files[path] = raw.out
            self.raws.append(raw)
            if buffering == 0:
                return raw
            buf = io.BufferedWriter(raw, size)
        if 'b' in mode:
            self.opened.append(buf)
            return buf
        t = io.TextIOWrapper(buf, encoding or 'utf-8', errors or 'strict', newline, line_buffering=buffering == 1)
        t.mode = mode
        # how much text is held back before it reaches the buffer: on the write side, this is what makes a failing
        # device show inside a row's own write and not only when the file is flushed
        t._CHUNK_SIZE = self.chunk
        self.opened.append(t)
        return t


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = W.world()
    if w is not None and w.fs is not None and isinstance(file, (str, os.PathLike)):
        path = os.fspath(file)
        if isinstance(path, str) and path.startswith(PREFIX):
            return w.fs.open(path, mode, buffering, encoding, errors, newline)
    return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)


# -- fresh modules of the command line for every simulated process ------------------------------------

class _Cached(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self):
        self.codes = {}
        self.specs = {}

    def find_spec(self, name, path, target=None):
        if name in self.codes:
            s = self.specs[name]
            return importlib.util.spec_from_file_location(name, s.origin, loader=self,
                                                          submodule_search_locations=s.submodule_search_locations)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(self.codes[module.__name__], module.__dict__)


_cache = None


def fresh_cli():
    """The main function of a newly started fog process."""
    global _cache
    if _cache is None:
        _cache = _Cached()
        importlib.import_module('fog.cli.__main__')
        for n, m in sorted(sys.modules.items()):
            if n == 'fog.cli' or n.startswith('fog.cli.'):
                _cache.specs[n] = m.__spec__
                _cache.codes[n] = m.__spec__.loader.get_code(n)
        sys.meta_path.insert(0, _cache)
    for n in list(sys.modules):
        if n == 'fog.cli' or n.startswith('fog.cli.'):
            del sys.modules[n]
    return importlib.import_module('fog.cli.__main__').main


def module_main():
    """python -m fog.cli"""
    main = fresh_cli()
    m = sys.modules['fog.cli.__main__']
    ns = {'__name__': '__main__', '__spec__': m.__spec__, '__package__': 'fog.cli', '__file__': m.__file__, '__builtins__': builtins}
    del main
    exec(_cache.codes['fog.cli.__main__'], ns)


class HardExit(BaseException):
    pass


class Result(object):
    def __init__(self, status, out, err, error):
        self.status, self.out, self.err, self.error = status, out, err, error


def run_process(w, argv, files=(), stdin=b'', faults=(), sizes=None, bufsize=8192, chunk=8192, module=False):
    """Start main() as the console script (or python -m fog.cli) does, to the end of the process.  -> Result, FS"""
    fs = FS(w)
    fs.files.update(files)
    fs.faults.update(faults)
    fs.sizes, fs.bufsize, fs.chunk = sizes, bufsize, chunk
    outer = w.fs
    raw_out = SimRaw('<stdout>', None, sizes, fs.faults.get('stdout'))
    raw_err = SimRaw('<stderr>', None)
    raw_in = SimRaw('<stdin>', bytes(stdin), sizes, fs.faults.get('stdin'))
    si = io.TextIOWrapper(io.BufferedReader(raw_in, bufsize), 'utf-8', 'strict', '\n')
    si._CHUNK_SIZE = chunk
    si.mode = 'r'
    so = io.TextIOWrapper(io.BufferedWriter(raw_out, bufsize), 'utf-8', 'strict', '\n')
    so._CHUNK_SIZE = chunk
    so.mode = 'w'
    se = io.TextIOWrapper(io.BufferedWriter(raw_err, 8192), 'utf-8', 'backslashreplace', '\n', write_through=True)
    saved = (sys.argv, sys.stdin, sys.stdout, sys.stderr, sys.__stdin__, sys.__stdout__, sys.__stderr__, sys.unraisablehook)
    saved_exit = (os._exit, atexit.register, atexit.unregister)
    status, error = 0, None
    handlers, hard = [], False
    limit = csv.field_size_limit(131072)

    def register(f, *a, **k):
        handlers.append((f, a, k))
        return f

    def unregister(f):
        handlers[:] = [h for h in handlers if h[0] != f]

    def hard_exit(code):
        raise HardExit(code)
    try:
        w.fs = fs
        os._exit, atexit.register, atexit.unregister = hard_exit, register, unregister
        sys.argv = ['fog'] + list(argv)
        sys.stdin, sys.stdout, sys.stderr = si, so, se
        sys.__stdin__, sys.__stdout__, sys.__stderr__ = si, so, se
        sys.unraisablehook = lambda *a: None
        try:
            r = module_main() if module else fresh_cli()()
            status = 0 if r is None else (r & 0xff if isinstance(r, int) else 1)
        except SystemExit as e:
            status = 0 if e.code is None else (e.code & 0xff if isinstance(e.code, int) else 1)
        except KeyboardInterrupt:
            status = 130
        except HardExit as e:
            status, hard = e.args[0] & 0xff, True
        except W.SimStop:
            raise
        except W.Violation:
            raise
        except BaseException as e:
            status, error = 1, e
            e.__traceback__ = None
            e.__context__ = None
        while handlers and not hard:
            f, a, k = handlers.pop()
            try:
                f(*a, **k)
            except HardExit as e:
                status, hard = e.args[0] & 0xff, True
            except SystemExit:
                pass
            except Exception:
                pass
        # interpreter shutdown: standard streams are flushed, leftover files are closed with errors ignored
        std = sys.stdout
        if hard:
            # nothing is flushed
            for raw in fs.raws + [raw_out, raw_err]:
                raw.dead = True
        try:
            if std is not None and not getattr(std, 'closed', False):
                std.flush()
        except BaseException:
            status = 120
        for f in fs.opened:
            try:
                f.close()
            except BaseException:
                pass
        for f in (so, si, se):
            try:
                f.close()
            except BaseException:
                pass
    finally:
        (sys.argv, sys.stdin, sys.stdout, sys.stderr, sys.__stdin__, sys.__stdout__, sys.__stderr__, sys.unraisablehook) = saved
        os._exit, atexit.register, atexit.unregister = saved_exit
        csv.field_size_limit(limit)
        w.fs = outer
    w.log('exit', status)
    return Result(status, bytes(raw_out.out), bytes(raw_err.out), error), fs


def install():
    builtins.open = sim_open
    io.open = sim_open
