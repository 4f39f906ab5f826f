"""Simulated byte streams and other seams with scripted faults.

Every stream counts its calls; a fault script says which call fails, how and
with what.  Streams never read clocks or depend on anything but their script.
"""
import io


class SimFault(OSError):
    """an I/O error made by the simulator"""


class SimInterrupt(KeyboardInterrupt):
    """an interrupt delivered by the simulator"""


class UserError(Exception):
    """raised by a saved object's own code, by script"""


EXC = {
    'oserror': lambda: SimFault(5, 'sim: I/O error'),
    'enospc': lambda: SimFault(28, 'sim: no space left on device'),
    'pipe': lambda: BrokenPipeError(32, 'sim: broken pipe'),
    'reset': lambda: ConnectionResetError(104, 'sim: connection reset'),
    'timeout': lambda: TimeoutError(110, 'sim: timed out'),
    'value': lambda: ValueError('sim: I/O operation on closed file'),
    'memory': lambda: MemoryError('sim: out of memory'),
    'interrupt': lambda: SimInterrupt('sim: interrupt'),
    'exit': lambda: SystemExit('sim: exit'),
    'user': lambda: UserError('sim: user code failed'),
    'attr': lambda: AttributeError('sim: attribute'),
    'type': lambda: TypeError('sim: type'),
    'key': lambda: KeyError('sim: key'),
    'runtime': lambda: RuntimeError('sim: runtime'),
    'import': lambda: ImportError('sim: import'),
    'stopiter': lambda: StopIteration('sim: stop'),
    'recursion': lambda: RecursionError('sim: recursion'),
    'pickling': lambda: __import__('pickle').PicklingError('sim: pickling'),
    'unpickling': lambda: __import__('pickle').UnpicklingError('sim: unpickling'),
    'eof': lambda: EOFError('sim: eof'),
    'assertion': lambda: AssertionError('sim: assertion'),
    'unicode': lambda: UnicodeDecodeError('utf-8', b'x', 0, 1, 'sim'),
    'gexit': lambda: GeneratorExit('sim: generator exit'),
}
IO_EXC = ('oserror', 'enospc', 'pipe', 'reset', 'timeout', 'value', 'memory', 'interrupt')
ANY_EXC = tuple(EXC)


class Writer:
    """writable stream.  script: {'call': n-th write fails (1-based), 'at': byte offset at which the device is full, 'exc': name,
    'torn': part of the failing write's bytes is stored, 'tell': 'ok'|'raise'|'absent', 'flush': raise on flush, 'close': raise on close}"""

    def __init__(self, script=None, env=None, data=b''):
        self.s = script or {}
        self.data = bytearray(data)
        self.calls = 0
        self.env = env
        self.fired = 0
        self.closed = False
        if self.s.get('tell', 'ok') == 'ok':
            self.tell = self._tell
        elif self.s['tell'] == 'raise':
            self.tell = self._notell

    def _fire(self, what):
        self.fired += 1
        if self.env:
            self.env.count('fault:%s %s' % (what, self.s.get('exc', 'oserror')))
        raise EXC[self.s.get('exc', 'oserror')]()

    def write(self, b):
        self.calls += 1
        b = bytes(b)
        if self.s.get('call') == self.calls:
            if self.s.get('torn'):
                self.data += b[:len(b) // 2]
            self._fire('write fails')
        at = self.s.get('at')
        if at is not None and len(self.data) + len(b) > at:
            if self.s.get('torn'):
                self.data += b[:max(0, at - len(self.data))]
            self._fire('device full')
        self.data += b
        return len(b)

    def flush(self):
        if self.s.get('flush'):
            self._fire('flush fails')

    def close(self):
        self.closed = True
        if self.s.get('close'):
            self._fire('close fails')

    def _tell(self):
        return len(self.data)

    def _notell(self):
        raise io.UnsupportedOperation('sim: tell')


class RawChunks(io.RawIOBase):
    """raw readable whose reads return at most the next chunk size; optional error at a byte offset, optional premature end"""

    def __init__(self, data, sizes, err=None, end=None, env=None, seekable=False):
        self.data, self.sizes, self.err, self.end = data, list(sizes) or [1 << 30], err, end
        self.pos, self.k, self.env, self._seek = 0, 0, env, seekable
        self.fired = 0

    def readable(self):
        return True

    def seekable(self):
        return self._seek

    def seek(self, off, whence=0):
        if not self._seek:
            raise io.UnsupportedOperation('sim: not seekable')
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def tell(self):
        if not self._seek:
            raise io.UnsupportedOperation('sim: not seekable')
        return self.pos

    def readinto(self, buf):
        n = min(len(buf), self.sizes[self.k % len(self.sizes)])
        self.k += 1
        stop = len(self.data) if self.end is None else min(self.end, len(self.data))
        if self.err is not None and self.pos + n > self.err[0]:
            n = self.err[0] - self.pos
            if n <= 0:
                self.fired += 1
                if self.env:
                    self.env.count('fault:read fails %s' % self.err[1])
                raise EXC[self.err[1]]()
        d = self.data[self.pos:min(self.pos + n, stop)]
        buf[:len(d)] = d
        self.pos += len(d)
        return len(d)


class Reader:
    """a plain object with read() and readline() (and what its script adds), full reads unless the stream ends or fails"""

    def __init__(self, data, script=None, env=None):
        self.data, self.s, self.env = bytes(data), script or {}, env
        self.pos = self.calls = self.fired = 0
        if 'end' in self.s:
            self.data = self.data[:self.s['end']]
        if self.s.get('tell') == 'ok':
            self.tell = lambda: self.pos
        elif self.s.get('tell') == 'raise':
            self.tell = self._unsupported
        if self.s.get('seek') == 'ok':
            self.seek = self._seek
            self.seekable = lambda: True
        elif self.s.get('seek') == 'raise':
            self.seek = self._unsupported
            self.seekable = lambda: False
        if self.s.get('peek'):
            self.peek = self._peek
        if self.s.get('readinto'):
            self.readinto = self._readinto

    def _unsupported(self, *a):
        raise io.UnsupportedOperation('sim: unsupported')

    def _seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def _check(self, upto):
        self.calls += 1
        if self.s.get('call') == self.calls or ('at' in self.s and upto > self.s['at']):
            self.fired += 1
            if self.env:
                self.env.count('fault:read fails %s' % self.s.get('exc', 'oserror'))
            raise EXC[self.s.get('exc', 'oserror')]()

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.pos
        self._check(self.pos + n)
        d = self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def readline(self):
        e = self.data.find(b'\n', self.pos)
        e = len(self.data) if e < 0 else e + 1
        self._check(e)
        d = self.data[self.pos:e]
        self.pos = e
        return d

    def _readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def _peek(self, n=0):
        size = self.s['peek']
        return self.data[self.pos:self.pos + (size if size > 0 else max(n, 1))]


# ---------------------------------------------------------------- saved objects whose own code can fail
class Trip:
    """counts the calls made to saved objects' code; the n-th raises, or runs an action"""
    n = 0
    at = None
    exc = 'user'
    action = None
    fired = 0


def trip(where):
    Trip.n += 1
    if Trip.at is not None and Trip.n == Trip.at:
        Trip.fired += 1
        if Trip.action is not None:
            return Trip.action(where)
        raise EXC[Trip.exc]()


def arm(at, exc='user', action=None):
    Trip.n, Trip.at, Trip.exc, Trip.action, Trip.fired = 0, at, exc, action, 0


KEEP = []       # restored objects that shall stay alive


# ---------------------------------------------------------------- failures at a call inside dill or pickle
class CallFault:
    """`with CallFault(at, exc) as c:` makes the at-th call of a Python function of dill or pickle, at work on an object, raise at its entry, as when the stack or the
    memory is exhausted there or an interrupt arrives; at=None only counts (c.n) and notes the innermost function of dill that each call is
    made for (c.groups), so that choose() can give each of dill's functions the same chance, however often it is called"""

    def __init__(self, at=None, exc='recursion'):
        self.at, self.exc, self.n, self.fired, self.where = at, exc, 0, 0, None
        self.groups = {}

    def __enter__(self):
        import os, pickle, sys, dill
        base = os.path.dirname(dill.__file__) + os.sep
        pick, files = pickle.__file__, {}
        depth = 0

        def hook(frame, event, arg):
            nonlocal depth
            if event != 'call' and event != 'return':
                return
            co = frame.f_code
            f = co.co_filename
            k = files.get(f)
            if k is None:
                k = files[f] = 1 if f == pick else 2 if f.startswith(base) else 0
            if not k:
                return
            if event == 'return':
                if k == 1:
                    depth -= 1
                return
            if k == 1:
                depth += 1
            # what is called by the operation's own outermost code may be its clean-up; that a file cannot be closed is a fault of its own
            if depth > 0 or (k == 2 and co.co_name == 'close'):
                self.n += 1
                if self.at is None:
                    while frame is not None and (files.get(frame.f_code.co_filename) != 2 or frame.f_code.co_name in ('save', 'trace')):
                        frame = frame.f_back
                    self.groups.setdefault(frame.f_code.co_name if frame else '', []).append(self.n)
                elif self.n == self.at:
                    self.fired += 1
                    self.where = co.co_name
                    raise EXC[self.exc]()
        self.old = sys.getprofile()
        sys.setprofile(hook)
        return self

    def __exit__(self, *a):
        import sys
        sys.setprofile(self.old)

    def choose(self, x):
        """0 <= x < 1 -> a call number"""
        g = sorted(self.groups)
        if not g:
            return 1
        x *= len(g)
        calls = self.groups[g[int(x)]]
        return calls[int((x - int(x)) * len(calls))]
