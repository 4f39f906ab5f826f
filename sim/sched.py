"""Deterministic thread scheduler.

Real threads, but exactly one runs at a time: each waits for its own baton
lock.  Every traced line (or byte code) of dill, pickle and the other traced
files is a scheduling point, where the policy (a seeded generator, or a
recorded list of [step, thread] switches) decides who goes on.
"""
import sys, os, random, threading, _thread, types, zlib

YIELD = ('stream', 'observer')      # an observer gives way after every look
SCHED = None        # the scheduler of the current run


class SimLock:
    """a mutex that parks its waiters in the scheduler instead of the kernel"""
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner, self.count = me, self.count + 1
                return True
            if not blocking:
                return False
            s = SCHED
            if s is None or not s.active():
                raise RuntimeError('sim lock: would block outside the scheduler')
            s.wait(lambda: self.owner is None)

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self.owner == self._me()


def replace_locks(modules, handlers=()):
    """put scheduler locks where dill modules (module level, classes, function defaults and closures) and log handlers keep real ones"""
    LT, RT = type(_thread.allocate_lock()), type(threading.RLock())
    n = 0

    def new(v):
        return SimRLock() if isinstance(v, RT) else SimLock()
    mapping = {}

    def sub(v):
        if isinstance(v, (LT, RT)):
            if id(v) not in mapping:
                mapping[id(v)] = (v, new(v))
            return mapping[id(v)][1]
        return None
    for m in modules:
        for k, v in list(vars(m).items()):
            r = sub(v)
            if r is not None:
                setattr(m, k, r)
                n += 1
            elif isinstance(v, type) and v.__module__ == m.__name__:
                for a, w in list(vars(v).items()):
                    r = sub(w)
                    if r is not None:
                        setattr(v, a, r)
                        n += 1
                    f = getattr(w, '__func__', w)
                    if isinstance(f, types.FunctionType):
                        n += _fix_function(f, sub)
            elif isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
                n += _fix_function(v, sub)
            elif getattr(type(v), '__module__', None) == m.__name__ and hasattr(v, '__dict__') and isinstance(v.__dict__, dict):
                for a, w in list(v.__dict__.items()):
                    r = sub(w)
                    if r is not None:
                        v.__dict__[a] = r
                        n += 1
    for h in handlers:
        h.lock = SimRLock()
    return n


def _fix_function(f, sub):
    n = 0
    for c in f.__closure__ or ():
        try:
            r = sub(c.cell_contents)
        except ValueError:
            continue
        if r is not None:
            c.cell_contents = r
            n += 1
    if f.__defaults__ and any(sub(d) is not None for d in f.__defaults__):
        f.__defaults__ = tuple(sub(d) or d for d in f.__defaults__)
        n += 1
    return n


class _T:
    __slots__ = ('idx', 'fn', 'lock', 'done', 'pred', 'stuck', 'error', 'ident')


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, policy, traced, opcodes=False, maxsteps=3000000, stuck_after=3.0):
        self.policy = policy
        self.rng = random.Random(policy.get('seed', 0))
        self.traced = traced            # function: file name -> bool
        self.cache = {}
        self.opcodes = opcodes
        self.maxsteps = maxsteps
        self.stuck_after = stuck_after
        self.threads = []
        self.cur = None
        self.step = 0
        self.record = []                # switches made: [step, target]
        self.sig = 0
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.problem = None
        self.running = False
        kind = policy['kind']
        self.switches = dict((s, t) for s, t in policy['switches']) if kind == 'list' else None
        self.scale = policy.get('scale', 50)
        self.next = self._gap() if kind == 'random' else None
        self.salt = policy.get('salt', 0)
        self.mod = policy.get('mod', 16)
        self.p = policy.get('p', .3)
        self.hot = {}
        self.seen = {} if kind == 'rare' else None      # switch mostly at lines that were not run often yet
        self.where = set()

    def places(self):
        return sorted('%s:%s' % k if isinstance(k, tuple) else str(k) for k in self.where)

    def _gap(self):
        return self.step + 1 + int(self.rng.expovariate(1.0 / self.scale)) if self.scale > 1 else self.step + 1

    # -- called by the harness
    def spawn(self, fn):
        t = _T()
        t.idx, t.fn, t.lock, t.done, t.pred, t.stuck, t.error, t.ident = len(self.threads), fn, _thread.allocate_lock(), False, None, False, None, None
        t.lock.acquire()
        self.threads.append(t)
        return t

    def run(self):
        global SCHED
        SCHED = self
        self.running = True
        for t in self.threads:
            _thread.start_new_thread(self._boot, (t,))
        self.cur = self.policy.get('first', 0) % len(self.threads)
        self.threads[self.cur].lock.release()
        last = -1
        idle = 0.0
        while not self.finished.acquire(timeout=0.5):
            if self.step == last:
                idle += 0.5
            else:
                idle, last = 0.0, self.step
            if idle >= self.stuck_after:
                # the running thread is blocked for real (a lock this simulator does not own): let another one go on
                idle = 0.0
                t = self.threads[self.cur]
                t.stuck = True
                if not self._handover(t.idx, None):
                    break
        self.running = False
        SCHED = None
        if self.problem:
            raise Deadlock(self.problem)

    def _boot(self, t):
        t.ident = _thread.get_ident()
        t.lock.acquire()
        sys.settrace(self._trace)
        try:
            t.fn()
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            self._claim(t)
            t.done = True
            if all(x.done for x in self.threads):
                self.finished.release()
            else:
                self._handover(t.idx, None)

    # -- scheduling
    def active(self):
        return self.running and any(t.ident == _thread.get_ident() for t in self.threads)

    def me(self):
        i = _thread.get_ident()
        t = self.threads[self.cur]
        if t.ident == i:
            return t
        for t in self.threads:
            if t.ident == i:
                return t
        return None

    def _claim(self, t):
        """a thread that was blocked for real takes part again"""
        if self.cur != t.idx or t.stuck:
            t.stuck = False
            if self.cur != t.idx:
                t.lock.acquire()

    def runnable(self, but=None):
        return [t for t in self.threads if not t.done and not t.stuck and t.idx != but and (t.pred is None or t.pred())]

    def _handover(self, frm, want):
        """give the baton away; False if nobody can take it"""
        cand = self.runnable(but=frm)
        if not cand:
            me = self.threads[frm]
            if not me.done and not me.stuck and (me.pred is None or me.pred()):
                return None         # go on myself
            left = [t.idx for t in self.threads if not t.done]
            self.problem = 'deadlock: threads %s can never go on' % left
            self.finished.release()
            return False
        t = None
        if want is not None:
            t = next((c for c in cand if c.idx == want), None)
        if t is None:
            t = cand[0]
        self.cur = t.idx
        t.lock.release()
        return True

    def _switch(self, t, want):
        r = self._handover(t.idx, want)
        if r:
            t.lock.acquire()

    def point(self, key=None):
        t = self.me()
        if t is None:
            return
        if self.cur != t.idx or t.stuck:
            self._claim(t)
        self.step += 1
        if self.step > self.maxsteps:
            return
        want = None
        if self.switches is not None:
            want = self.switches.get(self.step)
        elif key == YIELD:
            want = self._choose(t)
        elif self.seen is not None:
            n = self.seen[key] = self.seen.get(key, 0) + 1
            if self.rng.random() * n < self.p:
                want = self._choose(t)
        elif self.next is not None:
            if self.step >= self.next:
                want = self._choose(t)
                self.next = self._gap()
        else:
            h = self.hot.get(key)
            if h is None:
                h = self.hot[key] = zlib.crc32(('%s/%s' % (key, self.salt)).encode()) % self.mod == 0
            if h and self.rng.random() < self.p:
                want = self._choose(t)
        if want is not None and want != t.idx:
            self.record.append([self.step, want])
            self.where.add(key)
            self.sig = zlib.crc32(('%s>%s@%s' % (t.idx, want, key)).encode(), self.sig)
            self._switch(t, want)

    def _choose(self, t):
        c = [x.idx for x in self.runnable(but=t.idx)]
        return self.rng.choice(c) if c else None

    def wait(self, pred):
        """park the calling thread until pred() holds"""
        t = self.me()
        while not pred():
            t.pred = pred
            r = self._handover(t.idx, None)
            if r:
                t.lock.acquire()
            elif r is False:
                t.lock.acquire()        # deadlock reported: park for good
            t.pred = None

    # -- tracing
    def _trace(self, frame, event, arg):
        if event != 'call':
            return None
        code = frame.f_code
        ok = self.cache.get(code)
        if ok is None:
            ok = self.cache[code] = code.co_name != '<module>' and self.traced(code.co_filename)
        if not ok:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.point((frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno))
        return self._local


def traced_files(*extra):
    import dill, pickle, warnings, pickletools
    root = os.path.dirname(os.path.abspath(dill.__file__)) + os.sep
    names = {pickle.__file__, warnings.__file__} | set(extra)
    return lambda fn: fn.startswith(root) or fn in names or fn.startswith('<thing ') or fn.startswith('<sim hook')


def gen_policy(rng, nthreads):
    kind = rng.choice(['random', 'rare', 'rare', 'hot'])
    if kind == 'rare':
        return {'kind': 'rare', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.2, .5, 1.0, 3.0]), 'first': rng.randrange(nthreads)}
    if kind == 'random':
        return {'kind': 'random', 'seed': rng.randrange(1 << 30), 'scale': rng.choice([2, 5, 15, 40, 100, 300, 800]), 'first': rng.randrange(nthreads)}
    return {'kind': 'hot', 'seed': rng.randrange(1 << 30), 'salt': rng.randrange(1 << 30), 'mod': rng.choice([8, 20, 60, 150]),
            'p': rng.choice([.1, .5, 1.0]), 'first': rng.randrange(nthreads)}
