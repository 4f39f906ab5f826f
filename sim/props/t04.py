"""T04: restored synchronisation objects have the state they were saved in and behave like the original under any schedule."""
import os, re, sys
from sim import sess
from sim.ctl import Violation
from sim.digest import diff

ID = 'T04'
RUNS = {'quick': 2500, 'thorough': 60000}
WALL = {'quick': 60, 'thorough': 720}
TECHNIQUE = 'seeded simulation of threads using an original, a saved original and its restored copy under one and the same schedule and virtual clock; the three histories must be equal'
NOTE = ('Seeded search over kinds of objects, states, ways of saving, thread programs and schedules (blocking, time-outs and deadlocks included, on a '
        'virtual clock). Threads switch between operations and where an operation waits; objects some thread waits on while they are saved are outside.')
SHRINK = ('progs', 'setup')
RULE = ('one run = an object brought into a state, saved and restored, then 1..4 threads of 1..5 operations run under one seeded schedule on an '
        'object never saved, on the saved one and on the restored one; non-trivial when an operation ran; distinct by event log')
STATES = 'distinct (kind, state when saved, transport, outcome sequence) tuples'
REAL = 'dill, threading, queue, the interpreter\'s locks'
STUB = 'the clock, the locks that Condition.wait parks threads on, the choice of the next thread'

OPS = {
    'lock': ('acq', 'acq0', 'acqt', 'rel', 'locked', 'rel'), 'rlock': ('acq', 'acq0', 'rel', 'rel', 'owned', 'acqt', 'relall'),
    'cond': ('wait', 'waitt', 'wait0', 'notify', 'notify2', 'notifyall', 'notify', 'waitraw', 'notifyraw', 'owned', 'pred', 'relall'),
    'event': ('set', 'clear', 'is_set', 'wait', 'waitt', 'wait0'),
    'sem': ('acq', 'acq0', 'acqt', 'rel', 'rel2', 'acq', 'rel', 'drain'),
    'barrier': ('wait', 'waitt', 'wait', 'wait', 'abort', 'reset', 'n_waiting', 'broken'),
    'queue': ('put', 'get', 'put0', 'get0', 'putt', 'gett', 'qsize', 'drain', 'full', 'empty', 'done', 'join', 'put', 'get'),
    'user': ('add', 'add', 'take', 'read', 'nested'),
}
KINDS = ('lock', 'rlock', 'rlock', 'cond', 'condlock', 'condshared', 'event', 'sem', 'bsem', 'barrier', 'barrieract', 'queue', 'lifo', 'prio', 'user', 'userlock')
BASE = {'condlock': 'cond', 'condshared': 'cond', 'bsem': 'sem', 'barrieract': 'barrier', 'lifo': 'queue', 'prio': 'queue', 'userlock': 'user'}
SETUP = {'lock': ('acq0', 'rel'), 'rlock': ('acq0', 'acq0', 'rel'), 'cond': ('hold', 'hold', 'unhold'), 'event': ('set', 'clear'), 'sem': ('acq0', 'rel'),
         'barrier': ('abort', 'reset'), 'queue': ('put0', 'put0', 'get0', 'done'), 'user': ('add', 'take')}


MANY = {'rlock': 'acq0', 'cond': 'hold', 'sem': 'rel', 'queue': 'put0', 'event': 'set', 'user': 'add'}


def gen(rng, tier, i):
    kind = rng.choice(KINDS)
    b = BASE.get(kind, kind)
    nt = rng.choice([1, 2, 2, 3, 4])
    setup = [rng.choice(SETUP[b]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if b in MANY and rng.random() < .2:
        setup.insert(rng.randrange(len(setup) + 1), '%s*%d' % (MANY[b], rng.choice([4, 9, 10, 11, 16, 99, 100, 127, 128, 255, 256, 1000, 2000])))
    return {'kind': kind, 'n': rng.choice([0, 1, 1, 2, 3, 3, 10, 300]), 'setup': setup,
            'progs': [[rng.choice(OPS[b]) for _ in range(rng.choice([1, 2, 3, 5]))] for _ in range(nt)],
            'sched': [rng.randrange(12) for _ in range(40)], 'via': rng.choice(['copy', 'dumps', 'module', 'process', 'process', 'twice', 'copymod', 'thread', 'savethread', 'otherthread']),
            'wrap': rng.choice(['plain', 'shared', 'attr', 'closure', 'partial']),
            'kw': {'protocol': rng.choice([None, 0, 1, 2, 3, 4, 5]), 'byref': rng.choice([None, None, True]), 'recurse': rng.choice([None, True])}}


def simplify(plan):
    for k in range(len(plan['progs'])):
        for j in range(len(plan['progs'][k])):
            p = [list(x) for x in plan['progs']]
            del p[k][j]
            yield dict(plan, progs=p)
    for key, v in (('wrap', 'plain'), ('via', 'dumps'), ('sched', [0])):
        if plan[key] != v:
            yield dict(plan, **{key: v})


def run(plan, ctl):
    args = {'plan': plan, 'role': 'whole' if plan['via'] != 'process' else 'sender'}
    r = ctl.node('A', 'work', args)
    check(r)
    if plan['via'] == 'process':
        want = r.result
        r = ctl.node('B', 'work', {'plan': plan, 'role': 'receiver'})
        check(r)
        if r.result[0] == 'raised':
            if not r.result[2]:
                raise Violation('restore', '%s in state %s: %s' % (plan['kind'], plan['setup'], r.result[1]))
        elif r.result != want:
            raise Violation('behaves-differently', explain(plan, want, r.result, 'restored in another process'))
    return {'nontrivial': any(plan['progs'])}


def check(r):
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])


def explain(plan, want, got, what):
    n = next((k for k, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
    return '%s(%d) after %s, %s: event %d of the history should be %s but is %s; before it %s' % (
        plan['kind'], plan['n'], plan['setup'] or 'nothing', what, n, want[n:n + 1], got[n:n + 1], want[max(0, n - 4):n])


# ---------------------------------------------------------------- the scheduler
class Abort(BaseException):
    pass


class Baton:
    """runs thread programs one step at a time; a step ends where the next operation begins or an operation has to wait"""

    def __init__(self, sched):
        self.sched, self.k, self.clock, self.epoch = sched or [0], 0, 0.0, 0
        self.threads, self.history = [], []

    def time(self):
        return self.clock

    def run(self, progs, step):
        import threading, _thread
        self.cv = [_thread.allocate_lock() for _ in progs]
        self.back = _thread.allocate_lock()
        self.back.acquire()
        self.state = [None] * len(progs)       # None: ready; ('lock', l, deadline) ; ('retry', epoch, deadline); 'done'
        self.abort = False
        self.woken = [None] * len(progs)
        self.me = {}
        for c in self.cv:
            c.acquire()
        ts = []

        def body(i):
            self.me[_thread.get_ident()] = i
            self.cv[i].acquire()
            try:
                for op in progs[i]:
                    if self.abort:
                        raise Abort
                    r = step(self, i, op)
                    if self.abort:
                        raise Abort
                    self.history.append([i, op, r, round(self.clock, 3)])
                    self.epoch += 1
                    self.park(i, None)
            except Abort:
                pass
            except BaseException as e:
                self.abort or self.history.append([i, 'died', type(e).__name__ + ': ' + str(e)[:100]])
            self.state[i] = 'done'
            self.epoch += 1
            self.back.release()
        threading.current_thread()
        for i in range(1, len(progs)):
            t = threading.Thread(target=body, args=(i,), daemon=True)
            t.start()
            ts.append(t)
        # thread 0 is this one; the choice of the next thread is made by whoever stops
        self.me[_thread.get_ident()] = 0
        driver = threading.Thread(target=self.drive, args=(len(progs),), daemon=True)
        self.go = _thread.allocate_lock()
        self.go.acquire()
        driver.start()
        self.go.release()
        body(0)
        driver.join()
        return self.history

    def drive(self, n):
        self.go.acquire()
        while True:
            ready = []
            for i in range(n):
                s = self.state[i]
                if s is None:
                    ready.append(i)
                elif s[0] == 'lock' and not s[1].held:
                    ready.append(i)
                elif s[0] == 'retry' and s[1] < self.epoch:
                    ready.append(i)
            if not ready:
                waiting = [(s[2], i) for i, s in enumerate(self.state) if s != 'done' and s[2] is not None]
                if waiting:
                    d, i = min(waiting)
                    self.clock = max(self.clock, d)
                    self.woken[i] = 'timeout'
                    ready = [i]
                else:
                    left = [i for i, s in enumerate(self.state) if s != 'done']
                    if not left:
                        return
                    if self.abort:
                        return
                    self.history.append(['blocked forever', left])
                    self.abort = True
                    if left[0]:
                        return              # the others are left waiting: this process ends
                    ready = left[:1]
            i = ready[self.sched[self.k % len(self.sched)] % len(ready)]
            self.k += 1
            self.state[i] = None if self.state[i] != 'done' else 'done'
            self.cv[i].release()
            self.back.acquire()

    def park(self, i, state):
        self.state[i] = state
        self.back.release()
        self.cv[i].acquire()
        if self.abort:
            raise Abort
        w, self.woken[i] = self.woken[i], None
        return w

    def this(self):
        import _thread
        return self.me[_thread.get_ident()]

    def retry(self, attempt, timeout=None):
        """a blocking operation made of attempts that do not block"""
        i = self.this()
        deadline = None if timeout is None else self.clock + timeout
        while True:
            if attempt():
                return True
            if self.park(i, ('retry', self.epoch, deadline)) == 'timeout':
                return attempt()


class Waiter:
    """what Condition.wait parks a thread on"""

    def __init__(self, baton):
        self.b, self.held = baton, False

    def acquire(self, blocking=True, timeout=-1):
        if not self.held:
            self.held = True
            return True
        if not blocking or timeout == 0:
            return False
        i = self.b.this()
        deadline = None if timeout is None or timeout < 0 else self.b.clock + timeout
        self.b.epoch += 1           # the lock of the condition is free now
        while self.held:
            if self.b.park(i, ('lock', self, deadline)) == 'timeout' and self.held:
                return False
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held = False
        self.b.epoch += 1

    def locked(self):
        return self.held

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


USER = '''
import threading
class Account:
    def __init__(self, n, lock):
        self.lock, self.n, self.log = lock, n, []
        self.more = threading.Condition(lock)
    def add(self, k=1):
        with self.lock:
            self.n += k; self.log.append(k); return self.n
    def take(self):
        with self.lock:
            if self.n <= 0: return 'empty'
            self.n -= 1; return self.n
    def nested(self):
        if not self.lock.acquire(False): return 'busy'
        try:
            got = self.lock.acquire(False)
            if got: self.lock.release()
            return got
        finally: self.lock.release()
    def read(self):
        with self.more: self.more.notify_all(); return self.n, list(self.log)
'''


def make(kind, n, ns):
    import threading, queue
    T = threading
    if kind in ('user', 'userlock'):
        exec(compile(USER, '<user>', 'exec', dont_inherit=True), ns)
        return ns['Account'](n, T.RLock() if kind == 'user' else T.Lock())
    if kind == 'condshared':
        l = T.RLock()
        c = T.Condition(l)
        c.partner = T.Condition(l)
        return c
    if kind == 'barrieract':
        exec('hits = []\ndef hit(): hits.append(1)', ns)
        return T.Barrier(max(1, n), ns['hit'], timeout=3)
    return {'lock': T.Lock, 'rlock': T.RLock, 'cond': T.Condition, 'condlock': lambda: T.Condition(T.Lock()), 'event': T.Event, 'sem': lambda: T.Semaphore(n),
            'bsem': lambda: T.BoundedSemaphore(max(1, n)), 'barrier': lambda: T.Barrier(max(1, n)), 'queue': lambda: queue.Queue(n), 'lifo': lambda: queue.LifoQueue(n),
            'prio': lambda: queue.PriorityQueue(n)}[kind]()


def operate(kind, obj, b, i, op):
    """one operation by thread i under baton b (None: setup, nothing blocks)"""
    base = BASE.get(kind, kind)
    if '*' in op:
        op, times = op.split('*')
        for _ in range(int(times) - 1):
            operate(kind, obj, b, i, op)
    try:
        if op in ('relall', 'drain'):
            k = 0
            try:
                while k < 5000:
                    if op == 'relall':
                        obj.release()
                    elif base == 'queue':
                        obj.get(False)
                    elif not obj.acquire(False):
                        return k
                    k += 1
            except (RuntimeError, ValueError) as e:
                return [k, type(e).__name__]
            except Exception as e:
                if type(e).__name__ == 'Empty':
                    return k
                raise
            return k
        if op == 'rel':
            return obj.release()
        if op == 'acq0':
            return obj.acquire(False)
        if base in ('lock', 'rlock'):
            if op == 'acq':
                return b.retry(lambda: obj.acquire(False))
            if op == 'acqt':
                return b.retry(lambda: obj.acquire(False), 2)
            if op == 'locked':
                return obj.locked()
            if op == 'owned':
                return obj._is_owned()
        elif base == 'cond':
            if op == 'hold':
                return obj.acquire(False)
            if op == 'unhold':
                return obj.release()
            if op == 'owned':
                return [obj._is_owned() if kind != 'condlock' else None, len(obj._waiters)]
            if op == 'waitraw':
                return obj.wait(0) if not obj._is_owned() else None
            if op == 'notifyraw':
                return obj.notify() if not obj._is_owned() else None
            b.retry(lambda: obj.acquire(False))
            try:
                if op == 'wait':
                    return obj.wait()
                if op == 'waitt':
                    return obj.wait(1.5)
                if op == 'wait0':
                    return obj.wait(0)
                if op == 'pred':
                    return obj.wait_for(lambda: b.clock > 1, 2)
                if op == 'notify':
                    return obj.notify()
                if op == 'notify2':
                    (obj.partner if kind == 'condshared' else obj).notify(2)
                    return
                return obj.notify_all()
            finally:
                obj.release()
        elif base == 'event':
            if op == 'wait':
                return obj.wait()
            if op == 'waitt':
                return obj.wait(1.5)
            if op == 'wait0':
                return obj.wait(0)
            return getattr(obj, op)()
        elif base == 'sem':
            if op == 'acq':
                return obj.acquire()
            if op == 'acqt':
                return obj.acquire(timeout=1.5)
            return obj.release(2)
        elif base == 'barrier':
            if op == 'wait':
                return obj.wait()
            if op == 'waitt':
                return obj.wait(1.5)
            if op in ('abort', 'reset'):
                return getattr(obj, op)()
            return getattr(obj, 'n_waiting' if op == 'n_waiting' else 'broken')
        elif base == 'queue':
            if op in ('put', 'put0', 'putt'):
                v = (i or 0) * 10 + obj.qsize()
                return obj.put(v, op != 'put0', 1.5 if op == 'putt' else None)
            if op in ('get', 'get0', 'gett'):
                return obj.get(op != 'get0', 1.5 if op == 'gett' else None)
            if op == 'done':
                return obj.task_done()
            return getattr(obj, op)()
        else:
            return getattr(obj, op)()
    except (RuntimeError, ValueError) as e:
        return [type(e).__name__, str(e)[:80]]
    except Exception as e:
        if type(e).__name__ in ('Empty', 'Full', 'BrokenBarrierError'):
            return type(e).__name__
        raise


def use(plan, obj):
    """the history of the thread programs on obj"""
    import threading, queue
    b = Baton(plan['sched'])
    first = []
    if BASE.get(plan['kind'], plan['kind']) in ('lock', 'rlock', 'cond'):
        # what it is to the thread that prepared it
        mine = obj.acquire(False)
        if mine:
            obj.release()
        first = [['first', mine]]
    old = threading._allocate_lock, threading._time, queue.time
    made = []

    def allocate():
        return Waiter(b)
    real = old[0]
    kind = plan['kind']

    def step(b, i, op):
        return operate(kind, obj, b, i, op)
    def cooperative(c):
        # a thread that wakes up waits for the lock of the condition like for anything else
        restore, lock = c._acquire_restore, c._lock

        def acquire_restore(x):
            if not b.abort:
                b.retry(lambda: lock.acquire(False))
                lock.release()
                restore(x)
        c._acquire_restore = acquire_restore
    if BASE.get(kind, kind) == 'cond':
        cooperative(obj)
        if kind == 'condshared':
            cooperative(obj.partner)
    # threads need real locks of their own, so they are made before
    orig_start = threading.Thread.start

    def start(self):
        threading._allocate_lock = real
        try:
            orig_start(self)
        finally:
            threading._allocate_lock = allocate
    threading.Thread.start = start
    threading._allocate_lock, threading._time, queue.time = allocate, b.time, b.time
    try:
        h = b.run(plan['progs'], step)
    finally:
        threading._allocate_lock, threading._time, queue.time = old
        threading.Thread.start = orig_start
    return first + [x if isinstance(x, list) else x for x in h]


def wrap(plan, obj, ns):
    w = plan['wrap']
    if w == 'plain':
        return obj
    if w == 'shared':
        return [obj, {'again': obj}]
    if w == 'attr':
        exec('class Box: pass', ns)
        b = ns['Box']()
        b.held = obj
        return b
    if w == 'closure':
        def f():
            return obj
        return f
    import functools
    return functools.partial(id, obj)


def unwrap(plan, x):
    w = plan['wrap']
    if w == 'plain':
        return x
    if w == 'shared':
        assert x[0] is x[1]['again'], 'the two references lead to different objects'
        return x[0]
    return x.held if w == 'attr' else x() if w == 'closure' else x.args[0]


def prepared(plan):
    ns = {'__name__': 'syncns', '__builtins__': __import__('builtins')}
    obj = make(plan['kind'], plan['n'], ns)
    for op in plan['setup']:
        operate(plan['kind'], obj, None, None, op)
    return obj, wrap(plan, obj, ns)


def held_by_thread(obj, seen=None):
    """whether an owned RLock is in it"""
    import threading
    todo, seen = [obj], set()
    R = type(threading.RLock())
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, R) and 'owner=0' not in repr(o):
            return True
        if isinstance(o, (list, tuple)):
            todo += list(o)
        elif isinstance(o, dict):
            todo += list(o.values())
        elif hasattr(o, '__dict__') and not isinstance(o, type):
            todo += list(vars(o).values())
    return False


def primitives(obj):
    """the locks in it"""
    import threading
    todo, seen, out = [obj], set(), []
    L, R = type(threading.Lock()), type(threading.RLock())
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (L, R)):
            out.append(o)
        elif isinstance(o, (list, tuple)):
            todo += list(o)
        elif isinstance(o, dict):
            todo += list(o.values())
        elif hasattr(o, '__dict__') and not isinstance(o, type):
            todo += list(vars(o).values())
    return out


class Watch:
    """at every line of dill the locks being saved are as they were, so that no other thread meets a lock the save has taken"""
    def __init__(self, obj):
        self.locks, self.moved = primitives(obj), None
        self.was = self.look()

    def look(self):
        return [repr(l) for l in self.locks]

    def __enter__(self):
        import dill
        root = os.path.dirname(os.path.abspath(dill.__file__)) + os.sep

        def local(frame, event, arg):
            if self.moved is None and self.look() != self.was:
                self.moved = '%s, now %s, in %s' % (self.was, self.look(), frame.f_code.co_name)
            return local
        sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(root) else None)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def work(env, plan, role):
    import dill, io, types, threading
    via, kw = plan['via'], dict(plan['kw'])
    if plan['kind'] in ('user', 'userlock') or plan['wrap'] == 'attr':
        kw['byref'] = None          # the classes can't be imported
    if role == 'receiver':
        try:
            got = unwrap(plan, dill.load(open('obj', 'rb')))
        except dill.UnpicklingError as e:
            # an owned RLock belongs to a thread that is not here
            return ['raised', str(e)[:200], 'Cannot acquire' in str(e) and os.path.exists('owned')]
        h = sess.forked(lambda: use(plan, got))
        return h[1]
    obj, whole = prepared(plan)
    want = sess.forked(lambda: use(plan, prepared(plan)[0]))
    if want[0] != 'ok':
        raise RuntimeError(want[1])
    want = want[1]
    env.state([plan['kind'], plan['setup'], via, [x[2:3] for x in want]])
    env.log('history', want)
    if any(x[0] == 'blocked forever' for x in want):
        env.count('schedule:ends blocked')
    owned = held_by_thread(obj)
    copy = None
    watch = Watch(obj)
    try:
        if via in ('copy',):
            with watch:
                copy = dill.copy(whole, **kw)
        elif via in ('dumps', 'process', 'twice', 'thread', 'savethread', 'otherthread'):
            if via in ('savethread', 'otherthread'):
                box = []
                t = threading.Thread(target=lambda: box.append(dill.dumps(whole, **kw)))
                t.start()
                t.join()
                data = box[0]
            else:
                with watch:
                    data = dill.dumps(whole, **kw)
            if via == 'process':
                open('obj', 'wb').write(data)
                owned and open('owned', 'wb').close()
            elif via in ('thread', 'otherthread'):
                box = []

                def other():
                    try:
                        box.append(dill.loads(data))
                    except Exception as e:
                        box.append(e)
                t = threading.Thread(target=other)
                t.start()
                t.join()
                if isinstance(box[0], Exception):
                    if owned and 'Cannot acquire' in str(box[0]):
                        return want
                    raise box[0]
                copy = box[0]
            else:
                copy = dill.loads(data)
                if via == 'twice':
                    copy = dill.loads(dill.dumps(copy, **kw))
        else:
            m = types.ModuleType('rtsync')
            m.__dict__['__builtins__'] = __import__('builtins')
            m.o = whole
            b = io.BytesIO()
            with watch:
                dill.dump_module(b, module=m, refimported=via == 'copymod')
            b.seek(0)
            copy = dill.load_module(b).o if via == 'copymod' else load_mod(dill, b)
        if copy is not None:
            copy = unwrap(plan, copy)
    except Exception as e:
        env.log('violation', 'save-restore', '%s in state %s by %s raised %s: %s' % (plan['kind'], plan['setup'], via, type(e).__name__, str(e)[:200]))
        return want
    if watch.moved:
        env.log('violation', 'disturbed', '%s in state %s being saved by %s was changed meanwhile: %s' % (plan['kind'], plan['setup'], via, re.sub('0x[0-9a-f]+', '', watch.moved)))
        return want
    if copy is not None:
        h = sess.forked(lambda: use(plan, copy))
        if h[0] != 'ok' or h[1] != want:
            env.log('violation', 'behaves-differently', explain(plan, want, h[1], 'restored by ' + via) if h[0] == 'ok' else h[1])
            return want
    h = sess.forked(lambda: use(plan, obj))
    if h[0] != 'ok' or h[1] != want:
        env.log('violation', 'original-changed', explain(plan, want, h[1], 'the original after being saved by ' + via) if h[0] == 'ok' else h[1])
    return want


def load_mod(dill, b):
    import types
    m2 = types.ModuleType('rtsync')
    m2.__dict__['__builtins__'] = __import__('builtins')
    dill.load_module(b, module=m2)
    return m2.o
