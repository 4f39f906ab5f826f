"""E01: the standard pickle registry while dill's types are switched in and out of it."""
import os, sys
from sim.things import THINGS
from sim.ctl import Violation, REPO
from sim.digest import diff

ID = 'E01'
RUNS = {'quick': 2500, 'thorough': 40000}
WALL = {'quick': 60, 'thorough': 720}
TECHNIQUE = 'seeded simulation of histories of extend/register/save calls (some failing half way, some in several threads under a deterministic scheduler) against a model of the two registries and a process that never imported dill'
NOTE = ('Seeded search. The registry is compared with a model; what the standard picklers write while dill is switched off is compared byte by byte with a process without dill. '
        'Functions of the user that reached the standard registry through extend() may stay in it after extend(False); lazily registered types reach it with the next extend().')
SHRINK = ('ops', 'threads', 'pre', 'switches')
RULE = ('one run = a history of 2..14 calls (extend, extend(False), register, direct changes of the standard registry, saves with dill and with the standard picklers, numpy subclasses, '
        'calls that fail at some line) or 2..4 threads of such calls under one schedule; non-trivial when extend was called in the middle; distinct by event log and switches')
STATES = 'distinct (registry state, call, thing) tuples and places of switches'
REAL = 'dill, pickle, copyreg, numpy'
STUB = 'the thread scheduler; failures inside extend (an exception raised at a chosen line)'

STOCK = ('dict', 'list', 'set', 'tuple', 'rec', 'str', 'bytes', 'bytearray', 'bigint', 'none', 'cls', 'type', 'builtin', 'func', 'lambda', 'module', 'od', 'complex', 'decimal', 'date',
         'array', 'partial', 'regex', 'method', 'weakref', 'lock', 'file', 'ns', 'enum', 'notimpl', 'ellipsis', 'nonetype', 'cell', 'code', 'mproxy', 'static', 'prop', 'range', 'slice',
         'stringio', 'ufunc', 'deque', 'exc', 'metacls', 'localinst', 'genalias', 'dictviews', 'nptype')
PLAIN = ('dict', 'list', 'set', 'tuple', 'rec', 'str', 'bytes', 'bytearray', 'bigint', 'none', 'cls', 'builtin', 'func', 'od', 'complex', 'decimal', 'date', 'array', 'partial', 'regex', 'ns', 'range', 'slice', 'deque', 'exc', 'type')
USER = ('u0', 'u1', 'u2', 'uset', 'ufset', 'uprop', 'ulock')      # the last two are types dill has functions of its own for
SKIP = {'counter', 'metaeq', 'mutualrec', 'selfclosure', 'wraps', 'cachedprop', 'newargs_ex'}


def gen(rng, tier, i):
    names = [t for t in THINGS if t not in SKIP and not THINGS[t].flags.get('main')]
    things = rng.sample(names, 3)
    late = rng.random() < .35           # dill is imported in the middle of the process' life

    def op(threaded):
        k = rng.choice(['on', 'off', 'off', 'on', 'reg', 'reg', 'direct', 'np', 'dill', 'dill', 'stock', 'stock', 'stock', 'undirect', 'failing', 'failing', 'clone'] if not threaded else
                       ['on', 'off', 'toggle', 'toggle', 'reg', 'np', 'dill', 'stock', 'stock', 'stock'])
        if k == 'reg':
            return [k, rng.choice(USER), rng.choice(['register', 'pickle']), rng.randrange(4)]
        if k in ('direct', 'undirect'):
            return [k, rng.choice(USER[:3]), rng.randrange(4)]
        if k == 'dill':
            return [k, rng.randrange(len(things)), rng.choice([None, 2, 3, 5]), rng.choice([None, True])]
        if k == 'stock':
            return [k, rng.choice(PLAIN if threaded else STOCK), rng.choice([0, 2, 4, 5]), rng.choice(['py', 'py', 'py', 'c'])]
        if k == 'toggle':
            return [k, rng.choice([2, 3, 6])]
        if k == 'failing':
            return [k, rng.random() < .5, rng.randrange(1, 130), rng.choice(['mem', 'intr'])]
        return [k, rng.randrange(3)]
    plan = {'things': things, 'late': late, 'pre': [], 'ops': [], 'threads': [], 'switches': None, 'policy': None, 'end': rng.random() < .5}
    if late:
        plan['pre'] = [[rng.choice(USER[:3] + ('udict',)), rng.randrange(4)] for _ in range(rng.choice([0, 1, 2]))]
    if rng.random() < .4:
        from sim import sched
        plan['threads'] = [[op(True) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3, 4]))]
        if not any(o[0] in ('on', 'off', 'toggle') for t in plan['threads'] for o in t):
            plan['threads'][0][0] = ['toggle', 4]
        plan['policy'] = sched.gen_policy(rng, len(plan['threads']))
    else:
        plan['ops'] = [op(False) for _ in range(rng.choice([2, 4, 6, 9, 14]))]
    return plan


def run(plan, ctl):
    plain = ctl.node('P', 'plain', {'plan': plan})
    r = ctl.node('P' if plan['late'] else 'A', 'work', {'plan': plan, 'plain': plain.result, 'repo': REPO}, timeout=60)
    for ev in r.events:
        if ev[0] == 'violation':
            v = Violation(ev[1], ev[2])
            if plan['threads'] and plan['switches'] is None:
                rec = next((e[1] for e in r.events if e[0] == 'record'), None)
                if rec is not None:
                    v.plan = dict(plan, switches=rec, policy=dict(plan['policy'], kind='list'))
            raise v
    return {'nontrivial': any(o[0] in ('on', 'off', 'toggle', 'failing') for t in plan['threads'] + [plan['ops']] for o in t), 'sig': r.result}


# ---------------------------------------------------------------- node side
class U0:
    def __init__(self, v=1): self.v = v


class U1(U0):
    pass


class U2(U0):
    pass


import _thread
TYPES = {'u0': U0, 'u1': U1, 'u2': U2, 'uset': set, 'ufset': frozenset, 'udict': dict, 'uprop': property, 'ulock': _thread.LockType}


def _u(kind, j):
    return ('rebuilt', kind, j)


def reducer(key, j):
    """a user's save function number j for the type key"""
    kind = 'set' if key in ('uset', 'ufset', 'udict') else 'inst'

    def save_user(pickler, obj):
        pickler.save_reduce(_u, (key, j), obj=obj)
    save_user.__qualname__ = 'user:%s:%d' % (key, j)
    return save_user


def stock_object(name):
    import collections, decimal, datetime, numpy, functools, re, weakref, threading, types, enum, io, operator, typing, importlib
    mk = {
        'dict': lambda: {'a': [1, 2, {'b': None}], 3: ('x',)}, 'list': lambda: [1, 2, [3]], 'set': lambda: {5}, 'tuple': lambda: (1, (2, 3), 'z'), 'str': lambda: 'h\u00e9llo', 'bytes': lambda: b'by\xfftes',
        'bytearray': lambda: bytearray(b'xyz'), 'bigint': lambda: 1 << 300, 'none': lambda: [None, True, 1.5], 'cls': lambda: U0(4), 'type': lambda: [int, dict, U0], 'builtin': lambda: len,
        'func': lambda: os.path.join, 'lambda': lambda: (lambda x: x), 'module': lambda: os, 'od': lambda: collections.OrderedDict(a=1), 'complex': lambda: 1 + 2j, 'decimal': lambda: decimal.Decimal('1.5'),
        'date': lambda: datetime.date(2020, 1, 2), 'array': lambda: numpy.arange(3), 'partial': lambda: functools.partial(int, base=2), 'regex': lambda: re.compile('a+'), 'method': lambda: [1].append,
        'weakref': lambda: weakref.ref(U0), 'lock': threading.Lock, 'file': lambda: open(os.devnull), 'ns': lambda: types.SimpleNamespace(a=1), 'enum': lambda: re.IGNORECASE, 'notimpl': lambda: NotImplemented,
        'ellipsis': lambda: ..., 'nonetype': lambda: type(None), 'cell': lambda: types.CellType(1), 'code': lambda: compile('1', 'c', 'eval'), 'mproxy': lambda: types.MappingProxyType({}),
        'static': lambda: staticmethod(len), 'prop': lambda: property(len), 'range': lambda: range(3), 'slice': lambda: slice(1, 2), 'stringio': lambda: io.StringIO('x'), 'ufunc': lambda: numpy.add,
        'deque': lambda: collections.deque([1]), 'exc': lambda: ValueError('x'), 'metacls': lambda: type('M', (type,), {})('C', (), {}), 'localinst': lambda: type('Loc', (), {})(), 'genalias': lambda: list[int],
        'dictviews': lambda: {1: 2}.keys(), 'nptype': lambda: numpy.float64}
    if name == 'rec':
        l = [1]
        l.append(l)
        return l
    return mk[name]()


def stock_dump(name, proto, how, tags=True):
    """what a standard pickler makes of an object of that kind"""
    import io, pickle, re
    o = stock_object(name)
    b = io.BytesIO()
    try:
        (pickle._Pickler if how == 'py' else pickle.Pickler)(b, proto).dump(o)
    except Exception as e:
        return ['raised', type(e).__name__, re.sub('0x[0-9a-f]+|<[^>]*>', '', str(e))[:120]]
    return ['ok', b.getvalue().hex()]


def table():
    """the standard registry, as {type: function}"""
    import pickle
    return dict(pickle._Pickler.dispatch)


def tn(t):
    return '%s.%s' % (t.__module__, t.__qualname__)


def fn(f):
    return '%s:%s' % (getattr(f, '__module__', '?'), getattr(f, '__qualname__', repr(f)))


def render(tab):
    return {tn(t): fn(f) for t, f in tab.items()}


def plain(env, plan):
    assert 'dill' not in sys.modules
    assert plan['late'] in (True, False)
    import pickle
    tab = pickle._Pickler.dispatch
    for key, j in plan['pre']:
        tab[TYPES[key]] = reducer(key, j)
    need = sorted({tuple(o[1:]) for t in plan['threads'] + [plan['ops']] for o in t if o[0] == 'stock'})
    return {'table': render(tab), 'stock': [[list(n), stock_dump(*n)] for n in need]}


class Fault(MemoryError):
    pass


class Intr(KeyboardInterrupt):
    pass


def failing(call, at, kind):
    """run call with an exception raised at its at-th traced line; -> whether it was raised"""
    root = os.path.dirname(os.path.abspath(sys.modules['dill'].__file__)) + os.sep
    left = [at]

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                raise (Fault if kind == 'mem' else Intr)('injected')
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) and frame.f_code.co_name in ('extend', '_extend', '_revert_extension') else None
    sys.settrace(glob)
    try:
        call()
    except BaseException:
        if left[0] > 0:
            raise
        return True
    finally:
        sys.settrace(None)
    return left[0] <= 0


def work(env, plan, plain, repo):
    import pickle, copyreg
    stock = pickle._Pickler.dispatch
    if plan['late']:
        assert 'dill' not in sys.modules
        for key, j in plan['pre']:
            stock[TYPES[key]] = reducer(key, j)
    before = table() if plan['late'] else None
    cr = dict(copyreg.dispatch_table)
    from sim import node
    if plan['late']:
        node.import_dill(repo)
    import dill
    from sim import world as W
    from sim.norm import norm
    D = dill.Pickler.dispatch
    orig = plain['table']
    stockref = {tuple(k): v for k, v in plain['stock']}
    touched = {}            # type name -> functions of the user that may be found there
    for key, j in plan['pre']:
        touched[tn(TYPES[key])] = {'sim.props.e01:user:%s:%d' % (key, j)}
    pre = {tn(TYPES[key]) for key, j in plan['pre']}
    problems = []

    def bad(kind, msg):
        if not problems:
            problems.append([kind, msg])

    def user(key, j):
        return 'sim.props.e01:user:%s:%d' % (key, j)

    def check_on(where):
        """right after extend(): everything dill knows is in the standard registry"""
        for t, f in list(D.items()):
            if stock.get(t) is not f:
                return bad('missing', '%s: with dill switched on, pickle has %s for %s, dill has %s' % (where, fn(stock.get(t)), tn(t), fn(f)))
        for name, f in orig.items():
            if name not in known(stock):
                return bad('lost', '%s: with dill switched on, %s is not in the standard registry' % (where, name))

    def known(tab):
        return {tn(t) for t in tab}

    def check_off(where):
        """with dill switched off, the registry is what it was before dill"""
        now = render(stock)
        for name, f in sorted(now.items()):
            if f.startswith('dill'):
                return bad('left', '%s: with dill switched off, pickle still has %s for %s' % (where, f, name))
            if name not in orig and name not in touched:
                return bad('left', '%s: with dill switched off, pickle still knows %s (%s)' % (where, name, f))
            if name in orig and f != orig[name] and f not in touched.get(name, ()):
                return bad('changed', '%s: with dill switched off, pickle has %s for %s, before dill it was %s' % (where, f, name, orig[name]))
        for name in orig:
            if name not in now:
                return bad('lost', '%s: with dill switched off, %s is missing from the standard registry' % (where, name))
        for t in [t for t in stock if getattr(stock[t], '__qualname__', '').startswith('user:')]:
            pass

    def current(t):
        return fn(stock[t]) if t in stock else None

    if render(stock) != render({**(before or {}), **stock}):
        bad('lost', 'importing dill dropped types from the standard registry')
    check_on('after import')
    basetab = {tn(t): fn(f) for t, f in D.items()}

    # the things dill saves, and what they are saved as before anything happened
    ns = {'__name__': 'sendns', '__builtins__': __import__('builtins')}
    objs = []
    for k, t in enumerate(plan['things']):
        W.install(ns, t, k + 1)
        objs.append(W.evaluate(ns, t, k + 1))
    c = copyreg
    import gc
    for v in gc.get_objects():
        if isinstance(v, type) and v.__module__ == 'sendns':
            c._slotnames(v)

    def dill_outcome(k, proto, rec):
        import re
        try:
            return ['ok', norm(dill.dumps(objs[k], protocol=proto, recurse=rec))]
        except Exception as e:
            return ['raised', type(e).__name__, re.sub('0x[0-9a-f]+', '', str(e))[:200]]
    need = sorted({(o[1], o[2] or 0, bool(o[3])) for t in plan['threads'] + [plan['ops']] for o in t if o[0] == 'dill'})
    base = {n: dill_outcome(n[0], n[1] or None, n[2] or None) for n in need}
    onref = {}
    st = {'on': True, 'exact': True, 'setreg': False}
    direct = {}             # what the user put into the standard registry himself, not overwritten since
    registered = {}         # the same in dill's

    def reference_on(key):
        if key not in onref and st['on'] and st['exact'] and not st['setreg']:
            onref[key] = stock_dump(*key)
        return onref.get(key)

    def holds_set(o):
        return True

    def np_dump(k):
        import numpy
        cls = NP[k]
        a = cls((2,))
        a[:] = 5
        a.extra = ['e', k]
        b = dill.loads(dill.dumps(a))
        if type(b) is not cls or b.extra != ['e', k] or list(b) != [5, 5]:
            bad('dill', 'a numpy subclass instance did not survive')

    def do(o, threaded=False):
        kind = o[0]
        if kind in ('on', 'off'):
            dill.extend() if kind == 'on' and o[1] else dill.extend(use_dill=kind == 'on') if o[1] == 1 else dill.extend(kind == 'on')
        elif kind == 'toggle':
            for r in range(o[1]):
                dill.extend(bool(r % 2))
        elif kind == 'reg':
            f = reducer(o[1], o[3])
            touched.setdefault(tn(TYPES[o[1]]), set()).add(user(o[1], o[3]))
            if o[2] == 'pickle':
                dill.pickle(TYPES[o[1]], f)
            else:
                if dill.register(TYPES[o[1]])(f) is not f:
                    bad('register', 'register() does not return the function')
            registered[o[1]] = o[3]
            if o[1] not in USER[:3]:
                st['setreg'] = True
        elif kind == 'np':
            np_dump(o[1] % len(NP))
        elif kind == 'dill':
            got = dill_outcome(o[1], o[2], o[3])
            want = base[(o[1], o[2] or 0, bool(o[3]))]
            if got != want and not st['setreg'] and not (pre & {'builtins.dict'}):
                bad('dill', 'dill saves %s differently (%r) than at first (%r)' % (plan['things'][o[1]], got, want))
            if got[0] != want[0]:
                bad('dill', 'dill cannot save %s any more: %r, at first %r' % (plan['things'][o[1]], got, want))
        elif kind == 'stock':
            return stock_dump(*o[1:])

    def user_dump(key):
        """a type the user registered is saved by the function registered last"""
        t = TYPES[key]
        o = _thread.allocate_lock() if key == 'ulock' else t()
        try:
            got = dill.loads(dill.dumps([o]))[0]
        except Exception as e:
            got = '%s: %s' % (type(e).__name__, e)
        if got != ('rebuilt', key, registered[key]):
            bad('registered', 'an object of a type registered with dill is saved as %r, not with the function registered last (%d)' % (got, registered[key]))

    if plan['threads']:
        return threads(env, plan, do, check_on, check_off, bad, problems, stockref, touched, stock, user_dump, registered, cr)

    for step, o in enumerate(plan['ops']):
        kind = o[0]
        where = 'after call %d (%s)' % (step + 1, ' '.join(map(str, o)))
        env.state([st['on'], kind, o[1] if kind in ('stock', 'dill', 'reg') else None])
        if kind in ('on', 'off'):
            do(o)
            st['on'], st['exact'] = kind == 'on', True
            if kind == 'on':
                for key in list(direct):
                    if TYPES[key] in D:
                        del direct[key]
                check_on(where)
            else:
                check_off(where)
            for key, j in direct.items():
                if current(TYPES[key]) != user(key, j):
                    bad('direct', '%s: what the user put into the standard registry for %s is gone (%s)' % (where, tn(TYPES[key]), current(TYPES[key])))
        elif kind == 'failing':
            hit = failing(lambda: dill.extend(o[1]), o[2], o[3])
            if hit:
                st['exact'] = False
                env.count('fault:extend interrupted at a line')
            else:
                st['exact'] = True
            st['on'] = o[1]
            # a later call puts everything right
            if o[2] % 3 == 0:
                dill.extend(o[1])
                st['exact'] = True
                (check_on if o[1] else check_off)(where + ', called again')
            elif not hit:
                (check_on if o[1] else check_off)(where)
            for key in list(direct):
                if TYPES[key] in D:
                    del direct[key]
        elif kind == 'direct':
            stock[TYPES[o[1]]] = reducer(o[1], o[2])
            touched.setdefault(tn(TYPES[o[1]]), set()).add(user(o[1], o[2]))
            direct[o[1]] = o[2]
        elif kind == 'undirect':
            if tn(TYPES[o[1]]) not in orig:
                stock.pop(TYPES[o[1]], None)
            direct.pop(o[1], None)
        elif kind == 'clone':
            import io
            sub = type('MyPickler', (dill.Pickler,), {})
            b = io.BytesIO()
            sub(b).dump([lambda: 1])
            if pickle.loads(b.getvalue())[0]() != 1:
                bad('dill', 'a subclass of dill.Pickler does not save a lambda')
        elif kind == 'stock':
            key = tuple(o[1:])
            got = stock_dump(*key)
            if not st['exact'] or touched:
                if o[1] in PLAIN and got[0] != 'ok' and not touched:
                    bad('stock', '%s: the standard pickler cannot save %s: %r' % (where, o[1], got))
                continue
            if not st['on'] or o[3] == 'c':
                if got != stockref[key]:
                    bad('stock', '%s: with dill switched %s, the standard pickler makes %r of %s, without dill %r' % (where, 'on' if st['on'] else 'off', got, o[1], stockref[key]))
            else:
                want = reference_on(key)
                if got != want:
                    bad('stock', '%s: with dill switched on, the standard pickler makes %r of %s, at first %r' % (where, got, o[1], want))
                if o[1] in PLAIN and (got[0] != 'ok' or pickle_eq(o[1], got[1], stockref[key]) is False):
                    bad('stock', '%s: with dill switched on, the standard pickler makes %r of %s, without dill %r' % (where, got, o[1], stockref[key]))
        else:
            do(o)
        for key in registered:
            user_dump(key)
        if not st['on'] and st['exact']:
            check_off(where)
        for t in list(D):
            if tn(t) in basetab and fn(D[t]) != basetab[tn(t)] and not (tn(t) in touched):
                bad('dill', '%s: dill now has %s for %s, it was %s' % (where, fn(D[t]), tn(t), basetab[tn(t)]))
        if basetab.keys() - {tn(t) for t in D}:
            bad('dill', '%s: dill lost %s' % (where, sorted(basetab.keys() - {tn(t) for t in D})))
        if dict(copyreg.dispatch_table) != cr:
            bad('copyreg', '%s: copyreg.dispatch_table changed' % where)
        if problems:
            break
        env.log('did', step, kind, len(stock))
    if not problems:
        dill.extend(plan['end'])
        (check_on if plan['end'] else check_off)('at the end')
        for o in [o for o in plan['ops'] if o[0] == 'stock']:
            if not plan['end'] and not touched and stock_dump(*o[1:]) != stockref[tuple(o[1:])]:
                bad('stock', 'at the end, with dill switched off, the standard pickler makes %r of %s' % (stock_dump(*o[1:]), o[1]))
    if problems:
        env.log('violation', *problems[0])
    return None


def pickle_eq(name, hexa, ref):
    """both pickles give the same value"""
    import pickle
    if ref[0] != 'ok':
        return None
    if hexa == ref[1]:
        return True
    a, b = pickle.loads(bytes.fromhex(hexa)), pickle.loads(bytes.fromhex(ref[1]))
    from sim.digest import Digester
    return Digester()(a) == Digester()(b)


def threads(env, plan, do, check_on, check_off, bad, problems, stockref, touched, stock, user_dump, registered, cr):
    import dill, threading, gc, copyreg
    from sim import sched
    gc.disable()
    threading.stack_size(64 << 20)
    sched.replace_locks([m for n, m in sorted(sys.modules.items()) if n == 'dill' or n.startswith('dill.')], __import__('logging').getLogger('dill').handlers)

    def body(t):
        def go():
            for o in plan['threads'][t]:
                got = do(o, True)
                if o[0] == 'stock' and not touched and (got[0] != 'ok' or pickle_eq(o[1], got[1], stockref[tuple(o[1:])]) is False):
                    bad('stock', 'while dill is switched in another thread, the standard pickler makes %r of %s; without dill %r' % (got, o[1:], stockref[tuple(o[1:])]))
        return go
    policy = dict(plan['policy'])
    if plan['switches'] is not None:
        policy.update(kind='list', switches=plan['switches'])
    s = sched.Sched(policy, sched.traced_files(__file__))
    ts = [s.spawn(body(t)) for t in range(len(plan['threads']))]
    try:
        s.run()
    except sched.Deadlock as e:
        env.log('record', s.record)
        env.log('violation', 'deadlock', str(e))
        return None
    env.tick(s.step)
    env.count('fault:thread preempted at a traced line', len(s.record))
    for p in s.places():
        env.state(p)
    for t in ts:
        if t.error is not None:
            bad('thread-failed', 'thread %d (%r) ended with %s: %s' % (t.idx, plan['threads'][t.idx], type(t.error).__name__, str(t.error)[:300]))
    switchers = [t for t in plan['threads'] if any(o[0] in ('on', 'off', 'toggle') for o in t)]
    if not problems and len(switchers) == 1 and not any(o[0] in ('reg', 'np') for t in plan['threads'] for o in t):
        last = [o for o in switchers[0] if o[0] in ('on', 'off', 'toggle')][-1]
        on = last[0] == 'on' or last[0] == 'toggle' and bool((last[1] - 1) % 2)
        (check_on if on else check_off)('after all threads finished')
    if not problems:
        dill.extend(plan['end'])
        (check_on if plan['end'] else check_off)('after all threads finished and one more extend(%s)' % plan['end'])
    if dict(copyreg.dispatch_table) != cr:
        bad('copyreg', 'copyreg.dispatch_table changed')
    if problems:
        env.log('record', s.record)
        env.log('violation', *problems[0])
    return '%d/%x' % (s.step, s.sig)


def _np():
    import numpy
    ns = {'__name__': __name__}
    out = []
    for k in range(3):
        out.append(type('NP%d' % k, (numpy.ndarray,), {'__module__': __name__, '__qualname__': 'NP%d' % k}))
    return out


try:
    NP = _np()
    NP0, NP1, NP2 = NP
except ImportError:     # the controller may run without numpy
    NP = []
