"""U01: what released code wrote stays loadable while a fleet is upgraded."""
import os, sys
from sim import sess
from sim.things import THINGS
from sim.ctl import Violation
from sim.digest import diff
from sim.props import m01

ID = 'U01'
RUNS = {'quick': 1600, 'thorough': 30000}
WALL = {'quick': 70, 'thorough': 720}
TECHNIQUE = 'seeded simulation of a fleet in which processes running the released code (kept in peer/) write pickles and sessions that upgraded processes load; structural and behavioural oracle'
NOTE = ('Seeded search over objects, options, protocols, sessions and orders of messages between real processes of both versions. Only the released code of this '
        'version line under this Python is a writer (and pickles with the older module name); upgraded writers and old readers are not promised to work together.')
SHRINK = ('msgs',)
RULE = ('one run = 1..5 objects, types, file handles or locks, or one session, written by a process of the released code and loaded by a released process (to know '
        'what the release itself makes of them) and by an upgraded one, which may pass them on; non-trivial when an upgraded process loaded something; distinct by event log')
STATES = 'distinct (kind, context, protocol, options, thing) tuples loaded by the upgraded process'
REAL = 'dill under test, the released dill (peer/), pickle, interpreters of different hash seeds'
STUB = 'the transport (files)'

EXTRA = ('file r', 'file rb', 'file w', 'file r+', 'file a', 'file w+b', 'lock', 'lock held', 'rlock', 'cond', 'event', 'event set', 'sem', 'queue', 'barrier', 'module', 'runtimemodule',
         'method', 'cell', 'emptycell', 'code', 'proxydead', 'callproxydead', 'refdead', 'ellipsis', 'notimpl', 'range', 'nonetype', 'nt', 'dtype', 'ufunc', 'array', 'logger',
         'dc_missing', 'dc_kwonly', 'lru', 'lru_args', 'partial', 'super', 'getset', 'wrapper', 'slotd', 'mproxy', 'dictview', 'valview', 'itemview', 'odkeys', 'attrgetter', 'itemgetter',
         'methodcaller', 'counter', 'regex', 'sref', 'stdout', 'stringio', 'bytesio', 'abcmeta', 'generic', 'enum', 'flag', 'newtype', 'union', 'literal', 'callable', 'exc', 'prop',
         'cprop', 'static', 'classm', 'context', 'contextvar', 'typevar', 'fieldtype', 'slice', 'rlock held', 'dtypemeta', 'dtypecls', 'cmdesc', 'mdesc', 'membdesc', 'tuple0', 'tuple1', 'wref', 'wproxy', 'pyio r', 'pyio wb', 'pyio w', 'pyio r+b', 'absprop', 'missingattr', 'npbool', 'nparr2', 'ctxempty', 'devnull', 'complex', 'decimal', 'tz', 'uuid', 'path', 'deque', 'chain', 'ddict', 'od', 'userdict', 'capsule')


def gen(rng, tier, i):
    kind = rng.choice(['objects', 'objects', 'objects', 'session', 'session', 'types', 'extras', 'extras'])
    proto = rng.choice([None, None, 0, 1, 2, 3, 4, 5])
    plan = {'kind': kind, 'proto': proto, 'byref': None, 'recurse': rng.choice([None, None, True]), 'old': proto is not None and proto < 4 and rng.random() < .5,
            'clash': None, 'ignore': rng.choice([None, None, True, False]), 'on': rng.random() < .3, 'how': rng.choice(['loads', 'load', 'unpickler', 'stock'])}
    if kind == 'objects':
        ctx = plan['ctx'] = rng.choice(m01.CTX)
        plan['byref'] = rng.choice([None, True]) if ctx in ('same', 'module') else None
        if ctx == 'main':
            plan['recurse'] = True
        names = [t for t in m01.usable(ctx, [{'recurse': plan['recurse'], 'byref': plan['byref'], 'proto': proto}]) if t != 'threadobjs']
        plan['msgs'] = [[rng.choice(names), k + 1, rng.randrange(3)] for k in range(rng.choice([1, 2, 3, 5]))]
    elif kind == 'session':
        plan['mode'] = rng.choice(sess.MODES)
        plan['ref'] = rng.random() < .5
        names = [t for t in THINGS if not THINGS[t].flags.get('sess') and t not in ('counter', 'mutualrec', 'selfclosure', 'wraps', 'cachedprop', 'newargs_ex', 'threadobjs')]
        plan['msgs'] = sess.gen_things(rng, rng.choice([1, 2, 4]), names)
        plan['asdict'] = rng.random() < .3
        plan['named'] = rng.random() < .5
        plan['proto'] = rng.choice([None, None, 2, 3, 4, 5])
        plan['old'] = plan['proto'] in (2, 3) and plan['old']
    elif kind == 'types':
        plan['msgs'] = [[rng.random()] for _ in range(rng.choice([3, 10, 30]))]
    else:
        plan['msgs'] = [[rng.choice(EXTRA), rng.randrange(3)] for _ in range(rng.choice([1, 2, 4]))]
    return plan


def simplify(plan):
    for key, v in (('proto', None), ('old', False), ('on', False), ('how', 'loads'), ('ignore', None)):
        if plan[key] != v and not (key == 'proto' and plan['old']):
            yield dict(plan, **{key: v})


def run(plan, ctl):
    sess.write_module(ctl)
    if plan.get('ctx') == 'module':
        from sim.things import sub
        for t, n, k in plan['msgs']:
            with open(ctl.path('simmsg%d.py' % n), 'w') as f:
                f.write(sub(THINGS[t].setup, n) + '\n')
    r = ctl.node('O', 'writer', {'plan': plan})
    orig = r.result
    if orig == [x for x in orig if x[0] == 'refused']:
        return {'nontrivial': False}        # the release could not write any of it
    base = ctl.node('Q', 'reader', {'plan': plan, 'last': True}, may_crash=True)
    base = base.result if base.has_result else None
    loaded = 0
    for h in range(2 if plan['on'] and plan['kind'] == 'objects' and plan.get('ctx') != 'same' else 1):
        r = ctl.node('BA'[h], 'reader', {'plan': plan, 'hop': h, 'last': not (h == 0 and plan['on'])})
        for j, got in enumerate(r.result):
            was = orig[j]
            rel = base[j] if base is not None else None
            if was is None or was[0] == 'refused':
                continue            # the release could not write it
            if rel is None or rel[0] == 'raised':
                continue            # the release could not load it either: nothing is promised
            if got[0] == 'raised':
                if h:
                    continue        # what an upgraded process writes is another matter
                raise Violation('load-failed', '%s: %s %r, written by the release: %s' % (label(plan), plan['kind'], plan['msgs'][j:j + 1] or plan['msgs'], got[1]))
            loaded += 1
            for part, (a, b) in enumerate(zip(was[1], got[1])):
                if b is None:
                    continue
                c = rel[1][part]
                if b != a and b != c:
                    raise Violation('differs', '%s: %s %r, written by the release: %s' % (label(plan), plan['kind'], plan['msgs'][j:j + 1] or plan['msgs'], diff(c, b)))
    return {'nontrivial': loaded > 0}


def label(plan):
    return 'protocol %s%s%s' % (plan['proto'], ' recurse' if plan['recurse'] else '', ', historical module name' if plan['old'] else '')


# ---------------------------------------------------------------- node side
def extra(name, k):
    """one more kind of object -> (object, function observing it)"""
    import threading, queue, types, weakref, collections, io, dill, functools, operator, typing, dataclasses, decimal, fractions, re, enum, contextvars, datetime, uuid, pathlib, abc
    if name.startswith('file'):
        mode = name.split()[1]
        fn = 'file%d' % k
        if not os.path.exists(fn):
            with open(fn, 'wb') as f:
                f.write(b'one\ntwo\nthree\n' * (k + 1))
        f = open(fn, mode)
        if 'r' in mode:
            f.readline()
        else:
            f.write(b'written\n' if 'b' in mode else 'written\n')
        f.flush()
        return f
    if name.startswith('pyio'):
        import _pyio
        fn = 'file%d' % k
        with open(fn, 'wb') as f:
            f.write(b'one\ntwo\nthree\n')
        f = _pyio.open(fn, name.split()[1])
        f.readline() if 'r' in f.mode else f.write(b'x' if 'b' in f.mode else 'x')
        f.flush()
        return f
    if name == 'rlock held':
        l = threading.RLock()
        l.acquire()
        l.acquire()
        return l
    if name in ('wref', 'wproxy'):
        o = collections.UserDict(a=k)
        return [o, weakref.ref(o) if name == 'wref' else weakref.proxy(o)]
    ns = {'__name__': 'extrans', '__builtins__': __import__('builtins')}
    if name == 'abcmeta':
        exec('import abc\nclass A(abc.ABC):\n    @abc.abstractmethod\n    def m(self): pass\nclass B(A):\n    def m(self): return 5', ns)
        return [ns['A'], ns['B'], ns['B']()]
    if name == 'generic':
        exec('import typing\nT = typing.TypeVar("T")\nclass G(typing.Generic[T]):\n    def g(self): return 6', ns)
        return [ns['G'], ns['G']()]
    if name in ('enum', 'flag'):
        exec('import enum\nclass E(enum.%s):\n    A = 1\n    B = 2' % ('Enum' if name == 'enum' else 'Flag'), ns)
        return [ns['E'], ns['E'].A, ns['E'].B]
    if name in ('lru', 'lru_args'):
        exec('import functools\n@functools.lru_cache%s\ndef f(x): return x + 1' % ('(maxsize=%d, typed=True)' % (k + 3) if 'args' in name else ''), ns)
        return ns['f']
    if name in ('prop', 'static', 'classm', 'super', 'getset', 'slotd', 'cprop'):
        exec('import functools\nclass C:\n    __slots__ = ("s",)\n    @property\n    def p(self): return 1\n    @staticmethod\n    def st(): return 2\n    @classmethod\n    def cm(cls): return 3\nclass D(C):\n    @functools.cached_property\n    def cp(self): return 4', ns)
        C = ns['C']
        return {'prop': vars(C)['p'], 'static': vars(C)['st'], 'classm': vars(C)['cm'], 'super': super(ns['D'], ns['D']()), 'getset': vars(type)['__dict__'] if 0 else vars(types.FunctionType)['__code__'],
                'slotd': vars(types.FunctionType)['__globals__'], 'cprop': ns['D']}[name]
    cv = contextvars.ContextVar('cv%d' % k)
    made = {
        'lock': threading.Lock, 'rlock': threading.RLock, 'cond': threading.Condition, 'event': threading.Event, 'sem': lambda: threading.Semaphore(k), 'queue': lambda: queue.Queue(k),
        'barrier': lambda: threading.Barrier(k + 1), 'module': lambda: __import__('json'), 'runtimemodule': lambda: types.ModuleType('rtm', 'doc'), 'method': lambda: [].append,
        'cell': lambda: types.CellType(k), 'emptycell': types.CellType, 'code': lambda: compile('a = 1 + %d' % k, '<c>', 'exec'), 'ellipsis': lambda: ..., 'notimpl': lambda: NotImplemented,
        'range': lambda: range(k, 10, 2), 'nonetype': lambda: type(None), 'nt': lambda: collections.namedtuple('NT', 'a b')(1, k), 'dtype': lambda: np().dtype('f8'), 'ufunc': lambda: np().add,
        'array': lambda: np().arange(k + 2), 'logger': lambda: __import__('logging').getLogger('x.y'), 'dc_missing': lambda: dataclasses.MISSING, 'dc_kwonly': lambda: dataclasses.KW_ONLY,
        'partial': lambda: functools.partial(int, base=k + 2), 'wrapper': lambda: vars(int)['__add__'], 'mproxy': lambda: types.MappingProxyType({'a': k}), 'dictview': lambda: {1: k}.keys(),
        'valview': lambda: {1: k}.values(), 'itemview': lambda: {1: k}.items(), 'odkeys': lambda: collections.OrderedDict(a=k).keys(), 'attrgetter': lambda: operator.attrgetter('a.b'),
        'itemgetter': lambda: operator.itemgetter(1, k), 'methodcaller': lambda: operator.methodcaller('m', 1, z=k), 'counter': lambda: collections.Counter('aab'), 'regex': lambda: re.compile('a+', (0, 2, 8, 10)[k % 4]),
        'stdout': lambda: sys.__stdout__, 'stringio': lambda: io.StringIO('abc'), 'bytesio': lambda: io.BytesIO(b'abc'), 'newtype': lambda: typing.List[int], 'union': lambda: int | None,
        'literal': lambda: typing.Literal[1, 2], 'callable': lambda: typing.Callable[[int], str], 'exc': lambda: ValueError('x', k), 'context': contextvars.Context,
        'typevar': lambda: typing.Optional[int], 'fieldtype': lambda: dataclasses._FIELD, 'slice': lambda: slice(1, k), 'complex': lambda: 1 + 2j, 'decimal': lambda: decimal.Decimal('1.5'),
        'tz': lambda: datetime.timezone(datetime.timedelta(hours=k % 20)), 'uuid': lambda: uuid.UUID(int=k), 'path': lambda: pathlib.PurePosixPath('a/b'), 'deque': lambda: collections.deque([1, k], 5),
        'chain': lambda: collections.ChainMap({1: 2}, {3: k}), 'ddict': lambda: collections.defaultdict(list, {1: [k]}), 'od': lambda: collections.OrderedDict(b=1, a=k),
        'userdict': lambda: collections.UserDict(a=k), 'refdead': lambda: weakref.ref(set()), 'proxydead': lambda: weakref.proxy(set()), 'callproxydead': lambda: weakref.proxy(lambda: 0),
        'dtypemeta': lambda: type(np().dtype('f8')), 'dtypecls': lambda: np().dtype, 'cmdesc': lambda: vars(dict)['fromkeys'], 'mdesc': lambda: vars(list)['append'],
        'membdesc': lambda: vars(types.FunctionType)['__closure__'], 'tuple0': lambda: typing.Tuple[()], 'tuple1': lambda: typing.Tuple[int, typing.Any], 'absprop': lambda: abc.abstractproperty(len),
        'missingattr': lambda: dataclasses.field(default=k), 'npbool': lambda: np().bool_(True), 'nparr2': lambda: np().arange(12.)[::2].reshape(2, 3).T, 'ctxempty': lambda: contextvars.Context(),
        'devnull': lambda: open(os.devnull, 'w'),
        'sref': lambda: [weakref.ref(collections.UserDict)], 'capsule': lambda: dill._dill._testcapsule}
    if name == 'lock held':
        l = threading.Lock()
        l.acquire()
        return l
    if name == 'event set':
        e = threading.Event()
        e.set()
        return e
    if name == 'contextvar':
        return [1]
    return made[name]()


def np():
    import numpy
    return numpy


def look(name, o):
    """what can be seen of an extra"""
    import re, threading, io, weakref
    from sim.digest import Digester
    t = type(o).__name__
    out = [t]
    if name.startswith(('file', 'pyio')):
        pos = o.tell()
        o = o if hasattr(o, 'mode') else o.buffer
        out += [o.mode, pos, os.path.basename(o.name) if isinstance(o.name, str) else 'fd']
        try:
            out.append(ascii(o.read()))
        except Exception as e:
            out.append(type(e).__name__)
        o.close()
        with open(out[3], 'rb') as f:
            out.append(f.read().decode('latin-1'))
        return out
    if name == 'rlock held':
        return out + [o._is_owned(), str(o).split('object')[1].split('count')[1].split()[0]]
    if name == 'wref':
        return out + [o[1]() is o[0]]
    if name == 'wproxy':
        return out + [type(o[1]).__name__, o[1]['a']]
    if name in ('lock', 'lock held', 'rlock'):
        got = []

        def other():
            if o.acquire(False):
                got.append(1)
                o.release()
        th = threading.Thread(target=other)
        th.start()
        th.join()
        return out + [got]
    if name in ('refdead',):
        return out + [o() is None]
    if 'dead' in name:
        try:
            o.x
        except ReferenceError:
            return out + ['dead']
        except AttributeError:
            return out + ['alive']
    if name == 'sref':
        return out + [repr(o[0]()) ]
    if name == 'stdout':
        return out + [o is sys.__stdout__]
    if name in ('lru', 'lru_args'):
        return out + [o(3), o.cache_parameters()]
    if name == 'super':
        return out + [o.st(), o.p]
    if name == 'capsule':
        return out
    if name == 'emptycell':
        try:
            return out + [o.cell_contents is None]
        except ValueError:
            return out + ['empty']
    try:
        return out + [Digester(byvalue=('extrans',))(o)]
    except Exception as e:
        return out + [re.sub('0x[0-9a-f]+', '', repr(o))[:200], type(e).__name__]


def kwargs(plan):
    return {'protocol': plan['proto'], 'byref': plan['byref'], 'recurse': plan['recurse']}


def named(plan, data):
    """under the module name that releases before the package was split used"""
    return data.replace(b'cdill._dill\n', b'cdill.dill\n') if plan['old'] else data


def writer(env, plan):
    import dill
    from sim import world as W
    sys.path.insert(0, os.getcwd())
    out = []
    kind = plan['kind']
    if kind == 'session':
        mod = sess.module(plan['mode'])
        ns = vars(mod)
        sess.populate(ns, plan['msgs'])
        try:
            data = named(plan, sess.dump_to_bytes(mod, plan['mode'], plan['ref'], plan['proto']))
        except Exception as e:
            return [['refused', str(e)[:100]]]
        with open('wire0', 'wb') as f:
            f.write(data)
        if plan['asdict']:
            return [['ok', [None, ['ok', sorted(k for k in ns if not k.startswith('__'))]]]]
        return [['ok', [sess.digest_ns(ns, plan['mode']), sess.probes(ns, plan['mode'], plan['msgs'])]]]
    if kind == 'types':
        tm = dill._dill._reverse_typemap
        names = sorted(tm)
        objs = [tm[names[int(m[0] * len(names))]] for m in plan['msgs']]
    elif kind == 'extras':
        objs = [extra(name, 10 * j + k) for j, (name, k) in enumerate(plan['msgs'])]
    else:
        objs = [m01.make(plan['ctx'], t, n, k, W) for t, n, k in plan['msgs']]
    for j, o in enumerate(objs):
        kw = kwargs(plan)
        if kind == 'extras' and plan['msgs'][j][0].startswith('file'):
            kw['fmode'] = plan['msgs'][j][1]
        try:
            data = named(plan, dill.dumps(o, **kw))
        except Exception as e:
            out.append(['refused', str(e)[:100]])
            continue
        with open('wire0.%d' % j, 'wb') as f:
            f.write(data)
        if kind == 'types':
            out.append(['ok', [repr(o)]])
        elif kind == 'extras':
            s = snap()
            r = sess.forked(lambda: look(plan['msgs'][j][0], o))
            unsnap(s)
            out.append(['ok', [r]])
        else:
            t, n, k = plan['msgs'][j]
            out.append(['ok', m01.observe(t, n, o, W)])
    return out


def snap():
    return {n: open(n, 'rb').read() for n in os.listdir('.') if n.startswith('file')}


def unsnap(s):
    for n, d in s.items():
        with open(n, 'wb') as f:
            f.write(d)


def reader(env, plan, last=True, hop=0):
    import dill, io, pickle
    from sim import world as W
    sys.path.insert(0, os.getcwd())
    kind = plan['kind']
    out = []
    if kind == 'session':
        try:
            name = {'module': sess.NAME[plan['mode']]} if plan['named'] and plan['mode'] != 'runtime' else {}
            if plan['asdict']:
                if plan['mode'] in ('import', 'sub'):
                    sess.module(plan['mode'])
                ns = dill.load_module_asdict(open('wire0', 'rb'))
                return [['ok', [None, sess.forked(lambda: sorted(k for k in ns if not k.startswith('__')))]]]
            mod = dill.load_module(open('wire0', 'rb'), **name)
            mod = sess.module(plan['mode']) if plan['mode'] != 'runtime' else mod
        except Exception as e:
            return [['raised', '%s: %s' % (type(e).__name__, str(e)[:300])]]
        ns = vars(mod)
        env.state(['session', plan['mode'], plan['ref'], plan['proto'], sorted({m[0] for m in plan['msgs']})])
        return [['ok', [sess.digest_ns(ns, plan['mode']), sess.probes(ns, plan['mode'], plan['msgs'])]]]
    if kind == 'objects' and plan['ctx'] == 'same':
        for t, n, k in plan['msgs']:
            m01.make('same', t, n, k, W)
    for j, m in enumerate(plan['msgs']):
        path = 'wire%d.%d' % (hop, j)
        if not os.path.exists(path):
            out.append(['raised', 'not written'])
            continue
        lk = {} if plan['ignore'] is None else {'ignore': plan['ignore']}
        s = snap() if kind == 'extras' else {}
        try:
            with open(path, 'rb') as f:
                data = f.read()
            if plan['how'] == 'loads':
                o = dill.loads(data, **lk)
            elif plan['how'] == 'load':
                o = dill.load(io.BytesIO(data), **lk)
            elif plan['how'] == 'unpickler' or plan['old']:
                o = dill.Unpickler(io.BytesIO(data), **lk).load()
            else:
                o = pickle.loads(data)
            if kind == 'types':
                got = [repr(o)]
            elif kind == 'extras':
                got = [sess.forked(lambda: look(m[0], o))]
            else:
                got = m01.observe(m[0], m[1], o, W)
        except Exception as e:
            out.append(['raised', '%s: %s' % (type(e).__name__, str(e)[:300])])
            continue
        finally:
            unsnap(s)
        out.append(['ok', got if plan.get('ctx') not in ('same', 'module') else [None, got[1]]])
        env.state([kind, plan.get('ctx'), plan['proto'], plan['byref'], plan['recurse'], plan['old'], m[:1]])
        env.log('loaded', j, hop)
        if not last:
            with open('wire1.%d' % j, 'wb') as f:
                f.write(dill.dumps(o, **kwargs(plan)))
    return out
