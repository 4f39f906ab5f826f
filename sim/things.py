"""The workload vocabulary: program fragments that create objects dill promises to save.

Every Thing is source text (QQ is replaced by a per-use suffix, so that names never clash):
  setup  module-level code
  obj    expression of the object, evaluated in the namespace
  step   body of a function (obj, G, k): work that changes the object's state
  probe  body of a function (obj, G): observes behaviour, returns something digestible
G is the module namespace the object lives in (in message contexts: the namespace it was made in, or
None at the receiver).  probe and step code are compiled by the simulator, outside the namespace.
flags:
  main    only meaningful when the object's module is __main__ / the saved module
  noeq    -
"""
import re as _re

THINGS = {}


class Thing:
    def __init__(self, name, setup, obj, probe='return obj', step=None, **flags):
        self.name, self.setup, self.obj, self.probe, self.step, self.flags = name, setup.strip('\n'), obj, probe, step, flags
        THINGS[name] = self


def T(name, setup, obj, probe='return obj', step=None, **flags):
    Thing(name, setup, obj, probe, step, **flags)


def sub(text, n):
    return text.replace('QQ', str(n))


# ------------------------------------------------------------ plain data, aliases, cycles
T('scalars', '''
vQQ = {'i': QQ, 'big': 10**60 + QQ, 'neg': -1, 'f': 1.5, 'nan': float('nan'), 'inf': float('-inf'), 's': 'h\\u00e9\\U0001f600QQ', 'b': b'\\x00\\xffQQ',
       'c': 1+2j, 'n': None, 't': True, 'e': Ellipsis, 'ni': NotImplemented, 'sur': '\\udc80'}
''', 'vQQ', step='obj["i"] += k; obj[k] = str(k)')
T('alias', '''
aQQ = [1, 2, QQ]
bQQ = {'x': aQQ, 'y': aQQ, 'z': (aQQ, aQQ)}
''', '[aQQ, bQQ]', 'obj[0].append("p"); return obj, obj[1]["x"] is obj[0] and obj[1]["z"][1] is obj[0]',
  step='obj[0].append(k)')
T('cycle', '''
cQQ = []
cQQ.append(cQQ); cQQ.append({'me': cQQ, 'n': QQ})
dQQ = {}; dQQ['self'] = dQQ; dQQ['t'] = (dQQ, cQQ)
''', '[cQQ, dQQ]', 'return obj, obj[0][0] is obj[0], obj[1]["t"][0] is obj[1]', step='obj[0].append(k)')
T('tuplecycle', '''
lQQ = []
tQQ = (lQQ, QQ); lQQ.append(tQQ)
''', 'tQQ', 'return obj, obj[0][0] is obj')
T('sets', '''
sQQ = {1, 'a', (2, 3), frozenset({4, QQ})}
fQQ = frozenset(['x%d' % i for i in range(20)])
''', '[sQQ, fQQ]', step='obj[0].add(("k", k))')
T('bytearray', 'baQQ = bytearray(b"abc") * 3; bbQQ = bytes(range(256)) * 2', '[baQQ, baQQ, bbQQ]',
  'obj[0].append(7); return obj, obj[0] is obj[1]', step='obj[0].extend(b"%d" % k)')
T('bigdata', 'bigQQ = [b"B" * 70000, "\\u20ac" * 30000, list(range(3000)), {i: str(i) for i in range(1500)}]', 'bigQQ',
  step='obj[2].append(k); obj[0] = obj[0] + b"k"')
T('collections', '''
import collections
dqQQ = collections.deque([1, 2, [3]], maxlen=5)
odQQ = collections.OrderedDict([('b', 1), ('a', 2)])
ctQQ = collections.Counter('hello')
cmQQ = collections.ChainMap({'a': 1}, {'b': QQ})
ddQQ = collections.defaultdict(list, {1: [2]})
''', '[dqQQ, odQQ, ctQQ, cmQQ, ddQQ]', '''
obj[0].append(9); obj[1].move_to_end('b'); obj[4]['new'].append(1); obj[3]['z'] = 5
return obj, obj[0].maxlen, list(obj[1]), obj[2].most_common(2), obj[3]['b']
''', step='obj[0].append(k); obj[2][str(k)] += 2; obj[4][k].append(k)')
T('defaultlambda', '''
import collections
ddlQQ = collections.defaultdict(lambda: ['d', QQ])
ddlQQ['x']
''', 'ddlQQ', 'return obj["nope"], obj', step='obj[k].append(k)')
T('array', 'import array\narQQ = array.array("i", [1, 2, QQ]); adQQ = array.array("d", [.5])', '[arQQ, adQQ]',
  'obj[0].append(4); return obj', step='obj[0].append(k)')
T('stdtypes', '''
import datetime, decimal, fractions, uuid, pathlib
stQQ = [datetime.datetime(2020, 1, 2, 3, 4, 5, 6, datetime.timezone.utc), datetime.date(2000, 2, 29), datetime.timedelta(1, 2, 3),
        datetime.time(1, 2), decimal.Decimal('1.10'), fractions.Fraction(QQ, 7), uuid.UUID(int=QQ), pathlib.PurePosixPath('/a/b') / 'QQ']
''', 'stQQ', 'return obj, obj[0] + obj[2], obj[4] * 2')
T('regex', 'import re\nrxQQ = re.compile("(?P<n>a+)QQ?", re.I)', 'rxQQ', 'm = obj.match("aaAQQ"); return obj, m.group("n"), m.span()')
T('random', 'import random\nrndQQ = random.Random(QQ)', 'rndQQ', 'return [obj.random() for _ in range(3)], obj.randrange(1000)',
  step='[obj.random() for _ in range(k % 5)]; obj.gauss(0, 1)')
T('iters', '''
import itertools
itQQ = iter([1, 2, 3, QQ]); next(itQQ)
rgQQ = range(QQ, QQ + 40, 3)
enQQ = enumerate('abcdef', QQ); next(enQQ)
mpQQ = map(str, [1, 2, 3, 4]); next(mpQQ)
''', '[itQQ, rgQQ, enQQ, mpQQ]', 'return next(obj[0], "end"), obj[1][2], len(obj[1]), next(obj[2], "end"), list(obj[3])',
  step='next(obj[0], None); next(obj[2], None)', noflags=1)
T('slices', 'slQQ = [slice(1, QQ, None), slice(None), Ellipsis, NotImplemented, slice("a", None, 3)]', 'slQQ',
  'return obj, list(range(10))[obj[0]]')
T('stringio', '''
import io
sioQQ = io.StringIO('hello\\nworld QQ'); sioQQ.readline()
bioQQ = io.BytesIO(b'0123456789'); bioQQ.seek(4)
''', '[sioQQ, bioQQ]', 'r = obj[0].read(), obj[1].read(2); obj[1].write(b"!"); return r, obj[1].getvalue(), obj[0].tell(), obj[1].tell()',
  step='obj[1].write(b"k")')
T('exceptions', '''
class ErrQQ(ValueError):
    def __init__(self, a, b=2):
        super().__init__(a, b)
        self.extra = [a]
exQQ = ErrQQ('boom', QQ); eyQQ = KeyError('k', 1)
''', '[exQQ, eyQQ]', '''
import pickle
try:
    raise obj[0]
except ValueError as e:
    r = type(e).__name__, e.args, e.extra, isinstance(e, ValueError)
obj[0].__traceback__ = None
return r, obj
''', step='obj[0].extra.append(k)')
T('simplens', 'import types\nsnQQ = types.SimpleNamespace(a=1, b=[QQ]); snQQ.me = snQQ.b', 'snQQ',
  'obj.b.append(1); return obj, obj.me is obj.b', step='obj.b.append(k)')

# ------------------------------------------------------------ functions
T('func', '''
def fnQQ(x, *a, y=2, **k):
    """doc QQ"""
    return (x, a, y, sorted(k.items()), QQ)
''', 'fnQQ', 'return obj(1), obj(1, 2, y=3, z=4), obj.__doc__, obj.__name__, obj.__qualname__, obj.__module__')
T('funcglobal', '''
constQQ = [QQ]
def helperQQ(x):
    return x + constQQ[0]
def usesQQ(x):
    return helperQQ(x) * 2
''', 'usesQQ', 'return obj(3), obj.__globals__["constQQ"]', step='obj.__globals__["constQQ"][0] += k')
T('counter', '''
countQQ = 0
def incQQ(by=1):
    global countQQ
    countQQ += by
    return countQQ
def getQQ():
    return countQQ
''', '(incQQ, getQQ)', 'a = obj[0](); b = obj[0](5); return a, b, obj[1](), obj[0].__globals__ is obj[1].__globals__', step='obj[0](k)')
T('mutualrec', '''
def evenQQ(n): return True if n == 0 else oddQQ(n - 1)
def oddQQ(n): return False if n == 0 else evenQQ(n - 1)
''', '[evenQQ, oddQQ]', 'return obj[0](10), obj[1](7), obj[0](3), obj[0].__globals__["oddQQ"] is obj[1]')
T('recursive', 'def factQQ(n): return 1 if n < 2 else n * factQQ(n - 1)', 'factQQ', 'return obj(10), obj.__globals__["factQQ"] is obj')
T('lambda_', 'lamQQ = lambda x, y=[QQ]: (y.append(x), list(y))[1]', 'lamQQ', 'return obj(1), obj(2), obj.__defaults__, obj.__name__', step='obj(k)')
T('closure', '''
def makeQQ(n):
    data = [n]
    def add(x):
        data.append(x)
        return sum(data)
    def get():
        return list(data)
    return add, get
addQQ, getcQQ = makeQQ(QQ)
''', '[addQQ, getcQQ]', 'return obj[0](5), obj[1](), obj[0].__closure__[0] is obj[1].__closure__[0]', step='obj[0](k)')
T('nonlocal_', '''
def mkctrQQ():
    n = QQ
    def up():
        nonlocal n
        n += 1
        return n
    def down():
        nonlocal n
        n -= 1
        return n
    return up, down
upQQ, downQQ = mkctrQQ()
''', '[upQQ, downQQ]', 'return obj[0](), obj[0](), obj[1](), obj[0].__closure__[0] is obj[1].__closure__[0]', step='obj[0]()')
T('selfclosure', '''
def mkrecQQ(base):
    def walk(n):
        return base if n == 0 else walk(n - 1) + 1
    return walk
walkQQ = mkrecQQ(QQ)
''', 'walkQQ', 'return obj(5), any(c.cell_contents is obj for c in obj.__closure__)')
T('emptycell', '''
def mkemptyQQ():
    def later(): return undefined_yet
    if 0: undefined_yet = 1
    return later
emptyQQ = mkemptyQQ()
''', 'emptyQQ', '''
try: return obj()
except NameError as e: return type(e).__name__, str(e)
''')
T('cells', '''
def mkcellQQ():
    shared = ['c', QQ]
    def f(): return shared
    def g(v):
        nonlocal shared
        shared = v
    return f, g, f.__closure__[0]
cellfQQ, cellgQQ, cellQQ = mkcellQQ()
''', '[cellfQQ, cellgQQ, cellQQ]', 'obj[1]("new"); return obj[0](), obj[2].cell_contents, obj[2] is obj[0].__closure__[0]',
  step='obj[1](["k", k])')
T('funcattrs', '''
def attredQQ(a: int = 1, *, b: 'str' = 'x') -> list:
    return [a, b, attredQQ.calls] if False else [a, b]
attredQQ.calls = [QQ]
attredQQ.tag = {'f': 'attr'}
''', 'attredQQ', 'return obj(), obj.calls, obj.tag, obj.__annotations__, obj.__kwdefaults__, obj.__defaults__', step='obj.calls.append(k)')
T('selfattr', '''
def memoQQ(x):
    memoQQ.seen[x] = memoQQ.seen.get(x, 0) + 1
    return memoQQ.seen[x]
memoQQ.seen = {}
memoQQ(QQ)
''', 'memoQQ', 'return obj(1), obj(1), obj.seen', step='obj(k)')
T('wraps', '''
import functools
def decoQQ(fn):
    @functools.wraps(fn)
    def inner(*a, **k):
        inner.n += 1
        return ['wrapped', fn(*a, **k), inner.n]
    inner.n = 0
    return inner
@decoQQ
def decoratedQQ(x):
    """deco doc"""
    return x * QQ
''', 'decoratedQQ', 'return obj(3), obj(4), obj.__name__, obj.__doc__, obj.__wrapped__(2), obj.n', step='obj(k)')
T('genfunc', '''
def genQQ(n):
    got = yield n
    while got:
        got = yield got * QQ
    return 'done'
async def coroQQ(x):
    return x + QQ
async def agenQQ(n):
    for i in range(n):
        yield i * QQ
''', '[genQQ, coroQQ, agenQQ]', '''
g = obj[0](3); a = next(g), g.send(2)
c = obj[1](4)
try: c.send(None)
except StopIteration as e: b = e.value
import inspect
return a, b, inspect.isasyncgenfunction(obj[2]), inspect.iscoroutinefunction(obj[1])
''')
T('tryexc', '''
def guardedQQ(x):
    try:
        try:
            r = 10 // x
        except ZeroDivisionError as e:
            r = type(e).__name__
        finally:
            r2 = 'fin'
        with contextmQQ() as v:
            return [r, r2, v]
    except KeyError:
        return 'key'
class contextmQQ:
    def __enter__(self): return 'entered QQ'
    def __exit__(self, *a): return False
''', 'guardedQQ', 'return obj(0), obj(3)')
T('comprehension', '''
def compQQ(n, k=QQ):
    return [[i * j * k for j in range(i)] for i in range(n)], {i: (lambda z=i: z + k)() for i in range(3)}, sum(x for x in range(n) if x % 2)
''', 'compQQ', 'return obj(4)')
T('match_', '''
def matcherQQ(v):
    match v:
        case {'a': x, **rest}: return 'map', x, rest
        case [1, *more]: return 'seq', more
        case int() | float(): return 'num', v + QQ
        case _: return 'other'
''', 'matcherQQ', 'return obj({"a": 1, "b": 2}), obj([1, 2, 3]), obj(2.5), obj("s")')
T('partial', '''
import functools
def ptargetQQ(a, b, c=0): return (a, b, c, QQ)
parQQ = functools.partial(ptargetQQ, 1, c=[3])
parQQ.note = 'n'
par2QQ = functools.partial(parQQ, 2)
parbQQ = functools.partial(int, base=2)
''', '[parQQ, par2QQ, parbQQ]', 'return obj[0](5), obj[1](), obj[2]("101"), obj[0].keywords, obj[0].note', step='obj[0].keywords["c"].append(k)')
T('lru', '''
import functools
@functools.lru_cache(maxsize=3, typed=True)
def cachedQQ(x): return [x, QQ]
@functools.cache
def cached2QQ(x): return x + 1
cachedQQ(1)
''', '[cachedQQ, cached2QQ]', '''
a = obj[0](7); b = obj[0](7)
return a, a is b, obj[0].cache_parameters(), obj[1](3), obj[1].cache_parameters()
''')
T('lambdas', 'lsQQ = [lambda x: x + QQ, lambda: lsQQ[0](1), (lambda *a, k=1, **kw: (a, k, kw))]', 'lsQQ',
  'return obj[0](1), obj[1](), obj[2](1, k=2, z=3), obj[1].__globals__["lsQQ"] is obj')
T('builtinmeth', 'bmlQQ = [3, 1, 2]\nbmQQ = [bmlQQ.append, bmlQQ.__len__, len, "abc".upper, {}.get, str.join, int.from_bytes]', '[bmlQQ, bmQQ]', '''
obj[1][0](QQ); return obj[0], obj[1][1](), obj[1][2]([1]), obj[1][3](), obj[1][5]("-", "ab"), obj[1][6](b"a", "big"), obj[1][0].__self__ is obj[0]
''', step='obj[1][0](k)')
T('getters', '''
import operator
ogQQ = [operator.itemgetter(1), operator.itemgetter(0, 2), operator.attrgetter('real'), operator.attrgetter('real', 'imag.real'),
        operator.methodcaller('split', ','), operator.add]
''', 'ogQQ', 'return obj[0]([1, 2]), obj[1]("abc"), obj[2](3j), obj[3](1+2j), obj[4]("a,b"), obj[5](1, 2)')
T('getternested', '''
import operator
class attrQQ:
    class b: c = ['deep', QQ]
agQQ = operator.attrgetter('b.c', 'b')
''', '[attrQQ, agQQ]', 'r = obj[1](obj[0]); return r[0], r[1] is obj[0].b')
T('codeobj', 'coQQ = compile("rQQ = [x * QQ for x in range(4)]", "<sim QQ>", "exec")\ncefQQ = (lambda a: a).__code__', '[coQQ, cefQQ]',
  'd = {}; exec(obj[0], d); return d["rQQ"], obj[1].co_varnames, obj[0].co_filename')
T('posonly', 'def poQQ(a, b=1, /, c=2, *, d, e=QQ): return (a, b, c, d, e)', 'poQQ',
  'import inspect; return obj(1, d=4), obj(1, 2, 3, d=4), str(inspect.signature(obj))')

# ------------------------------------------------------------ classes and instances
T('klass', '''
class KQQ:
    """class doc"""
    count = 0
    shared = []
    def __init__(self, x):
        self.x = x
        type(self).count += 1
        self.shared.append(x)
    def double(self):
        return self.x * 2
    @staticmethod
    def st(a): return ('st', a, QQ)
    @classmethod
    def cm(cls, a): return (cls.__name__, cls.count, a)
    @property
    def prop(self):
        "prop doc"
        return ['prop', self.x]
    @prop.setter
    def prop(self, v): self.x = v
    def __eq__(self, o): return type(o) is type(self) and o.x == self.x
    def __hash__(self): return hash(self.x)
    def __repr__(self): return 'K(%r)' % (self.x,)
kiQQ = [KQQ(1), KQQ('two')]
kiQQ.append(kiQQ[0])
''', '[KQQ, kiQQ]', '''
K, l = obj
l[0].prop = 'changed'
n = K(9)
return ([type(i) is K for i in l], l[2] is l[0], l[0].double(), K.st(1), K.cm(2), l[1].prop, K.count, K.shared, n.shared is K.shared, K.__doc__,
        K.prop.__doc__, len({n, K(9)}), repr(l), K.__qualname__, K.__module__)
''', step='obj[1].append(obj[0](k))')
T('inherit', '''
class BaseQQ:
    registry = {}
    def __init_subclass__(cls, tag='none', **kw):
        super().__init_subclass__(**kw)
        cls.tag = tag
    def who(self): return ['base']
class MixQQ:
    def who(self): return ['mix'] + super().who()
class ChildQQ(MixQQ, BaseQQ):
    def who(self): return ['child'] + super().who() + [__class__.__name__]
ciQQ = ChildQQ()
ciQQ.z = [ChildQQ, BaseQQ]
''', 'ciQQ', 'C = type(obj); return obj.who(), C.tag, [c.__name__ for c in C.__mro__], obj.z[0] is C, obj.z[1] in C.__bases__, isinstance(obj, obj.z[1])')
T('slots', '''
class SlQQ:
    __slots__ = ('a', 'b', '__weakref__')
    def __init__(self): self.a = [QQ]
class Sl2QQ(SlQQ):
    __slots__ = ('c', '__dict__')
slQQ_ = SlQQ(); sl2QQ = Sl2QQ(); sl2QQ.c = slQQ_; sl2QQ.dyn = 'd'
''', '[slQQ_, sl2QQ]', '''
try: obj[0].zzz = 1; r = 'no error'
except AttributeError: r = 'refused'
try: obj[0].b; r2 = 'has b'
except AttributeError: r2 = 'no b'
return r, r2, obj[0].a, obj[1].c is obj[0], obj[1].dyn, type(obj[0]).a.__get__(obj[0])
''', step='obj[0].a.append(k)')
T('meta', '''
class MetaQQ(type):
    def __new__(m, name, bases, ns, **kw):
        c = super().__new__(m, name, bases, ns)
        c.made_by = m.__name__
        return c
    def __call__(cls, *a):
        o = super().__call__(*a)
        o.via_meta = True
        return o
    @property
    def mprop(cls): return ('mprop', cls.__name__, QQ)
class MadeQQ(metaclass=MetaQQ):
    def __init__(self, v=1): self.v = v
madeQQ = MadeQQ([QQ])
''', '[MadeQQ, madeQQ]', '''
M, o = obj
return type(o) is M, type(M).__name__, M.mprop, M.made_by, o.v, o.via_meta, M(5).via_meta, M(5).v
''')
T('abc', '''
import abc
class AbsQQ(abc.ABC):
    @abc.abstractmethod
    def need(self): ...
    def have(self): return ['have', self.need()]
class ConcQQ(AbsQQ):
    def need(self): return QQ
class VirtQQ: pass
AbsQQ.register(VirtQQ)
concQQ = ConcQQ()
''', '[AbsQQ, ConcQQ, VirtQQ, concQQ]', '''
try: obj[0](); r = 'created'
except TypeError: r = 'abstract'
return r, obj[3].have(), isinstance(obj[3], obj[0]), issubclass(obj[2], obj[0]), issubclass(int, obj[0])
''')
T('dataclass', '''
import dataclasses
@dataclasses.dataclass(order=True)
class DcQQ:
    a: int
    b: list = dataclasses.field(default_factory=list, compare=False)
    c: str = 'cQQ'
@dataclasses.dataclass(frozen=True, slots=True)
class DfQQ:
    x: int
    y: tuple = ()
dcQQ = DcQQ(3, [1]); dfQQ = DfQQ(QQ, (dcQQ,)) if False else DfQQ(QQ)
''', '[DcQQ, dcQQ, DfQQ, dfQQ]', '''
import dataclasses
D, d, F, f = obj
try: f.x = 1; r = 'mutable'
except AttributeError: r = 'frozen'
n = D(3)
n.b.append(1)
return r, d < D(4), d == n, D(1).b, dataclasses.asdict(d), dataclasses.replace(d, a=9), [x.name for x in dataclasses.fields(d)], f == F(QQ), hash(f) == hash(F(QQ))
''', step='obj[1].b.append(k)')
T('namedtuple', '''
import collections, typing
NtQQ = collections.namedtuple('NtQQ', 'x y z', defaults=[QQ])
class TntQQ(typing.NamedTuple):
    a: int
    b: str = 'q'
    def both(self): return (self.a, self.b)
class SubntQQ(collections.namedtuple('SubntQQ', 'p q')):
    __slots__ = ()
    def tot(self): return self.p + self.q
RntQQ = collections.namedtuple('RntQQ', 'a def a ok', rename=True)
ntQQ = [NtQQ(1, [2]), TntQQ(QQ), SubntQQ(1, 2), RntQQ(1, 2, 3, 4)]
''', '[ntQQ, NtQQ, TntQQ, SubntQQ]', '''
l, N, T, S = obj
return l[3]._fields, l[3]._1, l[3]._replace(_2=0), type(l[3])(5, 6, 7, 8).ok, l[0].x, l[0].y, l[0].z, l[0]._replace(x=5), N._fields, N(0, 1), l[1].both(), T(3)._asdict(), l[2].tot(), type(l[0]) is N, type(l[1]) is T, type(l[2]) is S
''')
T('generic', '''
import typing
class BoxQQ(typing.Generic[typing.AnyStr]):
    def __init__(self, v): self.v = v
class SubBoxQQ(BoxQQ):
    def get(self): return ['sub', self.v]
class IntBoxQQ(BoxQQ[str]): pass
boxQQ = BoxQQ([QQ]); subQQ = SubBoxQQ(1); intQQ = IntBoxQQ(2); aliasQQ = [list[int], dict[str, list[int]], typing.Optional[int], int | str, typing.Callable[[int], str], typing.Union[int, None]]
''', '[BoxQQ, boxQQ, aliasQQ, subQQ, intQQ]', 'return obj[3].get(), obj[4].v, isinstance(obj[3], obj[0]), isinstance(obj[4], obj[0]), obj[1].v, type(obj[1]) is obj[0], obj[2], obj[0][str].__origin__ is obj[0]', noproto=1)
T('methods', '''
class McQQ:
    def __init__(self): self.log = []
    def hit(self, x): self.log.append(x); return len(self.log)
    @classmethod
    def make(cls): return cls()
mcQQ = McQQ()
bmethQQ = [mcQQ.hit, mcQQ.hit, McQQ.make, McQQ.hit]
''', '[mcQQ, bmethQQ]', '''
o, m = obj
return m[0](1), m[1](2), o.log, m[0].__self__ is o, type(m[2]()) is type(o), m[3](o, 3), m[0].__func__ is m[3]
''', step='obj[1][0](k)')
T('instattrfunc', '''
class HolderQQ: pass
hoQQ = HolderQQ()
hoQQ.cb = lambda v: (v, hoQQ.n)
hoQQ.n = QQ
hoQQ.me = hoQQ
''', 'hoQQ', 'return obj.cb(1), obj.me is obj, obj.cb.__globals__["hoQQ"] is obj', step='obj.n += k')
T('reduce', '''
class RedQQ:
    def __init__(self, a): self.a = a; self.extra = None
    def __reduce__(self): return (RedQQ, (self.a,), {'extra': [self.a, QQ]})
class GsQQ:
    def __init__(self): self.v = [QQ]; self.cache = object
    def __getstate__(self): return {'v': self.v}
    def __setstate__(self, st): self.__dict__.update(st); self.restored = self.__dict__.get('restored', 0)
class NewargsQQ(tuple):
    def __new__(cls, a, b): o = super().__new__(cls, (a, b)); o.made = (a, b); return o
    def __getnewargs__(self): return tuple(self)
redQQ = [RedQQ([1]), GsQQ(), NewargsQQ(1, 'b')]
redQQ[0].extra = [redQQ[0].a, QQ]; redQQ[1].restored = 0; del redQQ[1].cache
''', 'redQQ', 'return obj[0].a, obj[0].extra, obj[1].v, obj[2], obj[2].made, type(obj[2]).__name__', step='obj[1].v.append(k)')
T('newargs_ex', '''
class KwQQ:
    def __new__(cls, *a, k=None):
        o = super().__new__(cls); o.got = (a, k); return o
    def __getnewargs_ex__(self): return self.got[0], {'k': self.got[1]}
kwQQ = KwQQ(1, k=[QQ])
''', 'kwQQ', 'return obj.got', protomin=2)
T('subbuiltin', '''
class MyListQQ(list):
    def __init__(self, *a): super().__init__(*a); self.tag = 'tQQ'
class MyDictQQ(dict):
    def __missing__(self, k): return ('missing', k, QQ)
class MyIntQQ(int): pass
class MyStrQQ(str):
    def shout(self): return self.upper() + '!'
class MySetQQ(set): pass
sbQQ = [MyListQQ([1, 2]), MyDictQQ(a=1), MyIntQQ(5), MyStrQQ('hey'), MySetQQ([1])]
sbQQ[0].append(sbQQ); sbQQ[2].note = 'n'; sbQQ[4].note = [1]
''', 'sbQQ', 'return obj, obj[0].tag, obj[1]["zz"], obj[2] + 1, obj[2].note, obj[3].shout(), obj[0][-1] is obj, obj[4].note, [type(x).__name__ for x in obj]',
  step='obj[0].insert(0, k)')
T('descriptor', '''
class DescQQ:
    def __set_name__(self, owner, name): self.name = '_' + name; self.owner = owner.__name__
    def __get__(self, o, t=None): return self if o is None else getattr(o, self.name, ('default', QQ))
    def __set__(self, o, v): setattr(o, self.name, [v])
class UsesdQQ:
    f = DescQQ()
    g = DescQQ()
udQQ = UsesdQQ(); udQQ.f = 3
''', 'udQQ', 'r = obj.f, obj.g; obj.g = 1; C = type(obj); return r, obj.g, C.f.name, C.f.owner, obj._f', step='obj.f = k')
T('props', '''
class PqQQ:
    def _g(self): return self._v
    def _s(self, v): self._v = ('set', v)
    def _d(self): self._v = 'deleted'
    x = property(_g, _s, _d, 'the x QQ')
    y = property(fset=_s)
pqQQ = PqQQ(); pqQQ.x = QQ
''', '[PqQQ, pqQQ]', '''
P, p = obj
r = p.x; p.y = 5; r2 = p.x; del p.x
return r, r2, p.x, P.x.__doc__, P.x.fset is P.y.fset, P.y.fget
''')
T('nestedclass', '''
class OutQQ:
    class In:
        class Deep:
            v = QQ
            def up(self): return OutQQ.In.Deep.v
    def make(self): return self.In.Deep()
outQQ = OutQQ(); deepQQ = outQQ.make()
''', '[outQQ, deepQQ]', 'D = type(obj[1]); return D.__qualname__, obj[1].up(), type(obj[0]).In.Deep is D, obj[0].make().v')
T('localclass', '''
def mkclassQQ(base):
    class LocalQQ:
        b = base
        def get(self): return (self.b, base, LocalQQ.__name__)
    return LocalQQ
LcQQ = mkclassQQ([QQ]); lcQQ = LcQQ()
''', '[LcQQ, lcQQ]', 'return obj[1].get(), type(obj[1]) is obj[0], obj[0].__qualname__, obj[1].b is obj[0].b')
T('classcell', '''
class CcQQ:
    def me(self): return __class__
    def sup(self): return super().__repr__()[:4]
class Cc2QQ(CcQQ):
    def me(self): return [__class__, super().me()]
cc2QQ = Cc2QQ()
''', 'cc2QQ', 'm = obj.me(); return m[0] is type(obj), m[1] is type(obj).__bases__[0], obj.sup()')
T('super_', '''
class S1QQ:
    def f(self): return ['s1', QQ]
class S2QQ(S1QQ):
    def f(self): return ['s2']
suiQQ = S2QQ()
suQQ = [super(S2QQ, suiQQ), suiQQ]
''', 'suQQ', 'return obj[0].f(), obj[0].__self__ is obj[1], obj[0].__thisclass__ is type(obj[1])')
T('callable', '''
class CallQQ:
    def __init__(self): self.n = 0
    def __call__(self, *a): self.n += 1; return (self.n, a, QQ)
    def __getattr__(self, name):
        if name.startswith('dyn_'): return ('dyn', name)
        raise AttributeError(name)
    def __getitem__(self, k): return k
    def __len__(self): return self.n
    def __bool__(self): return False
callQQ = CallQQ()
''', 'callQQ', 'return obj(1), obj.dyn_x, obj[3], len(obj), bool(obj)', step='obj(k)')
T('cachedprop', '''
import functools
class CpQQ:
    def __init__(self): self.n = 0
    @functools.cached_property
    def cp(self): self.n += 1; return [self.n, QQ]
    @functools.partialmethod
    def nothing(self): pass
    def _two(self, a, b): return (a, b)
    half = functools.partialmethod(_two, 'h')
    @functools.singledispatchmethod
    def sd(self, a): return 'other'
cpQQ = CpQQ(); cpQQ.cp
''', 'cpQQ', 'return obj.cp, obj.n, obj.half(2)', skip_default=1)
T('dynclass', 'DynQQ = type("DynQQ", (dict,), {"v": QQ, "m": lambda self, k: self.get(k, self.v)})\ndynQQ = DynQQ(a=1)', '[DynQQ, dynQQ]',
  'return obj[1].m("a"), obj[1].m("b"), type(obj[1]) is obj[0]', step='obj[1][k] = k')
T('classattrs', '''
class CaQQ:
    table = {}
    fns = [lambda s: ('l', QQ)]
CaQQ.table['l'] = [CaQQ.fns]; CaQQ.later = lambda self: self.table
caQQ = CaQQ()
''', '[CaQQ, caQQ]', 'C, o = obj; return C.table["l"][0] is C.fns, C.fns[0](1), o.later() is C.table', step='obj[0].table[k] = [k]')
T('operators', '''
class VecQQ:
    def __init__(self, *v): self.v = list(v)
    def __add__(self, o): return VecQQ(*[a + b for a, b in zip(self.v, o.v)])
    def __matmul__(self, o): return sum(a * b for a, b in zip(self.v, o.v))
    def __iter__(self): return iter(self.v)
    def __contains__(self, x): return x in self.v
    __radd__ = __add__
veQQ = VecQQ(1, QQ)
''', 'veQQ', 'return list(obj + obj), obj @ obj, 1 in obj, type(obj + obj) is type(obj)', step='obj.v[0] += k')
T('ctxmgr', '''
import contextlib
@contextlib.contextmanager
def cmgrQQ(x):
    log = [x]
    try: yield log
    finally: log.append('out QQ')
''', 'cmgrQQ', '''
with obj(3) as l: l.append('in')
return l
''')

# ------------------------------------------------------------ weak references, views, proxies, modules, other kinds
T('weakref', '''
import weakref
class WkQQ:
    def __init__(self): self.v = [QQ]
wtQQ = WkQQ(); wrQQ = weakref.ref(wtQQ); deadQQ = weakref.ref(WkQQ())
''', '[wtQQ, wrQQ, deadQQ]', 'return obj[1]() is obj[0], obj[2]() is None', step='obj[0].v.append(k)')
T('weakproxy', '''
import weakref
class WpQQ:
    def __init__(self): self.v = [QQ]
    def __call__(self): return 'called'
wpoQQ = WpQQ(); wpQQ = weakref.proxy(wpoQQ)
''', '[wpoQQ, wpQQ]', 'obj[1].v.append("via"); return obj[0].v, obj[1]()', step='obj[0].v.append(k)')
T('dictviews', 'dvQQ = {"a": 1, "b": [QQ]}\ndvvQQ = [dvQQ.keys(), dvQQ.values(), dvQQ.items()]', '[dvQQ, dvvQQ]',
  'obj[0]["new"] = 1; return [list(v) for v in obj[1]]', step='obj[0][k] = k')
T('odviews', 'import collections\nodvQQ = collections.OrderedDict(x=1, y=QQ)\nodvvQQ = [odvQQ.keys(), odvQQ.values(), odvQQ.items()]', '[odvQQ, odvvQQ]',
  'obj[0]["new"] = 1; return [list(v) for v in obj[1]]', step='obj[0][k] = k')
T('mappingproxy', 'import types\nmpdQQ = {"a": [QQ]}\nmpxQQ = types.MappingProxyType(mpdQQ)', '[mpdQQ, mpxQQ]', '''
obj[0]["b"] = 2
try: obj[1]["c"] = 1; r = "writable"
except TypeError: r = "read-only"
return r, dict(obj[1])
''', step='obj[0][k] = k')
T('modules', 'import os.path, json, collections.abc\nimport math as mmQQ\nmodsQQ = [os, os.path, json, mmQQ]', 'modsQQ', '''
import os, json, math
return obj[0] is os, obj[1] is os.path, obj[2] is json, obj[3] is math
''')
T('usesmodule', '''
import math, json as jsQQ
from os.path import join as joinQQ
def usesmodQQ(x): return math.sqrt(x), jsQQ.dumps({'x': x}), joinQQ('a', 'QQ')
''', 'usesmodQQ', 'return obj(16)')
T('methdesc', 'mdQQ = [str.upper, list.append, int.__add__, dict.fromkeys, [].__class__, object.__init__, type(None), type(Ellipsis), type(NotImplemented)]', 'mdQQ',
  'return obj[0]("x"), obj[2](1, 2), obj[3]("ab"), obj[4] is list, obj[6] is type(None), obj')
T('getset', 'import types\ngsQQ_ = [types.FunctionType.__code__, type.__dict__["__module__"] if 0 else types.FunctionType.__globals__, property.fget]', 'gsQQ_',
  'f = lambda: 1; return obj[0].__get__(f) is f.__code__, obj[1].__get__(f) is f.__globals__, obj[2].__name__')
T('types_', 'import types\ntyQQ = [types.FunctionType, types.ModuleType, types.CodeType, types.CellType, types.MethodType, types.BuiltinFunctionType, types.GeneratorType, type(lambda: 0), types.MappingProxyType]', 'tyQQ',
  'import types; return obj[0] is types.FunctionType, obj[1] is types.ModuleType, obj[3] is types.CellType, obj[6] is types.GeneratorType')
T('stdfuncs', 'import os, json, functools\nsfQQ = [os.path.join, json.dumps, functools.reduce, print, len, os.getcwd]', 'sfQQ', '''
import os, json
return obj[0] is os.path.join, obj[1] is json.dumps, obj[3] is print
''')
T('typeddict', '''
import typing
class TdQQ(typing.TypedDict):
    a: int
tdQQ = TdQQ(a=QQ)
class ProtoQQ(typing.Protocol):
    def meth(self): ...
''', '[TdQQ, tdQQ]', 'return obj[1], obj[0].__annotations__, obj[0](a=2)')
T('context', 'import contextvars\ncvarQQ = [contextvars.Context()]', 'cvarQQ', 'return obj[0].run(lambda: 5)', optional=1)
T('numpy', '''
import numpy
npaQQ = numpy.arange(12, dtype='f4').reshape(3, 4)
npviewQQ = [npaQQ, npaQQ, numpy.float64(1.5), numpy.int8(3), numpy.dtype([('a', 'i4'), ('b', 'S3')]), numpy.array(['x', 'yy']), numpy.asfortranarray(numpy.ones((2, 3))),
            numpy.array([1, [2], 'o'], dtype=object), numpy.bool_(True), numpy.datetime64('2020-01-01')]
''', 'npviewQQ', 'obj[0][0, 0] = 99; return obj, obj[0] is obj[1], float(obj[0].sum()), type(obj[2]).__name__', step='obj[0][1, 1] += k')
T('npsub', '''
import numpy
class NdsQQ(numpy.ndarray):
    def __new__(cls, a, info=None):
        o = numpy.asarray(a).view(cls); o.info = info; return o
    def __array_finalize__(self, o): self.info = getattr(o, 'info', None)
ndsQQ = NdsQQ([1., 2., 3.], info={'k': [QQ]})
''', 'ndsQQ', 'return obj.info, type(obj).__name__, float(obj.sum()), (obj + 1).info, obj', step='obj.info["k"].append(k)')
T('npufunc', 'import numpy\nnufQQ = [numpy.sin, numpy.add, numpy.mean, numpy.float32, numpy.dtype("i8"), numpy.int16]', 'nufQQ',
  'import numpy; return obj[0] is numpy.sin, obj[2] is numpy.mean, obj[3] is numpy.float32, obj[4] == numpy.dtype("i8"), float(obj[1](1, 2))')
T('npfunc', '''
import numpy as npfQQ
matQQ = npfQQ.eye(3)
def npdoQQ(v): return (matQQ * v).trace()
''', 'npdoQQ', 'return float(obj(QQ)), obj.__globals__["matQQ"].shape', step='obj.__globals__["matQQ"][0, 0] += k')
T('locks', '''
import threading, queue
lkQQ = threading.Lock(); lk2QQ = threading.Lock(); lk2QQ.acquire()
rlkQQ = threading.RLock(); evQQ = threading.Event(); evQQ.set()
quQQ = queue.Queue(4); quQQ.put([QQ])
''', '[lkQQ, lk2QQ, rlkQQ, evQQ, quQQ]', '''
a = obj[0].acquire(False); b = obj[1].acquire(False); c = obj[2].acquire(False)
if obj[4].full(): obj[4].get()
obj[4].put(2)
return a, b, c, obj[3].is_set(), obj[4].get(), obj[4].qsize(), obj[4].maxsize
''', step='obj[4].full() or obj[4].put(k)')
T('sharedglobals', '''
cfgQQ = {'level': 0}
def setQQ(v): cfgQQ['level'] = v
def readQQ(): return cfgQQ
class UsesQQ:
    def lvl(self): return (cfgQQ['level'], QQ)
uiQQ = UsesQQ()
''', '[cfgQQ, setQQ, readQQ, uiQQ]', 'obj[1](42); return obj[2](), obj[3].lvl(), obj[2]() is obj[0]', step='obj[1](k)', main=True)
T('redefined', '''
def verQQ(): return 'old'
oldverQQ = verQQ
def verQQ(): return 'new QQ'
''', '[verQQ, oldverQQ]', 'return obj[0](), obj[1](), obj[0] is not obj[1]')
T('shadow', '''
def len(x): return ('shadowed', QQ)
def uselenQQ(x): return len(x)
shQQ = uselenQQ
del len
def lenQQ(x): return ('mine', x)
''', '[shQQ, lenQQ]', 'return obj[0]([1, 2]), obj[1](1)')
T('globalsfn', 'def gnamesQQ(): return __name__, "gnamesQQ" in globals()', 'gnamesQQ', 'return obj()', main=True)
T('evaluator', 'evxQQ = QQ\ndef evfnQQ(src): return eval(src)', 'evfnQQ', 'return obj("evxQQ + 1")', main=True)
T('importinside', '''
def impinQQ(x):
    import base64
    from textwrap import dedent
    return base64.b64encode(x), dedent('  a')
''', 'impinQQ', 'return obj(b"QQ")')
T('graph', '''
class NodeQQ:
    def __init__(self, v, parent=None):
        self.v, self.parent, self.kids = v, parent, []
        if parent is not None: parent.kids.append(self)
    def path(self): return ([] if self.parent is None else self.parent.path()) + [self.v]
rootQQ = NodeQQ('r')
leafQQ = NodeQQ('l', NodeQQ('m', rootQQ))
byvQQ = {n.v: n for n in (rootQQ, leafQQ)}
''', '[rootQQ, leafQQ, byvQQ]', 'return obj[1].path(), obj[2]["r"] is obj[0], obj[0].kids[0].kids[0] is obj[1], obj[2]["l"] is obj[1]',
  step='type(obj[0])("k%d" % k, obj[1])')
T('deepnest', '''
dnQQ = []
for _iQQ in range(60): dnQQ = [dnQQ, _iQQ]
del _iQQ
''', 'dnQQ', 'd = 0\nwhile obj: obj, d = obj[0], d + 1\nreturn d')
T('callbackreg', '''
handlersQQ = {}
def onQQ(name):
    def reg(fn):
        handlersQQ.setdefault(name, []).append(fn)
        return fn
    return reg
@onQQ('a')
def h1QQ(x): return ('h1', x)
@onQQ('a')
def h2QQ(x, seen=[]): seen.append(x); return ('h2', list(seen))
def fireQQ(name, *a): return [h(*a) for h in handlersQQ.get(name, ())]
''', '[handlersQQ, fireQQ, h1QQ]', 'return obj[1]("a", 1), obj[1]("a", 2), obj[0]["a"][0] is obj[2]', step='obj[1]("a", k)')
T('strategy', '''
import functools
pipeQQ = [functools.partial(lambda a, b: a + b, QQ), str, (lambda s: s[::-1])]
def runpipeQQ(x):
    for f in pipeQQ: x = f(x)
    return x
''', '[pipeQQ, runpipeQQ]', 'return obj[1](100), obj[0][0](1)', step='obj[0].append(lambda s, k=k: s + str(k))')
T('iterclass', '''
class CountQQ:
    def __init__(self, n): self.i, self.n = 0, n
    def __iter__(self): return self
    def __next__(self):
        if self.i >= self.n: raise StopIteration
        self.i += 1
        return self.i * QQ
icQQ = CountQQ(9); next(icQQ)
''', 'icQQ', 'return next(obj, "end"), list(obj)', step='next(obj, None)')
T('annotated', '''
xannQQ: int = QQ
yannQQ: 'list[int]' = [1]
class AnnQQ:
    a: int
    b: 'str' = 'x'
''', '[AnnQQ, yannQQ]', 'return obj[0].__annotations__, obj[0].b', step='obj[1].append(k)')
T('intern', 'k1QQ = "key_" + "QQ"\nsameQQ = [k1QQ, k1QQ]\ndkQQ = {k1QQ: 1}', '[sameQQ, dkQQ]', 'return obj[0][0] is obj[0][1], obj[1]["key_QQ"]')
T('exceptgroup', 'egQQ = ExceptionGroup("g", [ValueError(1), KeyError("QQ")])', 'egQQ', 'return [type(e).__name__ for e in obj.exceptions], obj.message')
T('zipmap', 'zmQQ = zip([1, 2, 3], "abc"); next(zmQQ)', 'zmQQ', 'return list(obj)')
T('attrcls', '''
import attr
@attr.s
class AtQQ:
    x = attr.ib(default=QQ)
    y = attr.ib(factory=list)
atQQ = AtQQ(y=[1])
''', '[AtQQ, atQQ]', 'return obj[1].x, obj[1].y, obj[0](3).y, obj[1] == obj[0](QQ, [1])', step='obj[1].y.append(k)')

# ---------------------------------------------------------------- what only a session has (sess=True: S01 only)
T('nsref', 'nsQQ = globals()', 'nsQQ', 'return obj is G, "nsQQ" in obj', main=True, sess=True)
T('nsnested', 'nhQQ = [globals(), {"g": globals()}, lambda: globals()]', 'nhQQ',
  'return obj[0] is G, obj[1]["g"] is G, obj[2]() is G', main=True, sess=True)
T('nscopy', """
class SnapQQ: _sim_opaque = True
snapQQ = SnapQQ()
snapQQ.d = {}
snapQQ.d.update(globals())
""", 'snapQQ', 'return obj.d is G, "snapQQ" in obj.d, obj.d["snapQQ"] is obj, obj.d["SnapQQ"] is SnapQQ, "lost" in obj.d',
  step='obj.d.clear(); obj.d.update(G)', main=True, sess=True)
T('coincidence', """
ciQQ, csQQ, cbQQ, ceQQ, cfQQ, ctQQ, cnQQ, crQQ = 7, 'aQQ', b'', (), False, True, None, 1.5
__import__('simconf').put(ciQQ=7, csQQ=csQQ, cbQQ=b'', ceQQ=(), cfQQ=False, ctQQ=True, cnQQ=None)
""", '[ciQQ, csQQ, cbQQ, ceQQ, cfQQ, ctQQ, cnQQ, crQQ]', 'return obj, ciQQ, csQQ, cfQQ', main=True, sess=True)
T('importedfrom', """
from simconf import helper as hlQQ, Helper as HlQQ
from simconf import helper
himQQ = [hlQQ, HlQQ, HlQQ()]
""", 'himQQ', 'return obj[0](2), obj[1] is HlQQ, type(obj[2]) is HlQQ, hlQQ is helper, obj[0] is hlQQ, HlQQ is __import__("simconf").Helper',
  main=True, sess=True)
T('selfmodule', 'import sys as smsQQ\nsmQQ = smsQQ.modules.get(__name__)\nsmlQQ = [smQQ]', 'smlQQ',
  'import sys; return obj[0] is smQQ, smQQ is sys.modules.get(G["__name__"]), smQQ is None or vars(smQQ) is G', main=True, sess=True)

import sim.things2
