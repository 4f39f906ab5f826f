"""More kinds of objects."""
from sim.things import T

# ---------------------------------------------------------------- slots and attributes of classes
T('slotstr', """
class SsQQ:
    __slots__ = 'name'
    def __init__(self, v): self.name = v
ssQQ = SsQQ([QQ])
""", '[SsQQ, ssQQ]', 'obj[1].name.append(1); r = obj[1].name; o = obj[0](5); o.name = 6; return r, o.name, hasattr(o, "__dict__"), type(obj[1]) is obj[0]', step='obj[1].name.append(k)', proto2=1)
T('slotpriv', """
class SpQQ:
    __slots__ = ('__a', '_b', '__dict__', '__weakref__')
    def __init__(self, v): self.__a = v; self._b = QQ; self.free = 1
    def get(self): return self.__a
spQQ = SpQQ([QQ])
""", '[SpQQ, spQQ]', 'import weakref; o = obj[0](5); o.x = 1; return obj[1].get(), obj[1]._b, obj[1].free, o.get(), weakref.ref(o)() is o, vars(o)', proto2=1)
T('slotdict', """
class SdBaseQQ:
    __slots__ = ()
    def both(self): return self.a, self.b
class SdQQ(SdBaseQQ):
    __slots__ = {'a': 'the a', 'b': 'the b'}
    def __init__(self, *v): self.a, self.b = v
sdQQ = SdQQ(1, [QQ])
""", 'sdQQ', 'o = type(obj)(3, 4); return obj.both(), o.both(), sorted(type(obj).__slots__), hasattr(o, "__dict__")', step='obj.b.append(k)', proto2=1)
T('pickdiamond', """
class PdaQQ:
    def f(self): return 'a', QQ
    def g(self): return 'ag'
class Pd1QQ(PdaQQ): pass
class Pd2QQ:
    def f(self): return '2'
    def g(self): return '2g'
class PdQQ(Pd1QQ, Pd2QQ):
    f = Pd2QQ.f
class PdxQQ(PdQQ):
    f = PdaQQ.f
    g = Pd2QQ.g
pdQQ = [PdQQ(), PdxQQ()]
""", 'pdQQ', 'return obj[0].f(), obj[0].g(), obj[1].f(), obj[1].g(), [c.__name__[:3] for c in type(obj[1]).__mro__]')
T('typing_', """
import typing, collections.abc
tgQQ = [typing.List, typing.List[int], typing.Tuple[()], typing.Tuple[int, ...], typing.Callable[[int], str], typing.Optional[int], typing.Literal['a', QQ],
        typing.Annotated[int, 'QQ'], typing.Union[int, str], typing.Any, typing.ClassVar[int], collections.abc.Callable[[int], str], list[int], int | str, typing.Type[int], typing.Dict[str, typing.List[int]]]
""", 'tgQQ', 'import typing; return [repr(x) for x in obj], obj[0] is typing.List, obj[1] == typing.List[int], obj[12](("1",)), obj[9] is typing.Any')
T('builtinbound', """
biQQ = [[3, 1].append, 'x'.join, dict.fromkeys, int.from_bytes, (1).__add__, 'abc'.__len__, str.maketrans, {'a': [QQ]}.get, object.__new__, list.__init__, (5).bit_length]
""", 'biQQ', 'return obj[1](["a", "b"]), obj[2]("ab"), obj[3](b"a", "big"), obj[4](2), obj[5](), obj[6]("a", "b"), obj[7]("a"), obj[10](), obj[0](1), obj[0].__self__', step='obj[0](k)')
T('itertools_', """
import itertools
ituQQ = [itertools.count(QQ, 2), itertools.cycle('abc'), itertools.chain([1], [2, QQ]), itertools.islice(range(10), 2, 8), itertools.repeat('x', 3)]
next(ituQQ[0]); next(ituQQ[1]); next(ituQQ[2])
""", 'ituQQ', 'return next(obj[0]), next(obj[1]), list(obj[2]), list(obj[3]), list(obj[4])', step='next(obj[0])')
T('dispatch', """
import functools
@functools.singledispatch
def sdfQQ(x): return 'any', QQ
@sdfQQ.register(int)
def sdiQQ(x): return 'int', x
@sdfQQ.register
def sdsQQ(x: str): return 'str', x
""", '[sdiQQ, sdsQQ]', 'return obj[0](1), obj[1]("a")')
T('partials', """
import functools, operator
class PmQQ:
    def base(self, a, b=0): return (a, b, QQ)
    five = functools.partialmethod(base, 5, b=6)
paQQ = [functools.partial(int, base=2), functools.partial(functools.partial(max, 3), 5), PmQQ(), functools.partial(PmQQ.base, None, b=[QQ]),
        operator.itemgetter(1, 0), operator.attrgetter('real', 'imag'), operator.methodcaller('upper')]
""", 'paQQ', 'return obj[0]("101"), obj[1](4), obj[2].five(), obj[3](1), obj[4]("ab"), obj[5](1j), obj[6]("a")')
T('clsobjs', """
class CoQQ:
    v = [QQ]
    @staticmethod
    def st(x): return ('st', x)
    @classmethod
    def cm(cls, x): return (cls.__name__, x, cls.v)
    @property
    def pr(self): return self.v
    @pr.setter
    def pr(self, x): self.v = x
    @pr.deleter
    def pr(self): self.v = 'deleted'
    pr2 = property(lambda self: 'pr2', None, None, 'doc QQ')
coQQ = [CoQQ, CoQQ.__dict__['st'], CoQQ.__dict__['cm'], CoQQ.__dict__['pr'], CoQQ.__dict__['pr2'], CoQQ.cm, CoQQ().cm, CoQQ.st]
""", 'coQQ', """
o = obj[0](); o.pr = 1; a = o.pr; del o.pr
return obj[0].st(1), obj[0].cm(2), a, o.pr, o.pr2, obj[5](3), obj[6](4), obj[7](5), obj[4].__doc__, obj[3].fset is not None, obj[2].__func__.__name__, obj[1].__func__(9), obj[3].fget(o)
""")
T('excchain', """
class ExQQ(Exception):
    def __init__(self, a, *, b=None): super().__init__(a); self.b = b
def raiserQQ():
    raise ExQQ('x', b=[QQ])
try: raiserQQ()
except ExQQ as e: excQQ = e.with_traceback(None)
excQQ.add_note('note QQ')
oseQQ = OSError(2, 'msg', 'file'); uniQQ = UnicodeDecodeError('utf-8', b'x', 0, 1, 'why'); stopQQ = StopIteration(QQ); sexQQ = SystemExit(3); synQQ = SyntaxError('m', ('f', 1, 2, 't'))
""", '[excQQ, oseQQ, uniQQ, stopQQ, sexQQ, synQQ]', """
return str(obj[0]), obj[0].b, obj[0].__notes__, type(obj[1]).__name__, obj[1].errno, obj[1].filename, obj[2].reason, obj[3].value, obj[4].code, obj[5].lineno, obj[5].filename
""")
T('sharednonlocal', """
def mkaccQQ():
    total, log = QQ, []
    def add(x):
        nonlocal total
        total += x; log.append(x); return total
    def get(): return total, list(log)
    class Acc:
        def both(self): return add(1), get()
    return add, get, Acc
""", 'mkaccQQ()', 'a = obj[0](5); return a, obj[1](), obj[2]().both(), obj[1]()', step='obj[0](k)', localcls=1)
T('coroutines', """
import asyncio
async def coQQ_(x): return x + QQ
async def agQQ(n):
    for i in range(n): yield i * QQ
class ActxQQ:
    async def __aenter__(self): return QQ
    async def __aexit__(self, *a): return True
""", '[coQQ_, agQQ, ActxQQ]', """
def drive(c):
    try: c.send(None)
    except StopIteration as e: return e.value
async def all_():
    async with obj[2]() as q: pass
    return [x async for x in obj[1](3)], q
return drive(obj[0](1)), drive(all_())
""")
T('defaults', """
sharedQQ = [QQ]
def dfaQQ(a, b=sharedQQ, *, c=sharedQQ, d={'k': sharedQQ}): b.append(a); return b, c is b, d['k'] is b
def dfbQQ(b=sharedQQ): return b
""", '[dfaQQ, dfbQQ, sharedQQ]', 'return obj[0](1), obj[1]() is obj[2], obj[0](2)', step='obj[2].append(k)', nomod=1)
T('renamed', """
def oldnameQQ(x): "doc QQ"; return x, QQ
oldnameQQ.__name__ = 'other'; oldnameQQ.__qualname__ = 'A.other'; oldnameQQ.__doc__ = ''; oldnameQQ.__annotations__ = {'x': int, 'return': [QQ]}
def nodocQQ(): "doc"
nodocQQ.__doc__ = None
nodocQQ.__defaults__ = None
def modQQ_(): return __name__
modQQ_.__module__ = 'else.where'
modQQ_.extra = {'a': [QQ]}
""", '[oldnameQQ, nodocQQ, modQQ_]', 'f = obj[0]; return f(1), f.__name__, f.__qualname__, f.__doc__, f.__annotations__, obj[1].__doc__, obj[2].__module__, obj[2].extra')
T('clsspecial', """
class CkwQQ:
    'doc QQ'
    x: int = QQ
    y: 'str'
    def __init_subclass__(cls, **kw): cls.kw = sorted(kw); super().__init_subclass__()
    def __class_getitem__(cls, item): return (cls.__name__, item)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return 'dyn ' + n
    def __eq__(self, o): return type(self) is type(o)
    __hash__ = None
    def __bool__(self): return False
    def __len__(self): return 0
ckQQ = CkwQQ()
ckQQ.me = ckQQ
""", '[CkwQQ, ckQQ]', """
try: hash(obj[1]); r = 'hashable'
except TypeError: r = 'unhashable'
return obj[0].__doc__, obj[0].__qualname__, obj[0].__annotations__, obj[0][3], obj[1].foo, obj[1].me is obj[1], r, bool(obj[1]), obj[1] == obj[0]()
""")
T('deepclosure', """
def l1QQ(a):
    def l2(b):
        c = [a, b]
        def l3(d, _e=c):
            c.append(d)
            return a, b, c, _e is c, (lambda: (a, c))()[1] is c
        return l3
    return l2
dcQQ = l1QQ(QQ)(2)
""", 'dcQQ', 'return obj(1), obj(2)', step='obj(k)')
T('genexprfn', """
def gexQQ(xs, *, key=lambda v: -v):
    return sorted((x for x in xs if x), key=key), {k: [v for v in range(k)] for k in xs}, [*map(lambda v: v * QQ, xs)]
""", 'gexQQ', 'return obj([3, 1, 2])')
T('loggers', """
import logging
fmQQ = logging.Formatter('%(message)s QQ')
rcQQ = logging.makeLogRecord(dict(msg='msg %s', args=('x',), created=1.5, msecs=2.0, relativeCreated=3.0, thread=1, process=2, threadName='t', processName='p', taskName=None))
""", '[rcQQ, fmQQ]', 'return obj[0].getMessage(), obj[1].format(obj[0])')
T('threadobjs', """
import threading
cdQQ = threading.Condition(); smQQ_ = threading.BoundedSemaphore(2); smQQ_.acquire(); baQQ_ = threading.Barrier(2)
""", '[cdQQ, smQQ_, baQQ_]', """
with obj[0]: obj[0].notify_all()
a, b = obj[1].acquire(False), obj[1].acquire(False)
return a, b, obj[2].parties, obj[2].n_waiting, obj[2].broken
""")
T('npmore', """
import numpy
npmQQ = [numpy.ones(3), numpy.rec.array([(1, 'a')], dtype=[('i', 'i4'), ('s', 'U2')]), numpy.matrix([[1, 2]]), numpy.zeros((0, 3)),
         numpy.array(QQ), numpy.arange(6), numpy.dtype('f4').type, numpy.vectorize(lambda v: v + QQ), numpy.poly1d([1, QQ])]
class NfQQ:
    def __init__(self): self.data = numpy.ones(3); self.fn = numpy.sum
npoQQ = NfQQ()
""", '[npmQQ, npoQQ]', """
a = obj[0]
return a[0].tolist(), a[1].s.tolist(), a[2].shape, a[3].shape, int(a[4]), a[5].tolist(), a[6].__name__, a[7]([1, 2]).tolist(), a[8](2), float(obj[1].fn(obj[1].data))
""", step='obj[1].data[0] += k')
T('sentinels', """
import dataclasses, inspect, types, unittest.mock
seQQ = [dataclasses.MISSING, dataclasses.KW_ONLY, inspect.Parameter.empty, dataclasses.field(default=QQ, metadata={'a': 1}), type(dataclasses.MISSING), dataclasses._FIELD]
""", 'seQQ', 'import dataclasses, inspect; return obj[0] is dataclasses.MISSING, obj[1] is dataclasses.KW_ONLY, obj[2] is inspect.Parameter.empty, obj[3].default, dict(obj[3].metadata), obj[5] is dataclasses._FIELD', proto2=1)
T('dcmore', """
import dataclasses, typing
@dataclasses.dataclass
class DkQQ:
    a: int
    _: dataclasses.KW_ONLY
    b: list = dataclasses.field(default_factory=list)
    c: typing.ClassVar[int] = QQ
    d: dataclasses.InitVar[int] = 3
    e: int = dataclasses.field(init=False, repr=False)
    def __post_init__(self, d): self.e = d + self.a
@dataclasses.dataclass
class Dk2QQ(DkQQ):
    f: str = 'f'
dkQQ = [DkQQ(1), Dk2QQ(2, b=[QQ]), DkQQ, Dk2QQ]
""", 'dkQQ', """
import dataclasses
return repr(obj[0]), repr(obj[1]), obj[3](5, 'x', d=9).e, [f.name for f in dataclasses.fields(obj[3])], dataclasses.replace(obj[1], d=1).e, dataclasses.asdict(obj[0]), obj[0] == obj[2](1), obj[0].b is not obj[2](1).b
""", step='obj[1].b.append(k)', proto2=1)
T('ntmore', """
import collections, typing
NtdQQ = collections.namedtuple('NtdQQ', 'x y z', defaults=[2, [QQ]])
NtrQQ = collections.namedtuple('NtrQQ', 'def class ok', rename=True)
class NtcQQ(typing.NamedTuple):
    'doc QQ'
    a: int
    b: list = []
    def both(self): return self.a, self.b
    @property
    def twice(self): return self.a * 2
ntmQQ = [NtdQQ(1), NtrQQ(1, 2, 3), NtcQQ(QQ), NtdQQ, NtcQQ]
""", 'ntmQQ', 'return obj[0], obj[0].z, obj[3](5), obj[1]._fields, obj[2].both(), obj[2].twice, obj[4](1, [2]), obj[4].__doc__, obj[3]._field_defaults, obj[2]._asdict(), obj[4].__annotations__ == {"a": int, "b": list}', step='obj[0].z.append(k)', nomod=1)
T('callablecls', """
class CcallQQ:
    def __init__(self, n): self.n = n; self.calls = []
    def __call__(self, *a, **k): self.calls.append(a); return len(self.calls), self.n
    def __get__(self, o, t=None): return self if o is None else ('bound', self)
class UsesccQQ:
    hook = CcallQQ(QQ)
ccQQ_ = [CcallQQ(1), UsesccQQ, [CcallQQ(3).__call__]]
""", 'ccQQ_', 'return obj[0](1), obj[1].hook(2), obj[1]().hook[0], obj[2][0]()', step='obj[0](k)')
T('capsule', 'import datetime\ncpQQ = datetime.datetime_CAPI', 'cpQQ', 'import datetime; return obj is datetime.datetime_CAPI')
T('metaprep', """
class MpQQ(type):
    order = []
    def __new__(m, name, bases, ns, **kw): return super().__new__(m, name, bases, dict(ns))
    def __call__(cls, *a): return (cls.__name__, super().__call__(*a))
    def __contains__(cls, x): return x == QQ
    @property
    def mprop(cls): return cls.__name__
class MpuQQ(metaclass=MpQQ):
    def m(self): return QQ
""", 'MpuQQ', 'return obj()[0], obj()[1].m(), QQ in obj, obj.mprop, type(obj).__name__')
T('abcreg', """
import abc, collections.abc
class AbrQQ(abc.ABC):
    @abc.abstractmethod
    def f(self): ...
    @property
    @abc.abstractmethod
    def p(self): ...
    @classmethod
    def __subclasshook__(cls, C): return True if getattr(C, 'fits', 0) == QQ else NotImplemented
class FitQQ: fits = QQ
class RegQQ: pass
AbrQQ.register(RegQQ)
class ImplQQ(AbrQQ):
    def f(self): return 'f'
    @property
    def p(self): return 'p'
class MapQQ(collections.abc.Mapping):
    def __init__(self, d): self.d = d
    def __getitem__(self, k): return self.d[k]
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
abrQQ = [AbrQQ, FitQQ, RegQQ, ImplQQ, MapQQ({'a': [QQ]})]
""", 'abrQQ', """
try: obj[0](); r = 'instantiated'
except TypeError: r = 'abstract'
return r, issubclass(obj[1], obj[0]), issubclass(obj[2], obj[0]), obj[3]().f(), obj[3]().p, isinstance(obj[3](), obj[0]), dict(obj[4]), obj[4].get('z', 0), issubclass(int, obj[0])
""", step='obj[4].d["a"].append(k)')
T('genericmore', """
import typing
from typing import AnyStr as TgvQQ
class GbQQ(typing.Generic[TgvQQ]):
    def __init__(self, v: TgvQQ): self.v = v
    def get(self) -> TgvQQ: return self.v
class GcQQ(GbQQ[int], list): n = QQ
gmQQ = [GbQQ([QQ]), GbQQ[int](3), GcQQ(4)]
""", 'gmQQ', 'return [o.get() for o in obj], type(obj[2]).__mro__[1].__name__, obj[2].n, isinstance(obj[2], list)', step='obj[0].v.append(k)')
T('moduleattrs', """
import types
rtQQ = types.SimpleNamespace(a=[QQ], f=lambda: 5)
rtQQ.me = rtQQ
""", 'rtQQ', 'return obj.a, obj.f(), obj.me is obj, repr(type(obj).__name__)', step='obj.a.append(k)')
T('bigfunc', """
exec("def bfQQ(x):\\n    r = x\\n" + "".join("    r += %d\\n" % (i * 300) for i in range(300)) + "    return r\\n")
exec("def manyQQ(" + ", ".join("a%d=%d" % (i, i) for i in range(300)) + "): return a299 + QQ")
exec("def tallQQ():\\n" + "\\n" * 400 + "    x = 1\\n" + "\\n" * 200 + "    return x, QQ\\n")
""", '[bfQQ, manyQQ, tallQQ]', 'return obj[0](1), obj[1](), obj[2](), obj[2].__code__.co_firstlineno, max(l for _, _, l in obj[2].__code__.co_lines() if l) - obj[2].__code__.co_firstlineno', nofactory=1)
T('tracedexc', """
def boomQQ(x):
    try:
        with open('/nonexistent/QQ') as f: pass
    except* OSError as eg:
        x.append(len(eg.exceptions))
    finally:
        x.append('finally')
""", 'boomQQ', 'l = []; return obj(l), l')
T('strange', """
class NoEqQQ:
    def __init__(self, v): self.v = v
    def __eq__(self, o): raise RuntimeError('eq')
    __hash__ = object.__hash__
class NoBoolQQ:
    v = QQ
    def __bool__(self): raise RuntimeError('bool')
    def __getattribute__(self, n): return object.__getattribute__(self, n)
    def __reduce_ex__(self, p): return type(self), ()
class SetstQQ:
    def __init__(self): self.a = [QQ, 'set']
    def __getstate__(self): return {'b': self.a}
    def __setstate__(self, s): self.a = [x for x in s['b'] if x != 'set'] + ['set']
class DictsubQQ(dict):
    def __missing__(self, k): return ('missing', k)
dsuQQ = DictsubQQ(a=1); dsuQQ.attr = [QQ]
""", '[NoEqQQ([QQ]), NoBoolQQ(), SetstQQ(), dsuQQ]', 'return obj[0].v, obj[1].v, obj[2].a[:1], obj[3]["zz"], obj[3]["a"], obj[3].attr')
T('norepr', """
class MrQQ(type):
    def __repr__(cls): raise RuntimeError('metaclass repr')
    def __str__(cls): raise RuntimeError('metaclass str')
class NrQQ(dict, metaclass=MrQQ):
    n = QQ
    def __init__(self, v=None): self.v = v
    def __repr__(self): raise RuntimeError('repr')
    def __str__(self): raise RuntimeError('str')
    def __format__(self, s): raise RuntimeError('format')
    def m(self): return self.v
    @property
    def p(self): raise RuntimeError('property')
    @classmethod
    def c(cls): return cls.n
class NlQQ(list):
    def __repr__(self): raise RuntimeError('repr')
def nfQQ(a=NrQQ(4)): return a.v
nrQQ = [NrQQ, NrQQ([QQ]), {'k': NrQQ(2)}, NrQQ(3).m, nfQQ, NrQQ.c, NlQQ([NrQQ(1)]), (lambda c: lambda: c.v)(NrQQ(5)), {NrQQ: 1}]
""", 'nrQQ', """
return (type(obj[1]) is obj[0], obj[0].n, obj[1].v, obj[2]['k'].v, obj[3](), obj[4](), obj[5](), obj[6][0].v, obj[7](), obj[8][obj[0]])
""", step='obj[1].v.append(k)')
T('metaeq', """
class MeqQQ(type):
    def __eq__(cls, o): return 'expression'
    def __ne__(cls, o): return 'other expression'
    __hash__ = type.__hash__
def meqQQ():
    class LQQ(metaclass=MeqQQ):
        x = [QQ]
        def m(self): return hQQ, LQQ
    def hQQ(): return LQQ, hQQ, QQ
    return hQQ
class GQQ(metaclass=MeqQQ):
    def __init__(self, v): self.v = v
    def __eq__(self, o): return 'expression'
    def __hash__(self): return 5
class SQQ(GQQ): y = QQ
class TQQ(tuple, metaclass=MeqQQ): pass
meQQ = [meqQQ(), GQQ, GQQ(GQQ), {GQQ: 1, 'a': GQQ(2)}, SQQ(3), SQQ, TQQ((1, GQQ))]
""", 'meQQ', """
L, h, n = obj[0]()
return h is obj[0], L().m()[0] is h, L().m()[1] is L, L.x, n, obj[2].v is obj[1], [k is GQQ or k for k in obj[3]], obj[3]['a'].v, obj[4].v, obj[5].y, type(obj[4]) is obj[5], obj[6][0], obj[6][1] is obj[1]
""".replace('GQQ or', 'obj[1] or'), step='obj[0]()[0].x.append(k)', localcls=1)
