"""Saved objects whose own code can fail when they are saved or restored: every method passes through seams.trip()."""
SRC = '''
from sim.seams import trip as _trip
class Reduce:
    def __init__(self, n=0): self.n = [n]
    def __reduce_ex__(self, p):
        _trip('reduce_ex'); return type(self), (1,), {'n': self.n}
class State:
    def __init__(self): self.v = [1, 2]
    def __getstate__(self):
        _trip('getstate'); return {'v': self.v}
    def __setstate__(self, s):
        _trip('setstate'); self.__dict__.update(s)
class Slots:
    __slots__ = ('a', 'b')
    def __init__(self): self.a = [1]
    def __getstate__(self):
        _trip('getstate'); return None, {'a': self.a}
    def __setstate__(self, s):
        _trip('setstate'); self.a = s[1]['a']
class NewArgs(tuple):
    def __new__(cls, *a):
        _trip('new'); return tuple.__new__(cls, a)
    def __getnewargs__(self):
        _trip('getnewargs'); return tuple(self)
class Items(dict):
    def items(self):
        _trip('items'); return dict.items(self)
    def __setitem__(self, k, v):
        _trip('setitem'); dict.__setitem__(self, k, v)
class Seq(list):
    def __iter__(self):
        _trip('iter'); return list.__iter__(self)
    def append(self, x):
        _trip('append'); list.append(self, x)
    def extend(self, x):
        _trip('extend'); list.extend(self, x)
class Attr:
    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'): _trip('getattr ' + name)
        raise AttributeError(name)
class Eq:
    def __init__(self): self.x = [3]
    def __eq__(self, o):
        _trip('eq'); return self is o
    def __hash__(self):
        _trip('hash'); return 7
    def __bool__(self):
        _trip('bool'); return True
    def __len__(self):
        _trip('len'); return 1
    def __repr__(self):
        _trip('repr'); return 'Eq'
class Meta(type):
    def __repr__(cls):
        _trip('meta repr'); return 'Meta'
    def __call__(cls, *a, **k):
        _trip('meta call'); return type.__call__(cls, *a, **k)
class WithMeta(metaclass=Meta):
    def __init__(self): self.q = [5]
class Reducer:
    """saved by a function registered for it"""
    def __init__(self): self.z = [9]
def _reduce(o):
    _trip('copyreg'); return Reducer, (), {'z': o.z}
def _register():
    import copyreg
    copyreg.pickle(Reducer, _reduce)
def _iterstate():
    _trip('listitems'); yield 1
    _trip('listitems'); yield [2]
class ListItems(list):
    def __reduce_ex__(self, p):
        _trip('reduce_ex'); return ListItems, (), None, _iterstate()
class DictItems(dict):
    def __reduce_ex__(self, p):
        _trip('reduce_ex'); return DictItems, (), None, None, iter([(1, Reduce(4)), (2, State())])
class Setter:
    def __reduce_ex__(self, p):
        _trip('reduce_ex'); return Setter, (), {'s': [1]}, None, None, _setter
def _setter(o, st):
    _trip('setter'); o.__dict__.update(st)
'''
# what refers to instances of the above: in a namespace of its own, as an instance that the globals of its own class' methods lead to
# cannot be restored before these globals are
SRC2 = '''
def inglobals(): return gbomb
gbomb = State()
def closure():
    c = State()
    def inner(a=Reduce(2)): return c, a
    return inner
class ClassAttr:
    held = State()
    def method(self): return gbomb
class Descr:
    def __init__(self): self.d = [1]
    def __get__(self, o, t=None):
        _trip('descr get'); return self.d
class HasDescr:
    desc = Descr()
def selfdefault():
    def f(x=0): return x
    f.__defaults__ = (f,)
    return f
'''
# what is saved, by name
OBJ = {
    'reduce': 'Reduce(1)', 'state': '[State(), 5]', 'slots': 'Slots()', 'newargs': 'NewArgs(1, [2])', 'items': 'Items(a=1, b=[2])', 'seq': 'Seq([1, [2]])',
    'attr': '[Attr()]', 'eq': '{1: Eq(), 2: [Eq()]}', 'eqkey': '{Eq(): 1}', 'eqset': '{Eq()}', 'withmeta': '[WithMeta(), WithMeta]', 'reducer': '[Reducer()]', 'listitems': 'ListItems()',
    'dictitems': 'DictItems()', 'setter': 'Setter()', 'inglobals': 'inglobals', 'closure': 'closure()', 'classattr': '[ClassAttr, ClassAttr()]',
    'descr': '[HasDescr, HasDescr()]', 'many': '[State(), Reduce(2), inglobals, Items(z=State()), closure(), Slots()]',
    'defaultdict': '__import__("collections").defaultdict(State, {1: State()})', 'partial': '__import__("functools").partial(inglobals, State())',
    'method': 'ClassAttr().method', 'exc': 'ValueError(State())', 'nested': '[[[[[State()]]]], {"k": {"k": Reduce(3)}}]',
    'cellclass': '(lambda s: type("Local", (), {"f": lambda self: s, "held": s}))(State())', 'proxy': '__import__("types").MappingProxyType({"a": State()})',
    'ns': '__import__("types").SimpleNamespace(a=State(), b=inglobals)', 'module': '__import__("types").ModuleType("bmod")',
    'sync': '[State(), __import__("threading").Lock(), __import__("threading").RLock(), State(), __import__("threading").Condition(), __import__("threading").Event()]',
    'held': '[(lambda l: (l.acquire(), l)[1])(__import__("threading").Lock()), State(), (lambda l: (l.acquire(), l)[1])(__import__("threading").RLock()), __import__("threading").Lock()]',
    'iters': '[iter([1, 2, 3]), State(), iter((4, 5)), enumerate([6]), zip([7], [8]), map(str, [9]), reversed([1, 2]), __import__("itertools").count(3)]',
    'stream': '[__import__("io").BytesIO(b"abc"), State(), __import__("io").StringIO("def"), __import__("collections").deque([1, State()]), bytearray(b"xyz")]',
}
# cannot be saved at all
BAD = {
    'generator': '(i for i in [1])', 'frame': '__import__("sys")._getframe()', 'thread': '__import__("threading").local()', 'socket': '__import__("socket").socket()',
    'deep': '__import__("functools").reduce(lambda a, _: [a], range(100000), [])', 'traceback': '(lambda: 0).__code__.co_lines()',
    'deepdict': '__import__("functools").reduce(lambda a, _: {"k": a}, range(100000), {})', 'async': '(lambda: (yield))()',
    'badreduce': 'type("BR", (), {"__reduce_ex__": lambda s, p: 42})()', 'badreduce2': 'type("BR", (), {"__reduce_ex__": lambda s, p: (1, 2)})()',
    'selfdefault': 'selfdefault()', 'lostclass': 'type("Lost", (), {"__reduce_ex__": lambda s, p: "no_such_global"})()',
}


def install(ns):
    """both parts in one namespace"""
    exec(compile(SRC, '<bombs>', 'exec', dont_inherit=True), ns)
    exec(compile(SRC2, '<bombs>', 'exec', dont_inherit=True), ns)


def byvalue(name='bombns'):
    """-> namespace to evaluate OBJ in; the classes live in another one"""
    import builtins
    one = {'__name__': name, '__builtins__': builtins}
    exec(compile(SRC, '<bombs>', 'exec', dont_inherit=True), one)
    two = dict(one)
    exec(compile(SRC2, '<bombs>', 'exec', dont_inherit=True), two)
    return two
