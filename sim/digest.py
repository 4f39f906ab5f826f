"""Canonical structural digest of an object graph.

The oracle for "is this the same thing": a nested list of JSON values that
describes values, types, functions (code, defaults, closure, referenced
globals), classes (by value), and shared/cyclic references (numbered in order
of visit).  It never uses dill and never calls user-level __eq__/__reduce__,
and contains no addresses, so digests made in different processes compare.
"""
import abc, array, builtins, collections, copy, gc, dataclasses, datetime, decimal, dis, enum, fractions, functools, hashlib
import io, operator, pathlib, random, re, sys, types, typing, uuid, weakref, _thread, contextvars

_BUILTIN_BASES = (list, tuple, dict, set, frozenset, int, float, complex, str, bytes, bytearray,
                  collections.deque, array.array, BaseException)
ITER_TYPES = tuple({type(iter([])), type(iter(())), type(iter({})), type(iter(set())), type(iter('')), type(iter(b'')),
                    type(iter(range(3))), type(enumerate([])), type(zip()), type(map(int, [])), type(filter(None, [])),
                    type(reversed([])), type(iter({}.values())), type(iter({}.items()))})
REPR_TYPES = (datetime.date, datetime.time, datetime.timedelta, datetime.timezone, decimal.Decimal, fractions.Fraction, uuid.UUID,
              pathlib.PurePath, range)
SIMPLE_ITERS = tuple({type(iter(x)) for x in ([], (), range(3), '', b'', range(1 << 70))})
ALIAS_TYPES = (types.GenericAlias, types.UnionType)
VIEW_TYPES = tuple({type(getattr(d, k)()) for d in ({}, collections.OrderedDict()) for k in ('keys', 'values', 'items')})
_names_cache = {}


def h(data):
    if isinstance(data, str):
        data = data.encode('utf-8', 'surrogatepass')
    return hashlib.sha256(data).hexdigest()[:16]


def global_names(code):
    """names a code object (or code nested in it) looks up in its globals"""
    try:
        return _names_cache[code]
    except KeyError:
        pass
    names = set()
    for ins in dis.get_instructions(code):
        if ins.opname in ('LOAD_GLOBAL', 'STORE_GLOBAL', 'DELETE_GLOBAL', 'LOAD_NAME', 'LOAD_FROM_DICT_OR_GLOBALS'):
            names.add(ins.argval)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            names |= set(global_names(c))
    res = tuple(sorted(names))
    _names_cache[code] = res
    return res


def isin(t, types):
    """`t in types` without calling the == of metaclasses"""
    return any(t is x for x in types)


def _atomic(x):
    if type(x) is tuple:
        return all(_atomic(y) for y in x)
    if type(x) is dict:
        return all(_atomic(y) for y in x.items())
    return x is None or isin(type(x), (str, int, bool, float, bytes))


PROXY_TYPES = (weakref.ProxyType, weakref.CallableProxyType)


class Digester:
    def __init__(self, byvalue=('__main__',), globals_identity=False, code_location=True, maxnodes=400000,
                 skip_globals=()):
        self.memo = {}
        self.keep = []
        self.byvalue = set(byvalue)        # names of the modules whose contents count by value
        self.globals_identity = globals_identity
        self.code_location = code_location
        self.n = 0
        self.maxnodes = maxnodes
        self.skip_globals = set(skip_globals)
        self.roots = {}                    # id(namespace) -> label

    # -- entry points
    def namespace(self, ns, label='ns', skip=()):
        """digest of a module namespace: order-insensitive by name"""
        self.roots[id(ns)] = label
        out = []
        for k in sorted(k for k in ns if isinstance(k, str)):
            if (k.startswith('__') and k.endswith('__')) or k in skip:
                continue
            out.append([k, self(ns[k])])
        return out

    def isolated(self, obj):
        d = Digester(self.byvalue, self.globals_identity, self.code_location)
        d.roots = self.roots
        return d(obj)

    def __call__(self, obj):
        self.n += 1
        if self.n > self.maxnodes:
            raise RuntimeError('digest: object graph too large')
        t = type(obj)
        if getattr(t, '_sim_opaque', False):
            return ['opaque', t.__name__]
        if obj is None or t is bool or obj is Ellipsis or obj is NotImplemented:
            return repr(obj)
        if t is int:
            return ['int', str(obj) if abs(obj) < 1 << 200 else hex(obj)]
        if t is str:
            return ['str', obj.encode('utf-8', 'backslashreplace').decode()] if len(obj) < 200 else ['str#', len(obj), h(obj)]
        if t is float:
            return ['float', float.hex(obj) if obj == obj else 'nan']
        if t is types.CodeType:
            return self.codeobj(obj)
        if t is types.MappingProxyType and not len(obj):
            return ['mappingproxy', 'empty']      # may be a library's shared constant
        if type(t).__module__ == 'numpy' or t.__module__ == 'numpy.dtypes':
            return self.describe(obj, t)          # dtypes are values
        if isin(t, PROXY_TYPES):                      # isinstance() would look at the referent
            i = id(obj)
            if i in self.memo:
                return ['@', self.memo[i]]
            self.memo[i] = len(self.memo)
            self.keep.append(obj)
            return self.describe(obj, t)
        if isin(t, ALIAS_TYPES) or isinstance(obj, typing._GenericAlias):
            return self.describe(obj, t)
        if t is complex:
            return ['complex', repr(obj)]
        if t is bytes:
            return ['bytes', obj.hex()] if len(obj) < 64 else ['bytes#', len(obj), h(obj)]
        if isinstance(obj, types.ModuleType) and t is types.ModuleType:
            if id(obj.__dict__) in self.roots:
                return ['module-root', self.roots[id(obj.__dict__)]]
            if obj.__name__ not in self.byvalue:
                return ['module', obj.__name__]
        i = id(obj)
        if i in self.roots:
            return ['root', self.roots[i]]
        if i in self.memo:
            return ['@', self.memo[i]]
        self.memo[i] = len(self.memo)
        self.keep.append(obj)
        return self.describe(obj, t)

    # -- helpers
    def seq(self, it):
        return [self(x) for x in it]

    def byref(self, obj):
        mod = getattr(obj, '__module__', None)
        qn = getattr(obj, '__qualname__', None)
        if not isinstance(mod, str) or not isinstance(qn, str) or mod in self.byvalue:
            return None
        m = sys.modules.get(mod)
        if m is None:
            return None
        o = m
        try:
            for part in qn.split('.'):
                o = vars(o)[part] if isinstance(o, (type, types.ModuleType)) else getattr(o, part)
        except (KeyError, AttributeError, TypeError):
            try:
                o = m
                for part in qn.split('.'):
                    o = getattr(o, part)
            except Exception:
                return None
        if o is obj or getattr(o, '__func__', None) is obj:
            return ['ref', mod, qn]
        return None

    def codeobj(self, c):
        out = ['code', c.co_name, c.co_qualname, c.co_argcount, c.co_posonlyargcount, c.co_kwonlyargcount, c.co_flags,
               h(c.co_code), c.co_nlocals, c.co_stacksize, list(c.co_names), list(c.co_varnames), list(c.co_freevars),
               list(c.co_cellvars), h(c.co_exceptiontable),
               [self.codeobj(k) if isinstance(k, types.CodeType) else self.isolated(k) for k in c.co_consts]]
        if self.code_location:
            out += [c.co_filename, c.co_firstlineno, h(c.co_linetable)]
        return out

    def function(self, f):
        g = f.__globals__
        # constants of library functions may be shared with the library
        own = self if g.get('__name__') in self.byvalue else (lambda x: repr(x) if _atomic(x) else self(x))
        out = ['function', f.__name__, f.__qualname__, repr(f.__module__), self(f.__code__), own(f.__defaults__),
               own(f.__kwdefaults__), self.annotations(f), self(f.__doc__), self(dict(f.__dict__)),
               None if f.__closure__ is None else self.seq(f.__closure__)]
        if id(g) in self.roots:
            out.append(self.roots[id(g)])
        elif self.globals_identity and g.get('__name__') in self.byvalue:
            if id(g) not in self.memo:
                self.memo[id(g)] = len(self.memo)
                self.keep.append(g)
            out.append(self.memo[id(g)])
        else:
            out.append(None)
        refs = []
        for name in global_names(f.__code__):
            if name in g and g[name] is getattr(builtins, name, self):
                continue        # the builtin itself, whether or not the namespace names it
            if name in g and name not in self.skip_globals and name != '__builtins__':
                refs.append([name, self(g[name])])
        out.append(refs)
        return out

    def annotations(self, f):
        a = f.__annotations__
        return self(a) if a else None

    def klass(self, c):
        t, bases = self(type(c)), self.seq(c.__bases__)
        d = []
        skip = ('__new__',) if c.__bases__ == (tuple,) and hasattr(c, '_fields') else ()
        for k in sorted(vars(c)):
            if k in skip or k in ('__slotnames__', '__dict__', '__weakref__', '_abc_impl', '__abstractmethods__', '__subclasshook__'):
                continue
            v = vars(c)[k]
            if isinstance(v, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                d.append([k, ['slot', v.__name__]])
            else:
                d.append([k, self(v)])
        extra = []
        if isinstance(c, abc.ABCMeta):
            reg = abc._get_dump(c)[0]
            extra.append(['abc', sorted(getattr(r(), '__qualname__', '?') for r in reg), sorted(c.__abstractmethods__)])
        return ['class', c.__name__, c.__qualname__, c.__module__, t, bases, d, extra,
                [hasattr(c, '__dict__'), c.__dictoffset__ != 0, c.__weakrefoffset__ != 0, c.__itemsize__]]

    def contents(self, obj):
        if isinstance(obj, collections.OrderedDict):
            return [[self(k), self(v)] for k, v in collections.OrderedDict.items(obj)]
        if isinstance(obj, dict):
            return [[self(k), self(v)] for k, v in dict.items(obj)]
        if isinstance(obj, list):
            return self.seq(list.__iter__(obj))
        if isinstance(obj, tuple):
            return self.seq(tuple.__iter__(obj))
        if isinstance(obj, (set, frozenset)):
            base = set if isinstance(obj, set) else frozenset
            elems = [(repr(self.isolated(x)), x) for x in base.__iter__(obj)]
            elems.sort(key=lambda p: p[0])
            return [self(x) for _, x in elems]
        if isinstance(obj, collections.deque):
            return [obj.maxlen] + self.seq(collections.deque.__iter__(obj))
        if isinstance(obj, array.array):
            return [obj.typecode, [repr(x) for x in array.array.__iter__(obj)]]
        if isinstance(obj, (bytes, bytearray)):
            return bytes(obj).hex() if len(obj) < 64 else [len(obj), h(bytes(obj))]
        if isinstance(obj, int):
            return int.__repr__(obj)
        if isinstance(obj, float):
            return float.__repr__(obj)
        if isinstance(obj, complex):
            return complex.__repr__(obj)
        if isinstance(obj, str):
            return str.__str__(obj).encode('utf-8', 'backslashreplace').decode()
        if isinstance(obj, BaseException):
            return [self(obj.args), self(obj.__cause__), bool(obj.__suppress_context__)]
        return None

    def state(self, obj):
        out = []
        d = None
        try:
            d = object.__getattribute__(obj, '__dict__')
        except AttributeError:
            pass
        if d:
            out.append(['dict', [[self(k), self(v)] for k, v in sorted(d.items(), key=lambda kv: str(kv[0]))]])
        slots = []
        for c in type(obj).__mro__:
            if '__slots__' not in vars(c):
                continue
            for k, v in vars(c).items():
                if isinstance(v, types.MemberDescriptorType) and k not in ('__dict__', '__weakref__'):
                    try:
                        slots.append([c.__name__ + '.' + k, self(v.__get__(obj, type(obj)))])
                    except AttributeError:
                        pass
        if slots:
            out.append(['slots', sorted(slots, key=lambda s: s[0])])
        return out

    def describe(self, obj, t):
        if isin(t, PROXY_TYPES):
            # the C-level repr names the referent's address
            try:
                addr = int(repr(obj).rstrip('>').split(' at ')[-1], 16)
            except ValueError:
                return ['proxy', t.__name__, 'dead']
            if addr == id(None):
                return ['proxy', t.__name__, 'dead']
            return ['proxy', t.__name__, ['@', self.memo[addr]] if addr in self.memo else 'live']
        if isin(t, (list, tuple, dict, set, frozenset, collections.deque, array.array, bytearray, collections.OrderedDict)):
            return [t.__name__, self.contents(obj)]
        if isinstance(obj, types.ModuleType):
            return ['module-value', obj.__name__, self.namespace(vars(obj), 'module ' + obj.__name__)]
        if t is types.FunctionType:
            return self.byref(obj) or self.function(obj)
        if t is types.CodeType:
            return self.codeobj(obj)
        if isin(t, (types.BuiltinFunctionType, type([].append))):
            s = obj.__self__
            if s is None or isinstance(s, types.ModuleType):
                return ['builtin', obj.__module__ or '', obj.__qualname__]
            return ['builtin-method', obj.__name__, self(s)]
        if t is type(None.__init__):
            return ['method-wrapper', obj.__name__, self(obj.__self__)]
        if isinstance(obj, type):
            if obj.__module__ not in self.byvalue:
                r = self.byref(obj)
                if r:
                    return r
                if not (obj.__flags__ & (1 << 9)):   # not a heap type
                    return ['type', obj.__module__, obj.__qualname__]
            return self.klass(obj)
        if t is types.MethodType:
            return ['method', self(obj.__func__), self(obj.__self__)]
        if t is types.CellType:
            try:
                return ['cell', self(obj.cell_contents)]
            except ValueError:
                return ['cell-empty']
        if isin(t, (staticmethod, classmethod)):
            return [t.__name__, self(obj.__func__)]
        if isinstance(obj, property):
            return ['property', self(t) if t is not property else '', self(obj.fget), self(obj.fset), self(obj.fdel), self(obj.__doc__)]
        if isinstance(obj, functools.partial):
            return ['partial', self(t), self(obj.func), self(obj.args), self(obj.keywords), self.state(obj)]
        if t is functools._lru_cache_wrapper:
            return ['lru_cache', self(obj.cache_parameters()), self(obj.__wrapped__)]
        if t is functools.partialmethod:
            return ['partialmethod', self(obj.func), self(obj.args), self(obj.keywords)]
        if isinstance(obj, enum.Enum):
            return ['enum', self(t), obj.name, self(obj._value_)]
        if t is weakref.ReferenceType:
            o = obj()
            return ['weakref', 'dead' if o is None else self(o)]
        if t is types.MappingProxyType:
            return ['mappingproxy', self(gc.get_referents(obj)[0])]
        if isin(t, VIEW_TYPES):
            return [t.__name__, self(gc.get_referents(obj)[0])]
        if t is slice:
            return ['slice', self(obj.start), self(obj.stop), self(obj.step)]
        if t is super:
            return ['super', self(obj.__thisclass__), self(obj.__self__)]
        if isin(t, (operator.itemgetter, operator.attrgetter, operator.methodcaller)):
            return [t.__name__, self.isolated(obj.__reduce__()[1:])]
        if isinstance(obj, re.Pattern):
            return ['re', self(obj.pattern), obj.flags]
        if isinstance(obj, (_thread.LockType,)):
            return ['lock', obj.locked()]
        if t is _thread.RLock:
            r = repr(obj)
            return ['rlock', r.split('count=')[1].split()[0].rstrip('>')]
        if isinstance(obj, io.BytesIO) or isinstance(obj, io.StringIO):
            if obj.closed:
                return [t.__name__, 'closed']
            return [t.__name__, self.isolated(obj.getvalue()), obj.tell(), self.state(obj)]
        if isinstance(obj, REPR_TYPES) and t.__module__ not in self.byvalue:
            return [t.__module__, t.__qualname__, repr(obj)]
        if isinstance(obj, random.Random):
            return ['random', h(repr(obj.getstate()))]
        if isin(t, SIMPLE_ITERS):
            return ['iterator', self.seq(copy.copy(obj))]
        if isin(t, ITER_TYPES):
            try:
                return [t.__name__, self.isolated_reduce(obj)]
            except Exception as e:
                return [t.__name__, 'unreducible']
        np = sys.modules.get('numpy')
        if np is not None:
            if isinstance(obj, np.ndarray):
                body = self.seq(obj.ravel().tolist()) if obj.dtype.hasobject else h(np.ascontiguousarray(obj).tobytes())
                return ['ndarray', self(t), repr(obj.dtype), list(obj.shape), bool(obj.flags['F_CONTIGUOUS']), body, self.state(obj)]
            if isinstance(obj, np.generic):
                return ['npscalar', repr(obj.dtype), repr(obj.tolist())]
            if isinstance(obj, np.dtype):
                return ['dtype', repr(obj), type(obj).__name__]
            if isinstance(obj, np.ufunc):
                return ['ufunc', obj.__name__]
        if isinstance(obj, typing.TypeVar):
            return ['typevar', obj.__name__, self.seq(obj.__constraints__), self(obj.__bound__), obj.__covariant__, obj.__contravariant__]
        if t is types.GenericAlias or isinstance(obj, typing._GenericAlias) or t is types.UnionType:
            org = getattr(obj, '__origin__', None)
            return ['alias', t.__name__, self(org) if org is not None else None, self.seq(obj.__args__)]
        if isinstance(obj, typing._SpecialForm):
            return ['special', repr(obj)]
        if isinstance(obj, contextvars.Context):
            return ['context', len(obj)]
        if isin(t, (types.GetSetDescriptorType, types.MemberDescriptorType, types.MethodDescriptorType, types.WrapperDescriptorType,
                 types.ClassMethodDescriptorType)):
            return ['descriptor', t.__name__, obj.__name__, self(obj.__objclass__)]
        if isinstance(obj, types.SimpleNamespace):
            return ['simplenamespace', self(t), [[k, self(v)] for k, v in sorted(vars(obj).items())]]
        if isinstance(obj, io.IOBase):
            return ['file', t.__name__, str(getattr(obj, 'name', None)), str(getattr(obj, 'mode', None)), obj.closed]
        if isinstance(obj, collections.defaultdict):
            return ['defaultdict', self(t), self(obj.default_factory), self.contents(obj), self.state(obj)]
        if t.__module__ == 'builtins' or (t.__module__ in ('itertools', '_random', '_operator', 'collections', '_collections')
                                          and not (t.__flags__ & (1 << 9))):
            if t is object:
                return ['object']
        return ['inst', self(t), self.contents(obj) if isinstance(obj, _BUILTIN_BASES) else None, self.state(obj)]

    def isolated_reduce(self, obj):
        r = obj.__reduce__()
        out = []
        for x in r:
            out.append(self(x))
        return out


def digest(obj, **kw):
    return Digester(**kw)(obj)


def diff(a, b, path='$', depth=0):
    """first difference between two digests, as a short string (None if equal)"""
    if a == b:
        return None
    if isinstance(a, list) and isinstance(b, list) and depth < 200:
        if len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    label = a[0] if a and isinstance(a[0], str) else ''
                    return diff(x, y, '%s/%s%d' % (path, (label[:24] + ':') if label else '', i), depth + 1)
        else:
            ka = {repr(x[0]): x for x in a if isinstance(x, list) and x and isinstance(x[0], str)}
            kb = {repr(x[0]): x for x in b if isinstance(x, list) and x and isinstance(x[0], str)}
            if len(ka) == len(a) and len(kb) == len(b):
                only_a = sorted(set(ka) - set(kb))[:4]
                only_b = sorted(set(kb) - set(ka))[:4]
                if only_a or only_b:
                    return '%s: only in expected %s, only in observed %s' % (path, only_a, only_b)
    return '%s: expected %s observed %s' % (path, repr(a)[:160], repr(b)[:160])
