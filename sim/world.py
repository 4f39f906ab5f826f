"""Node-side helpers shared by the property modules: installing things, probing them, observing process state."""
import sys, os, gc, json, types, logging, warnings, builtins
from sim.things import THINGS, sub
from sim.digest import Digester, diff, h

_cache = {}


def body(text, args):
    """compile a function body outside every namespace under test"""
    key = (text, args)
    f = _cache.get(key)
    if f is None:
        lines = text.strip('\n').split('\n')
        src = 'def _sim_body(%s):\n' % args + ''.join('    ' + l + '\n' for l in lines)
        ns = {'__name__': 'sim.bodies', '__builtins__': builtins}
        exec(compile(src, '<sim body>', 'exec', dont_inherit=True), ns)
        f = _cache[key] = ns['_sim_body']
    return f


def install(ns, thing, n):
    exec(compile(sub(THINGS[thing].setup, n), '<thing %s>' % thing, 'exec', dont_inherit=True), ns)


def evaluate(ns, thing, n):
    return eval(sub(THINGS[thing].obj, n), ns)


def do_step(ns, thing, n, k):
    t = THINGS[thing]
    if t.step:
        body(sub(t.step, n), 'obj, G, k')(evaluate(ns, thing, n), ns, k)


def do_probe(thing, n, obj, G, dig=None):
    """-> digest of what the probe observes (may change obj)"""
    t = THINGS[thing]
    d = dig or Digester()
    try:
        r = body(sub(t.probe, n), 'obj, G')(obj, G)
    except RecursionError:
        raise
    except Exception as e:
        return ['raised', type(e).__name__, str(e)[:200]]
    return d(r)


def main_ns():
    import __main__
    return __main__.__dict__


# ---------------------------------------------------------------- what a process looks like
_STD = ('stdin', 'stdout', 'stderr', '__stdin__', '__stdout__', '__stderr__', 'displayhook', 'excepthook')


def dill_globals_snapshot():
    """process-wide state that dill's operations must leave alone, as {label: comparable}"""
    import dill, pickle, copyreg
    _dill = sys.modules['dill._dill']
    s = {}
    for n in _STD:
        s['sys.' + n] = id(getattr(sys, n, None))
    s['warnings.filters'] = [repr(f) for f in warnings.filters]
    s['warnings.showwarning'] = id(warnings.showwarning)
    s['settings'] = sorted((k, repr(v)) for k, v in dill.settings.items())
    tm = getattr(_dill, '_typemap', None)
    if isinstance(tm, dict):
        s['typemap'] = sorted((repr(k), id(v)) for k, v in tm.items())
    # numpy types are registered on first use, which is not a trace of a failure
    s['dill.dispatch'] = sorted((repr(k), id(k), getattr(v, '__name__', '?'), id(v)) for k, v in list(dill.Pickler.dispatch.items())
                                if not str(getattr(k, '__module__', '')).startswith('numpy') and 'NdsQ' not in repr(k)
                                and not issubclass_np(k))
    s['pickle.dispatch'] = sorted((repr(k), id(k), id(v)) for k, v in pickle._Pickler.dispatch.items())
    s['copyreg'] = sorted((repr(k), id(v)) for k, v in copyreg.dispatch_table.items())
    s['sys.flags'] = (sys.getrecursionlimit(), sys.getswitchinterval(), id(sys.gettrace()), id(sys.getprofile()))
    s['gc'] = (gc.isenabled(), gc.get_threshold())
    lg = logging.getLogger('dill')
    s['tracing'] = (lg.level, lg.propagate, lg.disabled, [(id(x), x.level) for x in lg.handlers], logging.root.manager.disable)
    s['cwd'] = os.getcwd()
    s['umask'] = umask()
    s['builtins'] = sorted((k, id(v)) for k, v in vars(builtins).items() if k != '_')
    import random, signal, threading, decimal
    s['sys.path'] = list(sys.path)
    s['import system'] = ([id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks])
    s['random'] = hash(random.getstate())
    s['signals'] = [id(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)]
    s['hooks'] = (id(threading.excepthook), id(sys.unraisablehook), repr(decimal.getcontext()))
    s['environ'] = sorted(os.environ.items())
    s['__main__'] = (id(sys.modules.get('__main__')), id(sys.modules.get('dill')))
    return s


def issubclass_np(k):
    np = sys.modules.get('numpy')
    return np is not None and isinstance(k, type) and issubclass(k, (np.ndarray, np.generic, np.dtype, np.ufunc, type(np.dtype)))


def umask():
    u = os.umask(0o022)
    os.umask(u)
    return u


def open_fds():
    out = {}
    for fd in os.listdir('/proc/self/fd'):
        fd = int(fd)
        if fd >= 900:
            continue
        try:
            out[fd] = os.readlink('/proc/self/fd/%d' % fd)
        except OSError:
            pass
    return {k: v for k, v in out.items() if not v.startswith('/proc/')}


def modules_snapshot():
    return {k: id(v) for k, v in list(sys.modules.items())}


def ns_snapshot(ns):
    return {k: id(v) for k, v in ns.items() if k != '__builtins__'}


def compare(before, after, ignore=()):
    """first differing label of two snapshots, or None"""
    for k in before:
        if k in ignore:
            continue
        if before[k] != after.get(k, '<gone>'):
            b, a = before[k], after.get(k)
            if isinstance(b, list) and isinstance(a, list):
                extra = [x for x in a if x not in b][:3]
                lost = [x for x in b if x not in a][:3]
                return '%s changed: added %r removed %r%s' % (k, extra, lost, '' if extra or lost else ' (reordered)')
            return '%s changed: %r -> %r' % (k, str(b)[:200], str(a)[:200])
    for k in after:
        if k not in before and k not in ignore:
            return '%s appeared' % k
    return None
