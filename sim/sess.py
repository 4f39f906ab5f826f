"""Sessions for simulated runs: building, saving, loading and looking at module namespaces of the three kinds."""
import io, os, sys, types

MODES = ('main', 'import', 'runtime', 'sub')
MOD = 'simmod'
MODSRC = '"""module doc"""\nimport math\nfrom collections import deque\nbase_value = [1]\ndef base_fn(x):\n    base_value.append(x)\n    return len(base_value)\n'
NAME = {'main': '__main__', 'import': MOD, 'runtime': 'rtmod', 'sub': 'simpkg.simsub'}


def write_module(ctl):
    with open(ctl.path(MOD + '.py'), 'w') as f:
        f.write(MODSRC)
    with open(ctl.path('simconf.py'), 'w') as f:    # a module whose variables are set at run time
        f.write('def put(**kw):\n    globals().update(kw)\ndef __getattr__(name):\n    if name[:1] == "c":\n        return "from another process"\n    raise AttributeError(name)\n'
                'def helper(x): return ("helper", x)\nclass Helper:\n    n = 5\n'
                'class Num(int):\n    pass\nLIMIT = Num(7)\nTABLE = {"a": [1]}\nTAGS = ("x", [2])\nclass Text(str):\n    pass\nLABEL = Text("lbl")\n')
    os.makedirs(ctl.path('simpkg'), exist_ok=True)
    with open(ctl.path('simpkg/__init__.py'), 'w') as f:
        f.write('from . import simsub\n')
    with open(ctl.path('simpkg/simsub.py'), 'w') as f:
        f.write(MODSRC)


def module(mode, cwd=None):
    """the live module object of this kind (a new one for runtime)"""
    if mode == 'main':
        import __main__
        return __main__
    if mode in ('import', 'sub'):
        import importlib
        if os.getcwd() not in sys.path:
            sys.path.insert(0, os.getcwd())
        return importlib.import_module(NAME[mode])
    return runtime_module()


def runtime_module():
    m = types.ModuleType('rtmod')
    b = __builtins__ if isinstance(__builtins__, dict) else vars(__builtins__)
    m.__dict__['__builtins__'] = b
    return m


def gen_things(rng, n, names):
    out = []
    for k in range(n):
        out.append([rng.choice(names), k + 1, rng.randrange(3)])
    return out


def populate(ns, things):
    from sim import world as W
    for t, n, steps in things:
        W.install(ns, t, n)
        for j in range(steps):
            W.do_step(ns, t, n, 40 + j)


def dump_to_bytes(mod, mode, refimported=False, protocol=None):
    import dill
    b = io.BytesIO()
    old = dill.settings['protocol']
    if protocol is not None:
        dill.settings['protocol'] = protocol
    try:
        dill.dump_module(b, module=mod, refimported=refimported)
    finally:
        dill.settings['protocol'] = old
    return b.getvalue()


def digest_ns(ns, mode, skip=()):
    from sim.digest import Digester
    return Digester(byvalue=(NAME[mode],)).namespace(ns, skip=skip)


def make_session(env, mode, things, ref, proto, path, probe=True):
    """node task: build a namespace, save it, report its digest and what probing shows (probes run in a fork)"""
    from sim import world as W
    mod = module(mode)
    ns = vars(mod)
    populate(ns, things)
    data = dump_to_bytes(mod, mode, ref, proto)
    with open(path, 'wb') as f:
        f.write(data)
    return {'size': len(data), 'digest': digest_ns(ns, mode), 'probes': probes(ns, mode, things) if probe else None}


def probes(ns, mode, things):
    """what probing every thing shows, in a forked copy of this process"""
    from sim import world as W
    from sim.digest import Digester
    return forked(lambda: [W.do_probe(t, n, W.evaluate(ns, t, n), ns, Digester(byvalue=(NAME[mode],))) for t, n, _ in things])


def forked(fn):
    import json
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            data = json.dumps(['ok', fn()]).encode()
        except BaseException as e:
            data = json.dumps(['failed', '%s: %s' % (type(e).__name__, str(e)[:300])]).encode()
        try:
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else ['failed', 'died']
