"""D02: a failed load leaves no trace in the process."""
import os, sys
from sim import sess
from sim.things import THINGS
from sim.ctl import Violation
from sim.digest import diff

ID = 'D02'
RUNS = {'quick': 1200, 'thorough': 20000}
WALL = {'quick': 70, 'thorough': 720}
TECHNIQUE = "seeded simulation of loads failing at a chosen byte, call of the stream or of a restored object's own code; before/after snapshots and a differential against a process that saw no failure"
NOTE = ('Seeded search over messages, loaders and failure points. Data is cut or overwritten from an offset on, not altered in the middle: an '
        'altered pickle is another program and may do anything. Modules whose state the message carries are outside. Trusts the digest.')
SHRINK = ('fails', 'things', 'bombs')
RULE = ('one run = a message from one process, 1..5 failing loads of it in another (cut, overwritten tail, read error, exception from an '
        "object's reconstruction, missing module or attribute), snapshots around each, then an intact load compared with a process that saw no "
        'failure; non-trivial when at least one load failed; distinct by event log')
STATES = 'distinct (loader, fault kind, exception raised, context, protocol) tuples'
REAL = 'dill, pickle, two processes of different hash seeds, import system'
STUB = "streams with scripted faults, restored objects' methods with scripted faults"

KINDS = ('cut', 'cut', 'tail0', 'tailff', 'read', 'read', 'user', 'user', 'user', 'user', 'nomodule', 'noattr', 'empty', 'text', 'call', 'call', 'call')
LOADERS = ('load', 'load', 'loads', 'unpickler', 'temp', 'tempIO', 'ignore', 'buffered', 'copy')


def gen(rng, tier, i):
    from sim.bombs import OBJ
    from sim.props.m01 import usable
    from sim.seams import ANY_EXC, IO_EXC
    names = usable('exec', ())
    fails = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        fails.append({'kind': rng.choice(KINDS), 'at': rng.random(), 'loader': rng.choice(LOADERS), 'exc': rng.choice(ANY_EXC + ('nested', 'nestedload')), 'callexc': rng.choice(['recursion', 'recursion', 'memory', 'interrupt']), 'ioexc': rng.choice(IO_EXC),
                      'bycall': rng.random() < .5})
    return {'things': sess.gen_things(rng, rng.choice([0, 1, 1, 2]), names), 'bombs': [rng.choice([b for b in OBJ if b not in ('module', 'held')]) for _ in range(rng.choice([0, 1, 1, 2]))],
            'ctx': rng.choice(['bombns', 'simbombs', '__main__', '__main__']), 'fails': fails, 'order': rng.random() < .5,
            'kw': {'protocol': rng.choice([None, 0, 1, 2, 3, 4, 5]), 'recurse': rng.choice([None, None, True]), 'byref': None},
            'mainns': rng.choice(['empty', 'same', 'same', 'other']), 'top': rng.random() < .4, 'warn': rng.choice(['default', 'error', 'ignore']), 'trace': rng.random() < .15}


def simplify(plan):
    for key, v in (('mainns', 'empty'), ('warn', 'default'), ('trace', False), ('order', False)):
        if plan[key] != v:
            yield dict(plan, **{key: v})


DEP = 'depval = ["dep"]\ndef depfn(): return "dep"\nclass DepK:\n    def __init__(self): self.k = 1\n'


def run(plan, ctl):
    from sim.bombs import SRC, SRC2
    from sim.props.m01 import SKIP_PROTO01
    if plan['kw']['protocol'] in (0, 1):
        plan['things'] = [t for t in plan['things'] if t[0] not in SKIP_PROTO01]
        plan['bombs'] = [b for b in plan['bombs'] if b not in ('slots', 'many', 'stream', 'iters')]
    with open(ctl.path('simbombs.py'), 'w') as f:
        f.write(SRC + SRC2)
    with open(ctl.path('simdep.py'), 'w') as f:
        f.write(DEP)
    ctl.node('A', 'make', {'plan': plan})
    r = ctl.node('B', 'work', {'plan': plan}, timeout=60)
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])
    return {'nontrivial': (r.result or 0) > 0}


def namespace(ctx):
    from sim import bombs
    if ctx == 'simbombs':
        import simbombs
        return vars(simbombs)
    if ctx == '__main__':
        import __main__
        ns = vars(__main__)
        bombs.install(ns)
    else:
        ns = bombs.byvalue()
    return ns


def make(env, plan):
    import dill
    from sim import world as W, bombs, seams
    sys.path.insert(0, os.getcwd())
    seams.arm(None)
    ns = namespace(plan['ctx'])
    import simdep
    objs = []
    for t, n, s in plan['things']:
        own = {'__name__': 'sendns', '__builtins__': __import__('builtins')}
        W.install(own, t, n)
        objs.append(W.evaluate(own, t, n))
    b = [eval(bombs.OBJ[x], ns) for x in plan['bombs']]
    objs = b + objs if plan['order'] else objs + b
    objs.append([simdep.depfn, simdep.DepK, simdep.DepK()])
    if plan['top'] and b:
        objs = b[0]
    open('msg', 'wb').write(dill.dumps(objs, **plan['kw']))


def work(env, plan):
    import dill, io, gc, warnings
    from sim import world as W, seams, bombs
    from sim.digest import Digester
    from sim.props.d01 import locks_state, quiet
    from sim.props.t03 import Out
    sys.path.insert(0, os.getcwd())
    import __main__
    main = vars(__main__)
    import simbombs
    seams.arm(None)
    if plan['mainns'] == 'same':
        bombs.install(main)
    elif plan['mainns'] == 'other':
        for n in ('State', 'Reduce', 'gbomb', '_trip', 'ClassAttr', 'held', 'A', 'inglobals'):
            main[n] = ['mine', n]
    main['keep'] = [1, {'two': [3]}]
    data = open('msg', 'rb').read()
    warnings.simplefilter(plan['warn'])
    warnings.showwarning = quiet
    if plan['trace']:
        sys.stderr = Out('stream')
        dill.detect.trace(True)

    def load(loader, d, script=None):
        if script is not None:
            src = seams.Reader(d, script, env)
        else:
            src = io.BytesIO(d)
        if script is not None and loader not in ('load', 'unpickler', 'ignore', 'buffered'):
            loader = 'load'
        if loader == 'load':
            return dill.load(src)
        if loader == 'loads':
            return dill.loads(d)
        if loader == 'unpickler':
            return dill.Unpickler(src).load()
        if loader == 'ignore':
            return dill.load(src, ignore=True)
        if loader == 'buffered':
            return dill.load(src if script is not None else io.BufferedReader(seams.RawChunks(d, [7, 100]), 64))
        if loader == 'temp':
            open('tmpmsg', 'wb').write(d)
            return dill.temp.load('tmpmsg')
        if loader == 'tempIO':
            return dill.temp.loadIO(io.BytesIO(d))
        return dill.loads(d)

    def intact(loader='load'):
        seams.arm(None)
        try:
            o = load(loader, data)
        except Exception as e:
            e.__traceback__ = None
            return ['raised', type(e).__name__, str(e)[:100] if ' at 0x' not in str(e) else '']
        return ['ok', Digester(byvalue=('__main__', 'bombns', 'sendns'))(o)]

    def count_calls(loader, x):
        seams.arm(None)
        try:
            with seams.CallFault() as c:
                load(loader, data)
        except BaseException:
            pass
        return c.choose(x)

    def count():
        seams.arm(None)
        try:
            load('load', data)
        except BaseException:
            pass
        n = seams.Trip.n
        r = seams.Reader(data, {})
        try:
            dill.load(r)
        except BaseException:
            pass
        return [n, r.calls]
    d = Digester(byvalue=('__main__',))
    d.namespace(main)
    want = sess.forked(intact)
    if want[0] != 'ok':
        raise RuntimeError(want[1])
    want = want[1]
    if want[0] == 'raised':
        # a state that fails before its class is complete; such messages are outside M01 already
        env.log('unloadable', want[1:])
        return 0
    calls, reads = sess.forked(count)[1]
    os.rename('simdep.py', 'simdep.off')

    def nested(with_load):
        def action(where):
            seams.Trip.at = None
            for bad in (b'\x80\x04\x95', data[:len(data) // 2], b'cno_such_module\nx\n.'):
                try:
                    dill.loads(bad)
                except Exception:
                    pass
            if with_load:
                dill.loads(dill.dumps({'a': [1]}))
            raise seams.UserError('sim: after a nested load')
        return action
    failed = 0
    for k, f in enumerate(plan['fails']):
        kind, loader = f['kind'], f['loader']
        d, script, at, call = data, None, None, None
        off = int(f['at'] * len(data))
        must = True
        if kind == 'cut':
            d = data[:off]
        elif kind == 'empty':
            d = b''
        elif kind == 'text':
            d = b'this is not a pickle'
        elif kind in ('tail0', 'tailff'):
            d = data[:off] + (b'\x00' if kind == 'tail0' else b'\xff') * (len(data) - off)
        elif kind == 'read':
            script = {'exc': f['ioexc']}
            if f['bycall']:
                script['call'] = 1 + int(f['at'] * reads)
            else:
                script['at'] = off
        elif kind == 'call':
            must = False
            call = seams.CallFault(sess.forked(lambda: count_calls(loader, f['at']))[1], f['callexc'])
        elif kind == 'user':
            at = 1 + int(f['at'] * calls)
            must = False
        elif kind == 'noattr':
            with open('simdep.py', 'w') as g:
                g.write('depval = 1\n')
        if kind not in ('nomodule', 'noattr'):
            os.path.exists('simdep.off') and os.rename('simdep.off', 'simdep.py')
        else:
            must = False
            sys.modules.pop('simdep', None)
        import importlib
        importlib.invalidate_caches()
        if kind in ('cut', 'tail0', 'tailff', 'empty', 'text', 'nomodule', 'noattr'):
            env.count('fault:' + kind)
        gc.collect()
        before = snapshot(W, main, Digester, locks_state)
        act = {'nested': nested(False), 'nestedload': nested(True)}.get(f['exc'])
        seams.arm(at, f['exc'] if act is None else 'user', act)
        err = None
        try:
            if call:
                with call:
                    load(loader, d, script)
            else:
                load(loader, d, script)
        except BaseException as e:
            err = type(e).__name__
            e.__traceback__ = None
            e.__context__ = e.__cause__ = None
            del e
        fired = seams.Trip.fired
        seams.arm(None)
        if call and call.fired:
            env.count('fault:call inside dill or pickle raises ' + f['callexc'])
        if fired:
            env.count('fault:reconstruction raises ' + f['exc'])
        if err:
            failed += 1
        gc.collect()
        after = snapshot(W, main, Digester, locks_state, before)
        what = 'load %d: %s of a message with %s and %s from %s, fault %s %s at %s%s' % (
            k, loader, [t[0] for t in plan['things']], plan['bombs'], plan['ctx'], kind, f['exc'] if kind == 'user' else f['ioexc'] if kind == 'read' else f['callexc'] if call else '',
            at or script or (off if not call else '%s %s' % (call.at, call.where)), ' raised ' + err if err else ' returned')
        env.log('fail', k, kind, loader, err, fired, at or script or (call.at if call else off))
        env.state([loader, kind, err, plan['ctx'], plan['kw']['protocol']])
        if must and err is None:
            env.log('violation', 'silent-failure', what)
            return failed
        for label in before:
            b, a = before[label], after[label]
            if b != a:
                env.log('violation', label, '%s: %s' % (what, W.compare(b, a) if isinstance(b, dict) else diff(b, a)))
                return failed
        if kind in ('nomodule', 'noattr'):
            if os.path.exists('simdep.off'):
                os.replace('simdep.off', 'simdep.py')
            else:
                with open('simdep.py', 'w') as g:
                    g.write(DEP)
            import importlib
            importlib.invalidate_caches()
            sys.modules.pop('simdep', None)
        if not os.path.exists('simdep.off'):
            with open('simdep.off', 'w') as g:
                g.write(DEP)
    with open('simdep.py', 'w') as g:
        g.write(DEP)
    sys.modules.pop('simdep', None)
    for loader in ('load', 'unpickler', 'load'):
        got = intact(loader)
        if got != want:
            env.log('violation', 'next-load', 'after failures %s: %s' % ([(f['kind'], f['loader'], f['exc']) for f in plan['fails']], diff(want, got)))
            return failed
    return failed


known = set()


def snapshot(W, main, Digester, locks_state, before=None):
    s = {}
    s['process-state'] = W.dill_globals_snapshot()
    s['main-namespace'] = W.ns_snapshot(main)
    s['main-values'] = Digester(byvalue=('__main__',)).namespace(main)
    mods = W.modules_snapshot()
    if not before:
        known.clear()
        known.update(m for m in mods if m != 'simdep')
    # modules the data imports stay
    s['modules'] = {m: i for m, i in mods.items() if m in known or m.startswith('__runtime') or getattr(sys.modules[m], '__spec__', None) is None}
    s['module-contents'] = {m: contents(sys.modules[m]) for m in WATCH if m in sys.modules}
    s['nfds'] = len(W.open_fds())
    s['locks'] = locks_state()
    return s


WATCH = ('types', 'collections', 'functools', 'math', 'io', 'os', 'operator', 'weakref', 'abc', 'enum', 'dataclasses', 'typing', 'dill', 'dill._dill', 'dill.session',
         'dill.settings', 'dill.detect', 'dill.logger', 'pickle', 'copyreg', 'warnings', 'contextvars', 'threading', 'sim.things', 'simbombs')
VOLATILE = {'__builtins__', '__warningregistry__', '_'}


def contents(m):
    return sorted((k, id(v)) for k, v in vars(m).items() if k not in VOLATILE)
