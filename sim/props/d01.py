"""D01: a failed save leaves no trace in the process or in the objects being saved."""
import os, sys
from sim import sess
from sim.things import THINGS
from sim.ctl import Violation
from sim.digest import diff

ID = 'D01'
RUNS = {'quick': 1200, 'thorough': 20000}
WALL = {'quick': 70, 'thorough': 720}
TECHNIQUE = "seeded simulation of saves failing at a chosen call of the stream or of a saved object's own code; before/after snapshots and a differential against a process that saw no failure"
NOTE = ('Seeded search over operations, options, objects and failure points (every call a saved object receives is a point). Exceptions that '
        "arrive between two lines of dill's own code (asynchronous signals) are not delivered. Trusts the digest and the snapshot's list of state.")
SHRINK = ('fails', 'things', 'after')
RULE = ('one run = 1..4 failing saves (stream error, exception from a saved object\'s method, unpicklable object, recursion limit, warning made '
        'an error), snapshots around each, then good saves compared with the same saves without the failures; non-trivial when at least one '
        'save failed; distinct by event log')
STATES = 'distinct (operation, fault kind, exception, object, tracing) tuples'
REAL = 'dill, pickle, logging, warnings, file system'
STUB = "streams with scripted faults, saved objects' methods with scripted faults"

CALL_EXC = ('recursion', 'recursion', 'memory', 'interrupt')
SKIP = {'counter', 'metaeq', 'mutualrec', 'selfclosure', 'wraps', 'cachedprop', 'newargs_ex'}
OPS = ('dumps', 'dump', 'dump', 'pickler', 'copy', 'module', 'module', 'module-path', 'pickles', 'temp', 'dumpIO', 'errors', 'check-off')


def gen(rng, tier, i):
    from sim.bombs import OBJ, BAD
    from sim.seams import ANY_EXC, IO_EXC
    names = [t for t in THINGS if t not in SKIP and not THINGS[t].flags.get('main')]
    fails = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        k = rng.choice(['user', 'user', 'user', 'user', 'write', 'write', 'write', 'bad', 'bad', 'both', 'call', 'call', 'call'])
        fails.append({'op': rng.choice(OPS), 'kind': k, 'obj': rng.choice(list(OBJ) + ['sync', 'held', 'iters', 'stream'] * (4 if k in ('call', 'write') else 1)), 'bad': rng.choice(list(BAD)), 'where': rng.choice(['list', 'dict', 'closure', 'attr', 'globals', 'class']),
                      'exc': rng.choice(ANY_EXC + ('nested', 'nestedgood')) if k not in ('write', 'call') else rng.choice(IO_EXC if k == 'write' else CALL_EXC), 'bulk': rng.random() < .5, 'at': rng.random(), 'torn': rng.random() < .5,
                      'kw': {'protocol': rng.choice([None, None, 0, 1, 2, 3, 4, 5]), 'byref': rng.choice([None, None, True]), 'recurse': rng.choice([None, None, True]),
                             'fmode': rng.choice([None, None, 0, 1, 2])},
                      'ref': rng.random() < .5, 'tell': rng.choice(['ok', 'raise', 'absent']), 'withthings': rng.random() < .5})
    after = [{'op': rng.choice(['dumps', 'dumps', 'module', 'module-ref', 'pickler']), 'kw': {'protocol': rng.choice([None, 2, 4]), 'byref': None, 'recurse': rng.choice([None, True])},
              'what': rng.choice(['things', 'bombs', 'ns'])} for _ in range(rng.choice([1, 2, 3]))]
    return {'things': sess.gen_things(rng, rng.choice([0, 1, 2]), names), 'fails': fails, 'after': after, 'mode': rng.choice(sess.MODES),
            'trace': rng.choice([False, False, False, True]), 'warn': rng.choice(['default', 'default', 'error', 'ignore', 'always']),
            'settings': rng.choice([{}, {}, {'recurse': True}, {'protocol': 2}, {'byref': True, 'protocol': 5}, {'fmode': 2}]),
            'byvalue': rng.random() < .7}


def simplify(plan):
    for key, v in (('trace', False), ('warn', 'default'), ('settings', {})):
        if plan[key] != v:
            yield dict(plan, **{key: v})
    for k, f in enumerate(plan['fails']):
        for key, v in (('where', 'list'), ('withthings', False), ('ref', False), ('torn', False)):
            if f[key] != v:
                fs = [dict(x) for x in plan['fails']]
                fs[k][key] = v
                yield dict(plan, fails=fs)


def run(plan, ctl):
    sess.write_module(ctl)
    from sim.bombs import SRC, SRC2
    with open(ctl.path('simbombs.py'), 'w') as f:
        f.write(SRC + SRC2)
    r = ctl.node('A', 'work', {'plan': plan}, timeout=60)
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])
    return {'nontrivial': (r.result or 0) > 0}


def locks_state():
    import logging, re
    out = []
    for l in [logging._lock] + [h.lock for h in logging.getLogger('dill').handlers]:
        out.append(re.sub(' at 0x[0-9a-f]+', '', repr(l)))
    import threading, signal, decimal, locale
    return [out, threading.active_count(), repr(signal.getsignal(signal.SIGINT)), repr(signal.getsignal(signal.SIGXFSZ)),
            repr(decimal.getcontext()), threading.gettrace() is None]


def place(ns, obj, where):
    """the object inside others"""
    if where == 'list':
        return [1, [obj], obj]
    if where == 'dict':
        return {'a': {'b': obj}, 'c': (obj, 2)}
    if where == 'closure':
        def f():
            return obj
        return f
    tns = {'__name__': 'sendns', '__builtins__': __import__('builtins'), 'held': obj}
    if where == 'globals':
        exec('def g(): return held', tns)
        return tns['g']
    if where == 'class':
        exec('class K:\n    h = held\n    def m(self): return held', tns)
        return [tns['K'], tns['K']()]
    exec('class A: pass\na = A(); a.x = held\ndef fn(): pass\nfn.attr = held', tns)
    return [tns['a'], tns['fn']]


def work(env, plan):
    import dill, io, gc, copyreg, warnings, logging
    from sim import world as W, seams, bombs
    from sim.digest import Digester
    from sim.norm import norm, explain
    from sim.props.m01 import SKIP_PROTO01
    from sim.props.t03 import Out
    sys.path.insert(0, os.getcwd())
    mod = sess.module(plan['mode'])
    ns = vars(mod)
    sess.populate(ns, plan['things'])
    own = {}
    for t, n, _ in plan['things']:
        own[n] = {'__name__': 'sendns', '__builtins__': __import__('builtins')}
        W.install(own[n], t, n)
    seams.arm(None)
    if plan['byvalue']:
        bns = bombs.byvalue()
    else:
        import simbombs
        bns = vars(simbombs)
    bns['_register']()
    import threading, socket
    things = lambda: [W.evaluate(own[n], t, n) for t, n, _ in plan['things']]
    made = {}
    for k, f in enumerate(plan['fails']):
        o = []
        if f['kind'] in ('user', 'both', 'write', 'call'):
            o.append(place(ns, eval(bombs.OBJ[f['obj']], bns), f['where']))
        if f['kind'] in ('bad', 'both'):
            o.append(place(ns, eval(bombs.BAD[f['bad']], bns), f['where']))
        if f['withthings']:
            o.insert(0, things())
        if f['kind'] == 'write':
            if f['bulk']:
                o.append([b'x' * 70000, list(range(500))])
            else:
                o[:0] = [b'x' * 70000]
        made[k] = o
    for c in list(gc.get_objects()):
        if isinstance(c, type) and c.__module__ in ('sendns', 'bombns', 'simbombs', '__main__', 'rtmod', sess.MOD, 'simpkg.simsub'):
            copyreg._slotnames(c)
    dill.settings.update(plan['settings'])
    if plan['trace']:
        sys.stderr = Out('stream')
        dill.detect.trace(True)
    warnings.simplefilter(plan['warn'])
    warnings.showwarning = quiet

    def good(a):
        """bytes of a good save"""
        w = seams.Writer({})
        if a['op'].startswith('module'):
            dill.dump_module(w, module=mod, refimported=a['op'] == 'module-ref')
            return bytes(w.data)
        kw = dict(a['kw'])
        if kw['protocol'] in (0, 1):
            kw['protocol'] = 2
        what = things() if a['what'] == 'things' else [ns] if a['what'] == 'ns' and 0 else [eval(bombs.OBJ[b], bns) for b in ('many', 'classattr', 'reducer', 'nested')]
        if a['op'] == 'pickler':
            dill.Pickler(w, **{k: v for k, v in kw.items() if v is not None}).dump(what)
        else:
            dill.dump(what, w, **kw)
        return bytes(w.data)

    def refs():
        out = []
        for a in plan['after']:
            seams.arm(None)
            try:
                d = good(a)
                out.append(['ok', norm(d), d.hex()])
            except Exception as e:
                out.append(['raised', type(e).__name__, ''])
        return out
    for k in made:      # looking at an object may create its __dict__
        snapshot(W, mod, ns, plan, made, k, 'deep' in plan['fails'][k]['bad'] and plan['fails'][k]['kind'] in ('bad', 'both'))
    Digester()(things())
    want = sess.forked(refs)
    if want[0] != 'ok':
        raise RuntimeError(want[1])
    want = want[1]

    def nested(swallow):
        """an object's own code that saves something else, which fails"""
        def action(where):
            seams.Trip.at = None
            for x in ([lambda: 0, (i for i in [1])], {'deep': bns['State'](), 'g': socket.socket}):
                try:
                    dill.dumps(x, recurse=True, byref=False, protocol=3)
                except Exception:
                    pass
            if not swallow:
                raise seams.UserError('sim: after a nested save')
        return action

    def perform(k, f, script):
        op, kw = f['op'], f['kw']
        if f['kind'] == 'write' and op not in ('dump', 'pickler', 'module'):
            op = 'dump'
        w = seams.Writer(script, env if script else None)
        if op.startswith('module'):
            ns['zz_bomb'] = made[k]
            try:
                if op == 'module':
                    dill.dump_module(w, module=mod, refimported=f['ref'])
                else:
                    dill.dump_module('out%d.pkl' % k, module=mod, refimported=f['ref'])
            finally:
                ns.pop('zz_bomb', None)
        elif op == 'dumps':
            dill.dumps(made[k], **kw)
        elif op == 'dump':
            dill.dump(made[k], w, **kw)
        elif op == 'pickler':
            dill.Pickler(w, **{a: b for a, b in kw.items() if b is not None}).dump(made[k])
        elif op == 'copy':
            dill.copy(made[k], **kw)
        elif op == 'pickles':
            return dill.pickles(made[k])
        elif op == 'errors':
            dill.detect.errors(made[k])
            dill.detect.badobjects(made[k])
        elif op == 'temp':
            dill.temp.dump(made[k], dir='.').close()
        else:
            dill.temp.dumpIO(made[k])
        return w

    def count(k, f):
        seams.arm(None)
        w = None
        c = seams.CallFault()
        try:
            if f['kind'] == 'call':
                with c:
                    w = perform(k, f, {})
            else:
                w = perform(k, f, {})
        except BaseException:
            pass
        return [c.choose(f['at']) if f['kind'] == 'call' else seams.Trip.n, w.calls if isinstance(w, seams.Writer) else 0, len(w.data) if isinstance(w, seams.Writer) else 0]
    failed = 0
    for k, f in enumerate(plan['fails']):
        deep = 'deep' in f['bad'] and f['kind'] in ('bad', 'both')
        calls, writes, size = sess.forked(lambda: count(k, f))[1] if not deep else (3, 3, 100)
        script, at = {}, None
        if f['kind'] in ('user', 'both'):
            at = 1 + int(f['at'] * max(1, calls))
        elif f['kind'] == 'write':
            script = {'exc': f['exc'], 'torn': f['torn'], 'tell': f['tell']}
            if f['torn']:
                script['at'] = int(f['at'] * size)
            else:
                script['call'] = 1 + int(f['at'] * max(1, writes))
        gc.collect()
        before = snapshot(W, mod, ns, plan, made, k, deep)
        act = {'nested': nested(False), 'nestedgood': nested(True)}.get(f['exc'])
        seams.arm(at, f['exc'] if act is None else 'user', act)
        err = None
        c = seams.CallFault(calls, f['exc']) if f['kind'] == 'call' else None
        try:
            if c:
                with c:
                    perform(k, f, script)
            else:
                perform(k, f, script)
        except BaseException as e:
            err = type(e).__name__
            e.__traceback__ = None
            e.__context__ = e.__cause__ = None
            del e
        fired = seams.Trip.fired
        seams.arm(None)
        if err is not None:
            failed += 1
        if c and c.fired:
            env.count('fault:call inside dill or pickle raises ' + f['exc'])
        elif fired:
            env.count("fault:saved object's code raises " + f['exc'])
        elif err and f['kind'] == 'bad':
            env.count('fault:object cannot be saved')
        gc.collect()
        after = snapshot(W, mod, ns, plan, made, k, deep)
        what = 'save %d: %s with fault %s %s (object %s in %s, call %s)%s' % (
            k, f['op'], f['kind'], f['exc'] if f['kind'] != 'bad' else f['bad'], f['obj'], f['where'], at if not c else '%s %s' % (c.at, c.where), ' raised ' + err if err else ' returned')
        env.log('fail', k, f['op'], f['kind'], f['exc'], at, err, fired)
        env.state([f['op'], f['kind'], f['exc'] if f['kind'] != 'bad' else f['bad'], f['obj'], plan['trace']])
        for label in before:
            b, a = before[label], after[label]
            if b != a:
                d = W.compare(b, a) if isinstance(b, dict) else diff(b, a)
                env.log('violation', label, '%s: %s' % (what, d))
                return failed
    for a, ref in zip(plan['after'], want):
        seams.arm(None)
        try:
            d = good(a)
            got = ['ok', norm(d), d]
        except Exception as e:
            e.__traceback__ = None
            got = ['raised', type(e).__name__, '']
        if got[:2] != ref[:2]:
            env.log('violation', 'next-save', 'after failures %s the save %s differs: %s' % (
                [(f['op'], f['kind'], f['exc']) for f in plan['fails']], a,
                explain(bytes.fromhex(ref[2]), got[2]) if got[0] == ref[0] == 'ok' else 'was %s, now %s' % (ref[:1] + ref[1:2], got[:2])))
            return failed
    return failed


def quiet(*a, **k):
    pass


def snapshot(W, mod, ns, plan, made, k, deep):
    from sim.digest import Digester
    s = {}
    s['process-state'] = W.dill_globals_snapshot()
    s['namespace'] = W.ns_snapshot(ns)
    s['module-attributes'] = repr(sorted(k2 for k2 in vars(mod)))
    d = Digester(byvalue=(sess.NAME[plan['mode']], 'simbombs'))
    if not deep:
        s['objects'] = d([made[k], list(ns.items())])
    mods = W.modules_snapshot()
    s['modules'] = {m: i for m, i in mods.items() if m in ('__main__', 'dill', sess.MOD, 'simpkg.simsub', 'simpkg', 'rtmod', 'pickle', 'simbombs') or m.startswith('__runtime')}
    s['descriptors'] = sorted(v for v in W.open_fds().values() if not v.startswith('socket:') and 'out' not in v)
    s['nfds'] = len(W.open_fds())
    s['locks'] = locks_state()
    import types
    s['scratch'] = [f for f in sorted(os.listdir('.')) if not f.startswith('out') and f != '__pycache__']
    return s
