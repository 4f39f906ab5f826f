"""S05: loading a session as a dictionary never disturbs the live module, and gives what was saved."""
import os, sys
from sim import sess
from sim.things import THINGS
from sim.ctl import Violation
from sim.digest import diff

ID = 'S05'
RUNS = {'quick': 1500, 'thorough': 9000}
TECHNIQUE = 'seeded simulation of histories mixing dictionary loads, faults, live mutation and ordinary loads, against before/after snapshots and the saved state'
NOTE = ('Seeded search over sessions, histories and read faults. The live module is compared by identity and by deep digest around every '
        'dictionary load; results with the digest and probes recorded when the session was saved. Trusts the digest.')
SHRINK = ('ops', 'live', 'things')
RULE = ('one run = sessions saved by one process at two moments; in another process a history of 2..8 dictionary loads (some failing by '
        'script), ordinary loads and changes of the live module; non-trivial when at least one dictionary load succeeded or failed by fault')
STATES = 'distinct (mode, refimported, update, fault, live module loaded) tuples'
REAL = 'dill, pickle, file system, separate processes'
STUB = 'input streams with scripted faults'

EXC = ('oserror', 'reset', 'memory', 'interrupt')


def gen(rng, tier, i):
    mode = rng.choice(['main', 'main', 'import', 'runtime', 'sub'])
    names = [t for t in THINGS if not THINGS[t].flags.get('sess')]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        k = rng.choice(['asdict', 'asdict', 'asdict', 'fault', 'fault', 'mutate', 'load', 'rebind', 'touch'])
        op = {'op': k, 'which': rng.randrange(2), 'update': rng.random() < .5, 'chan': rng.choice(['path', 'bytesio', 'reader', 'buffered'])}
        if k == 'fault':
            op.update(kind=rng.choice(['cut', 'cut1', 'ioerr', 'bomb', 'bomb', 'nodep', 'missing', 'notsession', 'call', 'call', 'call']), at=rng.random(), exc=rng.choice(EXC),
                      n=rng.choice([1, 2, 3]), callexc=rng.choice(['recursion', 'memory', 'interrupt']), bombexc=rng.choice(['user', 'interrupt', 'key', 'attr', 'import', 'exit']))
        if k in ('mutate', 'rebind'):
            op.update(k=rng.randrange(1, 50))
        ops.append(op)
    if any(o['update'] for o in ops):
        names = [t for t in names if t not in ('namedtuple', 'ntmore')]      # identical named tuple classes of the live module are reused
    return {'mode': mode, 'things': sess.gen_things(rng, rng.choice([1, 2, 3, 4]), names),
            'live': sess.gen_things(rng, rng.choice([0, 1, 2]), names), 'overlap': rng.random() < .6, 'loaded': rng.random() < .75 or mode == 'main',
            'ref': rng.random() < .4, 'proto': rng.choice([None, None, 2, 4, 5]), 'ops': ops}


def run(plan, ctl):
    from sim.props import s03
    sess.write_module(ctl)
    for name, text in (('simdep', s03.DEP), ('simbomb', s03.BOMB)):
        with open(ctl.path(name + '.py'), 'w') as f:
            f.write(text)
    made = ctl.node('A', 'make', {'plan': plan})
    r = ctl.node('B', 'history', {'plan': plan, 'made': made.result})
    n = 0
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])
        if ev[0] in ('asdict', 'failed'):
            n += 1
    return {'nontrivial': n > 0}


def make(env, plan):
    import types
    mode = plan['mode']
    mod = sess.module(mode)
    if os.getcwd() not in sys.path:
        sys.path.insert(0, os.getcwd())
    ns = vars(mod)
    sess.populate(ns, plan['things'])
    import simdep, simbomb
    ns['depvalx'], ns['depfn'], ns['DepK'] = simdep.depval, simdep.depfn, simdep.DepK
    ns['bombs'] = [simbomb.Bomb() for _ in range(3)]
    out = []
    for w in (0, 1):
        if w:
            for t, n, k in plan['things']:
                from sim import world as W
                W.do_step(ns, t, n, 77)
            ns['second'] = [1, 2]
        data = sess.dump_to_bytes(mod, mode, plan['ref'], plan['proto'])
        open('s%d.pkl' % w, 'wb').write(data)
        out.append({'digest': sess.digest_ns(ns, mode), 'probes': sess.probes(ns, mode, plan['things']),
                    'names': sorted(k for k in ns if not k.startswith('__')), 'size': len(data),
                    'funcs': sorted(k for k, v in ns.items() if isinstance(v, types.FunctionType) and v.__globals__ is ns)})
    import dill
    open('notsession.pkl', 'wb').write(dill.dumps({'plain': [1, 2]}))
    return out


def live_module(mode):
    return sys.modules.get(sess.NAME[mode]) if mode != 'runtime' else None


def history(env, plan, made):
    import dill, io, gc
    from sim import world as W, seams
    mode = plan['mode']
    if os.getcwd() not in sys.path:
        sys.path.insert(0, os.getcwd())
    import simbomb, simdep
    if plan['loaded'] and mode != 'runtime':
        ns = vars(sess.module(mode))
        sess.populate(ns, [[t, n + 50, k] for t, n, k in plan['live']])
        ns['_own'], ns['__own__'], ns['_'] = ['private'], {'dunder': 1}, ['last']
        if plan['overlap']:
            sess.populate(ns, [[t, n, 0] for t, n, k in plan['things']])
            ns['bombs'] = 'mine'
    got = []
    for i, op in enumerate(plan['ops']):
        live = live_module(mode)
        ns = vars(live) if live is not None else None
        if op['op'] in ('mutate', 'rebind'):
            if ns is None:
                continue
            if op['op'] == 'rebind':
                ns['rebound'] = op['k']
                for k in sorted(ns):
                    if not k.startswith('__') and k != 'sim' and len(k) % 3 == op['k'] % 3:
                        ns[k] = ['rebound', op['k']]
            else:
                for t, n, k in plan['live']:
                    try:
                        W.do_step(ns, t, n + 50, op['k'])
                    except Exception:
                        pass
            continue
        if op['op'] == 'touch':
            # the dictionaries belong to the caller: changing them must not reach the live module
            before = None if ns is None else sess.digest_ns(ns, mode)
            for d in got:
                for t, n, k in plan['things']:
                    try:
                        W.do_step(d, t, n, 5)
                    except Exception:
                        pass
                d['touched'] = i
            if before is not None and sess.digest_ns(ns, mode) != before:
                env.log('violation', 'dictionary-linked', 'changing the returned dictionary changed the live module: ' + diff(before, sess.digest_ns(ns, mode)))
                return
            got = []
            continue
        if op['op'] == 'load':
            if ns is None:
                continue
            try:
                dill.load_module('s%d.pkl' % op['which'])
            except Exception as e:
                env.log('violation', 'ordinary-load', 'after %r: load_module: %s: %s' % ([o['op'] for o in plan['ops'][:i]], type(e).__name__, str(e)[:200]))
                return
            got = []        # may now share what was live then
            continue
        d = asdict(env, plan, made, op, i, live, ns, W, seams)
        if d is False:
            return
        if d is not None and not op['update']:
            got.append(d)


def asdict(env, plan, made, op, i, live, ns, W, seams):
    import dill, io, gc
    mode, w = plan['mode'], op['which']
    data = open('s%d.pkl' % w, 'rb').read()
    bad, src, script, moved = data, None, {'tell': 'raise'}, False
    kind = op.get('kind') if op['op'] == 'fault' else None
    chan = op['chan']
    seams.arm(None)
    if kind == 'cut':
        bad = data[:int(len(data) * op['at'])]
    elif kind == 'cut1':
        bad = data[:len(data) - op['n']]
    elif kind == 'notsession':
        bad = open('notsession.pkl', 'rb').read()
    elif kind == 'bomb':
        seams.arm(op['n'], op['bombexc'])
    elif kind == 'ioerr':
        chan = 'reader'
        script.update(at=int(len(data) * op['at']), exc=op['exc'])
    elif kind == 'nodep':
        os.rename('simdep.py', 'simdep.off')
        sys.modules.pop('simdep', None)
        moved = True
    if kind == 'missing':
        src = 'no-such-file'
    elif chan == 'path':
        src = 'x.pkl'
        open(src, 'wb').write(bad)
    elif chan == 'bytesio':
        src = io.BytesIO(bad)
    elif chan == 'reader':
        src = seams.Reader(bad, script, env)
    else:
        src = io.BufferedReader(seams.RawChunks(bad, [7, 100, 1000], env=env), 256)
    call = None
    if kind == 'call':
        def count():
            try:
                with seams.CallFault() as c:
                    dill.load_module_asdict(src, update=op['update'])
            except BaseException:
                pass
            return c.choose(op['at'])
        call = seams.CallFault(sess.forked(count)[1], op['callexc'])
        kind = 'call %s %s' % (op['callexc'], call.at)
        env.count('fault:call inside dill or pickle raises ' + op['callexc'])
    elif kind and kind not in ('bomb', 'ioerr'):
        env.count('fault:' + kind)
    gc.collect()
    ids = W.ns_snapshot(ns) if ns is not None else None
    dig = sess.digest_ns(ns, mode) if ns is not None else None
    mods, fds, glob = W.modules_snapshot(), W.open_fds(), W.dill_globals_snapshot()
    err = res = None
    label = str(src)
    try:
        if call:
            with call:
                res = dill.load_module_asdict(src, update=op['update'])
        else:
            res = dill.load_module_asdict(src, update=op['update'])
    except BaseException as e:
        err = type(e).__name__ + ': ' + str(e)[:200]
        e.__traceback__ = None
        del e
    fired = seams.Trip.fired
    seams.arm(None)
    if moved:
        os.rename('simdep.off', 'simdep.py')
        import importlib
        importlib.import_module('simdep')
    if call:
        kind += ' %s' % call.where
    what = 'load_module_asdict(update=%s) number %d (%s%s)' % (op['update'], i, chan, ', fault ' + kind if kind else '')
    env.log('asdict' if err is None else 'failed', what, err)
    env.state([mode, plan['ref'], op['update'], op.get('kind') if op['op'] == 'fault' else None, live is not None])
    if kind == 'bomb' and fired:
        env.count('fault:reconstruction raises ' + op['bombexc'])
    if err is None and kind and not call and not (kind == 'nodep') and not (kind == 'bomb' and not fired):
        env.log('violation', 'silent-failure', what + ' returned without an error')
        return False
    if err is not None and not kind:
        env.log('violation', 'fails', what + ': ' + err)
        return False
    del src
    gc.collect()
    now_live = live_module(mode)
    after = W.modules_snapshot()
    for k in mods:
        if k == 'simdep' and moved:
            continue
        if after.get(k) != mods[k]:
            env.log('violation', 'modules-changed', '%s: sys.modules[%r] %s' % (what, k, 'is gone' if k not in after else 'is another object'))
            return False
    for k in after:
        # a live module may be imported on the way (documented), a scratch one must not stay
        if k not in mods and (k.startswith('__runtime__') or getattr(sys.modules[k], '__spec__', None) is None):
            env.log('violation', 'modules-changed', '%s: sys.modules[%r] was left behind' % (what, k))
            return False
    if ns is not None:
        d = W.compare(ids, W.ns_snapshot(ns))
        if d:
            env.log('violation', 'live-changed', '%s: the live module: %s' % (what, d))
            return False
        now = sess.digest_ns(ns, mode)
        if now != dig:
            env.log('violation', 'live-values', '%s: the live module: %s' % (what, diff(dig, now)))
            return False
    elif now_live is not None and mode == 'sub':
        import simpkg
        if sys.modules['simpkg.simsub'] is not simpkg.simsub:
            env.log('violation', 'modules-changed', '%s: the package and the module table disagree' % what)
            return False
    if len(W.open_fds()) != len(fds):
        env.log('violation', 'descriptors', '%s: open descriptors %r -> %r' % (what, sorted(fds.values()), sorted(W.open_fds().values())))
        return False
    d = W.compare(glob, W.dill_globals_snapshot())
    if d:
        env.log('violation', 'process-state', '%s: %s' % (what, d))
        return False
    if err is not None or kind:
        return None
    # what came back
    import types
    if type(res) is not dict or res is ns:
        env.log('violation', 'result', '%s returned %s' % (what, type(res).__name__))
        return False
    if res.get('__session__') != label:
        env.log('violation', 'result', "%s: '__session__' is %r" % (what, res.get('__session__')))
        return False
    names = sorted(k for k in res if not k.startswith('__'))
    want = made[w]['names']
    if op['update'] and ns is not None:
        want = sorted(set(want) | {k for k in ns if not k.startswith('__')})
    if not op['update'] or ns is not None:
        if names != want:
            env.log('violation', 'names', '%s: missing names %r, extra names %r' % (what, sorted(set(want) - set(names))[:5], sorted(set(names) - set(want))[:5]))
            return False
    own = {k: res[k] for k in res if k in made[w]['names'] or k.startswith('__')}
    if op['update'] and ns is not None:
        for k in names + [k for k in ('__own__',) if k in ns]:
            if k not in made[w]['names'] and res.get(k) is not ns[k]:
                env.log('violation', 'update', '%s: %r is not the live module\'s' % (what, k))
                return False
    from sim.digest import Digester
    dg = Digester(byvalue=(sess.NAME[mode],))
    dg.roots[id(res)] = 'ns'
    d = [x for x in dg.namespace(res, skip=set(names) - set(made[w]['names']))]
    if d != made[w]['digest']:
        env.log('violation', 'values', '%s: %s' % (what, diff(made[w]['digest'], d)))
        return False
    for k in made[w]['funcs']:
        if res[k].__globals__ is not res:
            env.log('violation', 'globals', '%s: function %s does not use the dictionary as its globals' % (what, k))
            return False
    p = sess.probes(res, mode, plan['things'])
    if p != made[w]['probes']:
        env.log('violation', 'behaviour', '%s: %s' % (what, diff(made[w]['probes'], p)))
        return False
    return res
