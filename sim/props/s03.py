"""S03: a session restore that fails leaves module, module table and descriptors alone; a later one succeeds as if it had not happened."""
import os, sys
from sim import sess
from sim.things import THINGS
from sim.ctl import Violation
from sim.digest import diff

ID = 'S03'
RUNS = {'quick': 1200, 'thorough': 12000}
TECHNIQUE = 'seeded simulation of failing session restores (cut, failing, mismatched input; raising objects), differential against a process without them'
NOTE = ('Seeded search over sessions, read faults, cut points, mismatches and reconstruction failures, every run ending with an intact '
        'restore compared with a process that saw no failure. Faults come from simulated streams and scratch files; trusts the digest.')
SHRINK = ('attempts', 'live', 'things')
RULE = ('one run = a session of 1..4 things saved in one process; in another, 1..5 failing restores (each with its own fault) and then an '
        'intact one; non-trivial when at least one fault fired; distinct by event log')
STATES = 'distinct (mode, refimported, fault kind, channel, exception raised) tuples'
REAL = 'dill, pickle, file system, separate processes'
STUB = 'input streams with scripted faults'

KINDS = ('cut', 'cut', 'cut', 'cut1', 'ioerr', 'ioerr', 'missing', 'notsession', 'othersession', 'bomb', 'bomb', 'nodep', 'depraise', 'depraise', 'dir', 'wrongarg', 'call', 'call', 'call')
EXC = ('oserror', 'reset', 'timeout', 'value', 'memory', 'interrupt')


def gen(rng, tier, i):
    mode = rng.choice(sess.MODES)
    names = [t for t in THINGS if not THINGS[t].flags.get('sess')]
    attempts = []
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        k = rng.choice(KINDS)
        attempts.append({'kind': k, 'at': rng.random(), 'exc': rng.choice(EXC), 'chan': rng.choice(['path', 'reader', 'buffered', 'bytesio']),
                         'arg': rng.choice(['none', 'object', 'name']), 'n': rng.choice([1, 1, 2, 3]), 'callexc': rng.choice(['recursion', 'memory', 'interrupt']),
                         'chunks': [rng.choice([1, 7, 100, 4096, 1 << 20]) for _ in range(3)],
                         'bombexc': rng.choice(['user', 'oserror', 'interrupt', 'key', 'name' if 0 else 'attr', 'type', 'eof', 'import', 'exit', 'memory'])})
    if any(a['kind'] == 'call' for a in attempts):
        # such a restore may succeed without that call; then identical named tuple classes of the live module are reused
        names = [t for t in names if t not in ('namedtuple', 'ntmore')]
    return {'mode': mode, 'things': sess.gen_things(rng, rng.choice([1, 2, 3, 4]), names),
            'live': sess.gen_things(rng, rng.choice([0, 1, 2]), names), 'overlap': rng.random() < .5,
            'ref': rng.random() < .4, 'proto': rng.choice([None, None, 2, 3, 4, 5, 0]), 'pad': rng.random() < .4, 'attempts': attempts,
            'arg': rng.choice(['none', 'object', 'name'])}


DEP = 'depval = ["dep"]\ndef depfn(): return "dep"\nclass DepK: pass\n'
BOMB = '''
from sim import seams
class Bomb:
    def __init__(self): self.v = [1]
    def __setstate__(self, st):
        seams.trip('setstate')
        self.__dict__.update(st)
    def __eq__(self, o): return type(o) is type(self) and o.v == self.v
    __hash__ = object.__hash__
'''


def run(plan, ctl):
    plan = dict(plan)
    if plan['proto'] in (0, 1):
        from sim.props.m01 import SKIP_PROTO01
        plan['things'] = [t for t in plan['things'] if t[0] not in SKIP_PROTO01]
    sess.write_module(ctl)
    with open(ctl.path('simdep.py'), 'w') as f:
        f.write(DEP)
    with open(ctl.path('simbomb.py'), 'w') as f:
        f.write(BOMB)
    made = ctl.node('A', 'make', {'plan': plan}).result
    ref = ctl.node('B', 'restore', {'plan': plan, 'attempts': []})
    for ev in ref.events:
        if ev[0] == 'violation':
            raise Violation('baseline-' + ev[1], 'without any failure: ' + ev[2])
    r = ctl.node('B', 'restore', {'plan': plan, 'attempts': plan['attempts']})
    fired = 0
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])
        if ev[0] == 'attempt':
            fired += 1
    if ref.result != r.result:
        raise Violation('later-restore', 'after failed attempts %r the intact restore differs: %s' % (
            [a['kind'] for a in plan['attempts']], diff(ref.result, r.result)))
    return {'nontrivial': fired > 0}


def make(env, plan):
    mod = sess.module(plan['mode'])
    sys.path.insert(0, os.getcwd()) if os.getcwd() not in sys.path else None
    ns = vars(mod)
    sess.populate(ns, plan['things'])
    import simdep, simbomb
    ns['depvalx'], ns['depfn'], ns['DepK'] = simdep.depval, simdep.depfn, simdep.DepK
    ns['bombs'] = [simbomb.Bomb() for _ in range(3)]
    if plan['pad']:
        ns['aaapad'] = os.urandom(1) and [bytes(range(256)) * 100, 'x' * 9000]      # the tail lies beyond any first chunk
    data = sess.dump_to_bytes(mod, plan['mode'], plan['ref'], plan['proto'])
    open('good.pkl', 'wb').write(data)
    import dill
    open('notsession.pkl', 'wb').write(dill.dumps({'plain': [1, 2]}))
    other = {'main': 'import', 'import': 'runtime', 'runtime': 'main', 'sub': 'import'}[plan['mode']]
    om = sess.module(other)
    if other == 'main':
        pass
    else:
        vars(om)['ox'] = [1]
    open('other.pkl', 'wb').write(sess.dump_to_bytes(om, other, False, plan['proto']))
    return {'size': len(data)}


def restore(env, plan, attempts):
    import dill, gc, io
    from sim import world as W, seams
    mode = plan['mode']
    sys.path.insert(0, os.getcwd())
    mod = sess.module(mode)
    ns = vars(mod)
    sess.populate(ns, [[t, n + 50, k] for t, n, k in plan['live']])
    if plan['overlap']:
        sess.populate(ns, [[t, n, 0] for t, n, k in plan['things']])
        ns['bombs'] = 'mine'
    import simbomb, simdep
    data = open('good.pkl', 'rb').read()
    # everything a restore may import is imported before looking
    for a in [None] + attempts:
        if a is None:
            continue
        if not attempt(env, plan, a, mod, ns, data, W, seams):
            return None
    seams.arm(None)
    try:
        ret = load(plan, io.BytesIO(data), plan['arg'], mod)
    except BaseException as e:
        env.log('violation', 'intact-restore-fails', 'after %r: %s: %s' % ([a['kind'] for a in attempts], type(e).__name__, str(e)[:300]))
        return None
    target = mod
    if mode == 'runtime' and plan['arg'] != 'object':
        target = ret
    tn = vars(target)
    return [sess.digest_ns(tn, mode), sess.probes(tn, mode, plan['things'])]


def load(plan, src, arg, mod):
    import dill
    kw = {}
    if arg == 'object':
        kw['module'] = mod
    elif arg == 'name' and plan['mode'] != 'runtime':
        kw['module'] = sess.NAME[plan['mode']]
    return dill.load_module(src, **kw)


def attempt(env, plan, a, mod, ns, data, W, seams):
    import dill, gc, io
    kind, chan = a['kind'], a['chan']
    seams.arm(None)
    kw_arg = a['arg']
    moved = False
    must = True
    src = None
    bad = data
    if kind == 'cut':
        bad = data[:int(len(data) * a['at'])]
    elif kind == 'cut1':
        bad = data[:len(data) - a['n']]
    elif kind == 'notsession':
        bad = open('notsession.pkl', 'rb').read()
    elif kind == 'othersession':
        bad = open('other.pkl', 'rb').read()
        kw_arg = 'object'
    elif kind == 'bomb':
        seams.arm(a['n'], a['bombexc'])
    elif kind == 'nodep':
        if not plan['ref'] and plan['mode'] == 'x':
            return True
        os.rename('simdep.py', 'simdep.off')
        sys.modules.pop('simdep', None)
        moved = True
    elif kind == 'depraise':        # the module that was refered to fails while being imported
        with open('simdep.new', 'w') as f:
            f.write('from sim import seams\nseams.Trip.fired += 1\nraise seams.EXC[%r]()\n' % a['bombexc'])
        os.rename('simdep.py', 'simdep.off')
        os.rename('simdep.new', 'simdep.py')
        import shutil
        shutil.rmtree('__pycache__', ignore_errors=True)
        sys.modules.pop('simdep', None)
        moved = True
    elif kind == 'wrongarg':
        kw_arg = 'wrong'
    if chan == 'path' or kind in ('missing', 'dir'):
        src = 'bad.pkl'
        if kind == 'missing':
            src = 'no-such-file'
        elif kind == 'dir':
            os.makedirs('d.pkl', exist_ok=True)
            src = 'd.pkl'
        else:
            open(src, 'wb').write(bad)
        if kind == 'ioerr':
            chan = 'buffered'
    if kind not in ('missing', 'dir') and (chan != 'path'):
        at = int(len(data) * a['at'])
        if chan == 'bytesio' and kind != 'ioerr':
            src = io.BytesIO(bad)
        elif chan == 'reader' or (chan == 'bytesio' and kind == 'ioerr'):
            s = {'tell': 'raise'}
            if kind == 'ioerr':
                s.update(at=at, exc=a['exc'])
            src = seams.Reader(bad, s, env)
        else:
            src = io.BufferedReader(seams.RawChunks(bad, a['chunks'], (at, a['exc']) if kind == 'ioerr' else None, env=env), 512)
    if kind in ('cut', 'cut1', 'missing', 'notsession', 'othersession', 'dir', 'nodep', 'wrongarg'):
        env.count('fault:%s' % kind)
    call = None

    def perform():
        if kw_arg == 'wrong':
            import types
            dill.load_module(src, module=types.ModuleType('notthis') if a['n'] == 1 else ('math' if a['n'] == 2 else 42))
        else:
            load(plan, src, kw_arg, mod)
    if kind == 'call':
        def count():
            try:
                with seams.CallFault() as c:
                    perform()
            except BaseException:
                pass
            return c.choose(a['at'])
        call = seams.CallFault(sess.forked(count)[1], a['callexc'])
    gc.collect()
    before_ids, before_dig = W.ns_snapshot(ns), sess.digest_ns(ns, plan['mode'])
    before_mods, before_fds, before_glob = W.modules_snapshot(), W.open_fds(), W.dill_globals_snapshot()
    err = None
    try:
        if call:
            with call:
                perform()
        else:
            perform()
    except BaseException as e:
        err = type(e).__name__
        e.__traceback__ = None
        del e
    fired = seams.Trip.fired
    seams.arm(None)
    if moved:
        os.rename('simdep.off', 'simdep.py')
    if err is None:
        if kind == 'nodep' and 'simdep' not in needs(data):
            return True
        if kind in ('bomb', 'depraise') and not fired:
            return True
        if call:
            return True     # dill or a restored object's own code made do without that call
        env.log('violation', 'silent-failure', 'a restore with fault %s (%s, arg %s) returned without an error' % (kind, chan, kw_arg))
        return False
    env.log('attempt', kind, chan, kw_arg, err)
    env.state([plan['mode'], plan['ref'], kind, chan, err])
    if kind == 'depraise':
        env.count('fault:import raises ' + a['bombexc'])
    if kind == 'bomb' and fired:
        env.count('fault:reconstruction raises ' + a['bombexc'])
    if call and call.fired:
        env.count('fault:call inside dill or pickle raises ' + a['callexc'])
        kind = 'call %s %s %s' % (a['callexc'], call.at, call.where)
    gc.collect()
    what = 'fault %s (%s, arg %s, %s raised)' % (kind, chan, kw_arg, err)
    done = call and call.where == 'close'      # everything was restored already
    after = W.ns_snapshot(ns)
    d = W.compare(before_ids, after)
    if d and not done:
        env.log('violation', 'namespace-changed', '%s: %s' % (what, d))
        return False
    now = sess.digest_ns(ns, plan['mode'])
    if now != before_dig and not done:
        env.log('violation', 'values-changed', '%s: %s' % (what, diff(before_dig, now)))
        return False
    mods = W.modules_snapshot()
    for k in before_mods:
        if k not in mods or mods[k] != before_mods[k]:
            env.log('violation', 'modules-changed', '%s: sys.modules[%r] %s' % (what, k, 'is gone' if k not in mods else 'is another object'))
            return False
    for k in mods:
        if k not in before_mods and (k.startswith('__runtime__') or getattr(sys.modules[k], '__spec__', None) is None):
            env.log('violation', 'modules-changed', '%s: sys.modules[%r] was left behind' % (what, k))
            return False
    fds = W.open_fds()
    if len(fds) != len(before_fds):
        env.log('violation', 'descriptors', '%s: open descriptors %r -> %r' % (what, sorted(before_fds.values()), sorted(fds.values())))
        return False
    d = W.compare(before_glob, W.dill_globals_snapshot())
    if d:
        env.log('violation', 'process-state', '%s: %s' % (what, d))
        return False
    return True


def needs(data):
    import pickletools
    return {x for op, x, pos in pickletools.genops(data) if isinstance(x, str)}
