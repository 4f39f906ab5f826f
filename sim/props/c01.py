"""C01: pickles() and check() never report success for an object that did not survive."""
import os, signal, sys
from sim import sess
from sim.things import THINGS
from sim.ctl import HERE, REPO, Violation

ID = 'C01'
RUNS = {'quick': 1500, 'thorough': 30000}
WALL = {'quick': 50, 'thorough': 600}
TECHNIQUE = 'seeded simulation of histories of pickles() and check() calls on objects whose own code fails at a chosen call, with second processes that are killed, fail, stop early or never start; the same round trip made by a forked process and the script of the second process are the oracle'
NOTE = ('Seeded search over objects, options, failing calls and fates of the second process. That a process which ends with status 0 did its work is taken from its exit status, as check() does; '
        'what an object compares equal to is its own business.')
SHRINK = ('steps',)
RULE = ('one run = 1..6 calls of pickles or check in one process; non-trivial when a fault was hit or an object failed its round trip; distinct by event log')
STATES = 'distinct (call, object, options, fate, outcome) tuples'
REAL = 'dill, subprocess, the second Python processes'
STUB = "saved objects' methods with scripted faults; programs standing in for an interpreter that dies; descriptor limits"

SOURCE = '''
import os, sys
def act(what):
    if os.environ.get('SIMCHILD'):
        if what == 'kill': os.kill(os.getpid(), 9)
        if what == 'abort': os.abort()
        if what == 'exit': os._exit(3)
        if what == 'sysexit': sys.exit('stop')
        if what == 'raise': raise ValueError('injected')
        if what == 'memory': raise MemoryError('injected')
        if what == 'noout': os.close(1)
        if what == 'deep': act2(0)
        if what == 'intr':
            import signal, time
            os.kill(os.getppid(), signal.SIGINT)
            time.sleep(30)
    return Shown(what)
def act2(n): return act2(n + 1) + 1
class Shown:
    def __init__(self, what): self.what = what
    def __str__(self):
        if self.what == 'str': raise TypeError('injected')
        if self.what == 'strkill': os.kill(os.getpid(), 15)
        return 'shown %s in %d' % (self.what, os.getpid())
    def __reduce__(self): return act, (self.what,)
class Liar:
    def __reduce__(self): return dict, ()
class Same:
    def __init__(self, n=0): self.n = n
    def __eq__(self, o): return type(o) is Same and o.n == self.n
    __hash__ = None
    def __reduce__(self): return Same, (self.n + 1,)
class Always:
    def __eq__(self, o): return True
    __hash__ = None
    def __reduce__(self): return list, ()
class Never:
    def __eq__(self, o): return False
    __hash__ = None
class Strange:
    def __eq__(self, o): return 'no' if type(o) is Strange else ''
    __hash__ = None
class NotAll:
    def all(self): return False
    def __reduce__(self): return HasAll, ()
class HasAll(NotAll):
    def all(self): return True
class EqRaises:
    def __init__(self, e): self.e = e
    def __eq__(self, o): raise self.e('injected')
    __hash__ = None
'''
FATES = ('ok', 'ok', 'ok', 'kill', 'abort', 'exit', 'sysexit', 'raise', 'memory', 'noout', 'deep', 'intr', 'str', 'strkill')
ODD = {'liar': 'Liar()', 'same': 'Same()', 'always': 'Always()', 'never': 'Never()', 'strange': 'Strange()', 'notall': 'NotAll()', 'eqvalue': 'EqRaises(ValueError)', 'eqtype': 'EqRaises(TypeError)',
       'eqattr': 'EqRaises(AttributeError)', 'eqintr': 'EqRaises(KeyboardInterrupt)', 'nan': 'float("nan")', 'listliar': '[Liar()]', 'class': 'Never', 'inlist': '[Never(), Same(3)]'}
PYTHONS = (None, None, None, None, 'absent', 'noexec', 'dies', 'killed', 'signal', 'dir')
SKIP = {'metaeq', 'norepr', 'mutualrec', 'selfclosure', 'wraps'}
TRAPPED = ('TypeError', 'AssertionError', 'NotImplementedError', 'PicklingError', 'UnpicklingError')


def gen(rng, tier, i):
    from sim.bombs import OBJ, BAD
    names = [t for t in THINGS if t not in SKIP and not THINGS[t].flags.get('main')]
    steps = []
    for k in range(rng.choice([1, 2, 3, 4, 6])):
        if rng.random() < .75:
            obj = rng.choice([['bomb', rng.choice([b for b in OBJ if b != 'module'])]] * 4 + [['bad', rng.choice([b for b in BAD if 'deep' not in b])], ['odd', rng.choice(list(ODD))], ['odd', rng.choice(list(ODD))],
                              ['thing', rng.choice(names)]])
            opts = {}
            for key, vals in (('exact', [True, True, False]), ('safe', [True, False]), ('protocol', [0, 2, 4, 5]), ('byref', [True, False]), ('recurse', [True, False]), ('ignore', [True, False])):
                if rng.random() < (.6 if key in ('exact', 'safe') else .2):
                    opts[key] = rng.choice(vals)
            steps.append({'op': 'pickles', 'obj': obj, 'n': k + 1, 'opts': opts, 'at': rng.choice([None, rng.random(), rng.random(), rng.random()]),
                          'exc': rng.choice(['oserror', 'user', 'memory', 'type', 'attr', 'exit', 'interrupt', 'recursion', 'pickling'])})
        else:
            steps.append({'op': 'check', 'obj': rng.choice([['act', rng.choice(FATES)]] * 6 + [['bad', rng.choice([b for b in BAD if 'deep' not in b])], ['lost', 0], ['big', 0], ['bomb', 'state']]), 'n': k + 1,
                          'opts': {key: rng.choice(vals) for key, vals in (('protocol', [0, 2, 5]), ('byref', [True, False]), ('recurse', [True, False])) if rng.random() < .2},
                          'verbose': rng.random() < .8, 'python': rng.choice(PYTHONS), 'nofds': rng.random() < .05, 'at': rng.choice([None, rng.random()]), 'exc': rng.choice(['oserror', 'user', 'type', 'interrupt'])})
    return {'steps': steps, 'settings': rng.choice([{}, {}, {'protocol': 2}, {'recurse': True}, {'byref': True}])}


def simplify(plan):
    for k, st in enumerate(plan['steps']):
        for key, v in (('at', None), ('opts', {}), ('python', None)):
            if st.get(key, v) != v:
                steps = [dict(x) for x in plan['steps']]
                steps[k][key] = v
                yield dict(plan, steps=steps)


def run(plan, ctl):
    with open(ctl.path('simobj.py'), 'w') as f:
        f.write(SOURCE)
    r = ctl.node('A', 'work', {'plan': plan, 'repo': REPO}, timeout=120)
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])
    return {'nontrivial': bool(r.result)}


# ---------------------------------------------------------------- node side
def make(st, ns, bns):
    kind, what = st['obj']
    if kind == 'bomb':
        from sim import bombs
        return eval(bombs.OBJ[what], bns)
    if kind == 'bad':
        from sim import bombs
        return eval(bombs.BAD[what], bns)
    if kind == 'odd':
        return eval(ODD[what], ns)
    if kind == 'act':
        return ns['Shown'](what)
    if kind == 'lost':
        import types
        m = types.ModuleType('simlost')
        exec('class L: pass', vars(m))
        sys.modules['simlost'] = m
        return m.L()
    if kind == 'big':
        return [ns['Shown']('ok'), 'x' * 200000]
    from sim import world as W
    own = {'__name__': 'sendns', '__builtins__': __import__('builtins')}
    W.install(own, what, st['n'])
    return W.evaluate(own, what, st['n'])


def work(env, plan, repo):
    import dill, simobj
    from sim import bombs, seams, world as W
    os.environ['PYTHONPATH'] = repo + os.pathsep + HERE
    os.environ['SIMCHILD'] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    ns = vars(simobj)
    bns = bombs.byvalue()
    bns['_register']()
    for name, text in (('dies', 'exit 3'), ('killed', 'kill -9 $$'), ('signal', 'kill -15 $$'), ('noexec', 'exit 0')):
        with open(name, 'w') as f:
            f.write('#!/bin/sh\n%s\n' % text)
        if name != 'noexec':
            os.chmod(name, 0o755)
    os.mkdir('dir')
    dill.settings.update(plan['settings'])
    hit = 0
    for st in plan['steps']:
        obj = make(st, ns, bns)
        h, problem = (pickles if st['op'] == 'pickles' else check)(env, st, obj, seams)
        hit += h
        if problem:
            env.log('violation', *problem)
            break
    return hit


def outcome(fn):
    try:
        return ['returned', fn()]
    except BaseException as e:
        r = ['raised', type(e).__name__, [c.__name__ for c in type(e).__mro__], str(e)[:100]]
        e.__traceback__ = None
        return r


def trapped(exc, safe):
    """an error pickles() answers False to"""
    return 'Exception' in exc[2] if safe else any(t in exc[2] for t in TRAPPED)


def pickles(env, st, obj, seams):
    import dill
    opts = dict(st['opts'])
    exact, safe = opts.get('exact', False), opts.get('safe', False)
    copts = {k: v for k, v in opts.items() if k not in ('exact', 'safe')}
    at = None
    if st['at'] is not None:
        def count():
            seams.arm(None)
            outcome(lambda: dill.pickles(obj, **opts))
            return seams.Trip.n
        n = sess.forked(count)
        if n[0] == 'ok' and n[1]:
            at = 1 + int(st['at'] * n[1])

    def model():
        """the same round trip, made here"""
        seams.arm(at, st['exc'])
        box = []

        def trip():
            data = dill.dumps(obj, **{k: v for k, v in copts.items() if k != 'ignore'})
            box.append(dill.loads(data, **{k: v for k, v in copts.items() if k == 'ignore'}))
        r = outcome(trip)
        if r[0] == 'raised':
            return ['failed', r]
        c = box[0]
        incopy = seams.Trip.fired
        seams.arm(None)
        same = type(c) is type(obj), repr_of(type(c)) == repr_of(type(obj))
        if hasattr(type(obj), 'all'):
            eq = outcome(lambda: bool(c.all() == obj.all()))
        else:
            eq = outcome(lambda: bool(c == obj))
        return ['copied', eq, same, incopy]
    want = sess.forked(model)
    if want[0] != 'ok':
        return 0, None      # the reference itself could not be made (e.g. it is a process that ended)
    want = want[1]

    def real():
        seams.arm(at, st['exc'])
        r = outcome(lambda: dill.pickles(obj, **opts))
        return [r, seams.Trip.fired]
    got = sess.forked(real)
    if got[0] != 'ok':
        return 0, ('died', 'pickles of %s with %s: %s' % (st['obj'], opts, got[1]))
    got, fired = got[1]
    env.log('pickles', st['obj'], sorted(opts.items()), at, st['exc'] if at else None, got[:2])
    env.state(['pickles', st['obj'], sorted(opts), st['exc'] if at else None, got[:2]])
    if fired:
        env.count('fault:object raises %s' % st['exc'])
    what = 'pickles of %s with %s%s' % (st['obj'], opts, ', call %d of its code raises %s' % (at, st['exc']) if at else '')
    if got[0] == 'returned' and not (got[1] is True or got[1] is False or type(got[1]).__name__ == 'bool_'):
        return 1, ('answer', '%s gives %r, which is no answer' % (what, got[1]))
    if want[0] == 'failed':
        exc = want[1]
        if got[0] == 'returned' and got[1]:
            return 1, ('untrue', '%s is true, though its copy fails with %s: %s' % (what, exc[1], exc[3]))
        if trapped(exc, safe) != (got[0] == 'returned'):
            return 1, ('error', '%s: the copy fails with %s, but it %s' % (what, exc[1], got))
        if got[0] == 'raised' and got[1] != exc[1]:
            return 1, ('error', '%s: the copy fails with %s, it raises %s' % (what, exc[1], got[1]))
        return 1, None
    eq, same, incopy = want[1:]
    if fired and not incopy:       # it fails while it is being compared
        if got[0] == 'returned' and got[1] and exact:
            return 1, ('untrue', '%s is true, though comparing fails' % what)
        return 1, None
    if eq[0] == 'raised':
        if got[0] == 'returned' and got[1] and exact:
            return 1, ('untrue', '%s is true, though comparing fails with %s' % (what, eq[1]))
        if got[0] == 'returned' and not trapped(eq, safe) and not got[1]:
            return 1, ('error', '%s is false, the comparison fails with %s' % (what, eq[1]))
        return 1, None
    if got[0] == 'raised':
        return 1, ('error', '%s raises %s, though a copy is made and compared' % (what, got[1:]))
    ok = bool(eq[1]) or not exact and (same[0] or same[1])
    if bool(got[1]) != ok:
        return 1, ('untrue' if got[1] else 'false', '%s is %s; a copy is made, %s, %s type' % (what, got[1], 'equal' if eq[1] else 'not equal', 'of the same' if same[0] else 'of another'))
    return 0, None


def repr_of(t):
    try:
        return repr(t)
    except Exception:
        return object()


def check(env, st, obj, seams):
    import dill
    from sim import world as W
    kw = dict(st['opts'])
    if st['verbose']:
        kw['verbose'] = True
    if st['python']:
        kw['python'] = os.path.abspath(st['python'])
    kind, fate = st['obj']
    at = None
    if kind == 'bomb' and st['at'] is not None:
        at = 1

    def real():
        import resource, time
        seams.arm(None)
        dumped = outcome(lambda: bool(dill.dumps(obj, **st['opts'])))
        if at:
            seams.arm(at, st['exc'])
            dumped = outcome(lambda: bool(dill.dumps(obj, **st['opts'])))
        seams.arm(at, st['exc'])
        signal.signal(signal.SIGINT, signal.default_int_handler)
        fd = os.open('out', os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        err = os.open('err', os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 1)
        os.dup2(err, 2)
        os.close(err)
        sys.stdout = open(1, 'w', closefd=False)
        files = sorted(os.listdir('.'))
        before = W.open_fds()
        if st['nofds']:
            resource.setrlimit(resource.RLIMIT_NOFILE, (3, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
        r = outcome(lambda: dill.check(obj, **kw))
        resource.setrlimit(resource.RLIMIT_NOFILE, (resource.getrlimit(resource.RLIMIT_NOFILE)[1],) * 2)
        sys.stdout.flush()
        left = []
        if W.open_fds() != before:
            left.append('open descriptors')
        if r[0] == 'raised' and r[1] == 'KeyboardInterrupt':      # subprocess kills the other process, and collects it later
            for turn in range(1000):
                try:
                    if os.waitpid(-1, os.WNOHANG)[0]:
                        break
                except ChildProcessError:
                    break
                time.sleep(.01)
        try:
            os.waitpid(-1, os.WNOHANG)
            left.append('a process')
        except ChildProcessError:
            pass
        if sorted(os.listdir('.')) != files:
            left.append('a file')
        with open('out') as f:
            text = f.read()
        return [r, text, left, dumped, os.getpid()]
    got = sess.forked(real)
    if got[0] != 'ok':
        return 0, ('died', 'check of %s with %s: %s' % (st['obj'], kw, got[1]))
    r, text, left, dumped, pid = got[1]
    said = [l for l in text.split('\n') if l in ('SUCCESS', 'LOAD FAILED', 'DUMP FAILED')]
    shown = [l for l in text.split('\n') if 'shown ' in l and ' in ' in l]
    env.log('check', st['obj'], st['python'], sorted(st['opts'].items()), st['nofds'], r[:2], said)
    env.state(['check', st['obj'], st['python'], st['nofds'], r[:2], said])
    what = 'check of %s with %s%s' % (st['obj'], {k: v for k, v in kw.items() if k != 'python'}, ', by a program that is %s' % st['python'] if st['python'] else '')
    good = dumped[0] == 'returned' and kind in ('act', 'bomb') and not (kind == 'act' and fate not in ('ok',)) and not st['python'] and not st['nofds']
    if not good:
        env.count('fault:second process %s' % (st['python'] or fate if kind == 'act' or st['python'] else kind))
    if left:
        return 1, ('left-behind', '%s leaves %s behind' % (what, ' and '.join(left)))
    if good:
        if r != ['returned', None]:
            return 0, ('raised', '%s: %s' % (what, r))
        if said != (['SUCCESS'] if st['verbose'] else []):
            return 0, ('said', '%s says %s, though the object loads' % (what, said))
        if kind == 'act' and (len(shown) != 1 or shown[0].endswith(' in %d' % pid)):
            return 0, ('shown', '%s: the object was not loaded and shown by another process: %r' % (what, text[:200]))
        return 0, None
    if 'SUCCESS' in said:
        return 1, ('untrue', '%s says SUCCESS' % what)
    if dumped[0] == 'raised':
        if r[0] != 'raised' or r[1] != dumped[1] and not st['nofds']:
            return 1, ('raised', '%s: dumping raises %s, but it %s' % (what, dumped[1], r))
        if said != (['DUMP FAILED'] if st['verbose'] else []):
            return 1, ('said', '%s says %s, though the object cannot be dumped' % (what, said))
    elif r[0] == 'returned' and st['verbose'] and said != ['LOAD FAILED']:
        return 1, ('said', '%s says %s and returns, though the other process failed' % (what, said))
    elif kind == 'act' and fate == 'intr' and not st['python'] and not st['nofds'] and r[1] != 'KeyboardInterrupt':
        return 1, ('interrupt', '%s: the interrupt is lost: %s' % (what, r))
    return 1, None
