"""S02: a save that returns is complete; what a failed or killed save leaves behind raises or loads as exactly what was being saved."""
import os, sys
from sim import sess
from sim.things import THINGS
from sim.ctl import Violation
from sim.digest import diff

ID = 'S02'
RUNS = {'quick': 1500, 'thorough': 20000}
WALL = {'quick': 70, 'thorough': 720}
TECHNIQUE = 'seeded simulation of saves onto failing devices and killed processes; every file left behind is loaded in another process against the intact state'
NOTE = ('Seeded search over operations (dump, Pickler, dump_module, dill.temp), destinations, byte offsets of disk-full, write/close errors and '
        'kills. Disk-full and kill use RLIMIT_FSIZE on real files (SIGXFSZ for a kill at an exact byte); trusts the digest.')
SHRINK = ('saves', 'things')
RULE = ('one run = a state of 1..3 things that grows over 1..5 saves, each with its own operation, destination and fault, every file left '
        'behind loaded in a fresh process; non-trivial when at least one fault fired; distinct by event log')
STATES = 'distinct (operation, destination, fault, outcome, what loading the remains did) tuples'
REAL = 'dill, pickle, file system, resource limits, signals, separate processes'
STUB = 'scripted streams (write errors, torn writes, device full at an offset)'

OPS = ('dump', 'dump', 'pickler', 'mod-stream', 'mod-path', 'mod-path', 'mod-path', 'temp', 'settings')
FAULTS = ('none', 'call', 'at', 'limit', 'limit', 'limit', 'kill', 'kill', 'full', 'nodir', 'isdir', 'readonly', 'closed', 'pipe', 'user', 'user')
WEXC = ('oserror', 'enospc', 'pipe', 'timeout', 'value', 'memory', 'interrupt')
SKIP = {'counter', 'metaeq', 'mutualrec', 'selfclosure', 'wraps', 'cachedprop', 'newargs_ex'}


def names(proto=None):
    return [t for t in THINGS if t not in SKIP and not THINGS[t].flags.get('main')]


def gen(rng, tier, i):
    things = sess.gen_things(rng, rng.choice([1, 2, 3]), names())
    saves = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        at = rng.random()
        r = rng.random()
        at = 0.0 if r < .08 else 1.0 - rng.choice([1, 1, 2, 3, 10]) / 1e9 if r < .25 else at
        saves.append({'op': rng.choice(OPS), 'fault': rng.choice(FAULTS), 'at': at, 'tail': rng.choice([0, 0, 1, 2, 5, 40]) if at > .99 else None,
                      'exc': rng.choice(WEXC), 'torn': rng.random() < .5, 'userexc': rng.choice(['user', 'oserror', 'interrupt', 'memory', 'type', 'attr', 'key', 'stopiter']),
                      'usern': rng.choice([1, 2, 3]), 'old': rng.choice([None, None, 'long', 'short', 'same', 'earlier', 'earlier']), 'chan': rng.choice(['path', 'path', 'pathlike']),
                      'step': rng.random() < .5, 'buffering': rng.choice([-1, -1, 16, 1 << 16])})
    return {'things': things, 'saves': saves, 'mode': rng.choice(sess.MODES), 'ref': rng.random() < .4,
            'kw': {'protocol': rng.choice([None, None, 2, 3, 4, 5]), 'byref': None, 'recurse': rng.choice([None, None, True])}, 'pad': rng.random() < .3}


def run(plan, ctl):
    sess.write_module(ctl)
    with open(ctl.path('simtrip.py'), 'w') as f:
        f.write(TRIP)
    r = ctl.node('A', 'save', {'plan': plan}, timeout=60)
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])
    jobs = r.result
    r2 = ctl.node('B', 'verify', {'plan': plan, 'jobs': jobs}, timeout=90)
    for ev in r2.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])
    return {'nontrivial': any(j['fired'] for j in jobs)}


TRIP = '''
from sim import seams
class Trip:
    def __init__(self, n): self.n = n
    def __reduce__(self):
        seams.trip('reduce')
        return Trip, (self.n,)
'''


def size_of(op, sizes):
    return sizes['mod'] if op.startswith('mod') else sizes['obj']


def save(env, plan):
    import dill, io, signal, resource, shutil, tempfile
    from sim import world as W, seams
    sys.path.insert(0, os.getcwd())
    mode = plan['mode']
    mod = sess.module(mode)
    ns = vars(mod)
    import simtrip
    sess.populate(ns, plan['things'])
    ns['trips'] = [simtrip.Trip(k) for k in range(3)]
    if plan['pad']:
        ns['aaapad'] = [bytes(range(256)) * 300, 'x' * 9000, list(range(2000))]
    kw = plan['kw']
    os.mkdir('tmp')
    tempfile.tempdir = os.path.join(os.getcwd(), 'tmp')
    if hasattr(dill.session, 'SESSION_TEMPFILE'):
        pass        # a class; looked at through tempfile.gettempdir() on use
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    jobs = []

    own = {}        # every plain message has a namespace of its own
    for t, n, _ in plan['things']:
        own[n] = {'__name__': 'sendns', '__builtins__': __import__('builtins')}
        W.install(own[n], t, n)

    def vary(v):
        ns['AAvary'] = [v] * 3
        ns['zzvary'] = [v] * 300

    def obj():
        return [ns['AAvary'], [W.evaluate(own[n], t, n) for t, n, _ in plan['things']], ns['trips'], ns.get('aaapad'), ns['zzvary']]

    def perform(s, path, dest=None):
        """the operation itself, onto path or the given stream; returns data held in memory, if any"""
        op = s['op']
        if op == 'mod-path':
            dill.dump_module(path if s['chan'] == 'path' else __import__('pathlib').Path(path), module=mod, refimported=plan['ref'], **pk)
            return
        if op == 'mod-default':
            dill.dump_module(module=mod, refimported=plan['ref'], **pk)
            return
        if op == 'temp':
            f = dill.temp.dump(obj(), dir='tmp', delete=False)
            f.close()
            os.replace(f.name, path)
            return
        own = dest is None
        f = open(path, 'wb', buffering=s['buffering']) if own else dest
        try:
            if op == 'mod-stream':
                dill.dump_module(f, module=mod, refimported=plan['ref'], **pk)
            elif op == 'pickler':
                dill.Pickler(f, **kw).dump(obj())
            elif op == 'settings':
                dill.dump(obj(), f)
            else:
                dill.dump(obj(), f, **kw)
            if own and path.startswith('left'):
                f.write(b'')            # the stream is the caller's, who may write more
        finally:
            if own:
                f.close()
    pk = {}
    base_fds = None
    for k, s in enumerate(plan['saves']):
        if s['step']:
            for t, n, _ in plan['things']:
                W.do_step(ns, t, n, 60 + k)
                W.do_step(own[n], t, n, 60 + k)
        if s['op'] in ('settings', 'mod-stream', 'mod-path', 'mod-default', 'temp') and kw['protocol'] is not None:
            dill.settings['protocol'] = kw['protocol']
        else:
            dill.settings['protocol'] = dill.DEFAULT_PROTOCOL
        # the state that is being saved
        intact = 'intact%d' % k
        vary(k)
        seams.arm(None)
        perform(dict(s, op='mod-stream' if s['op'].startswith('mod') else s['op'], buffering=-1), intact)
        size = os.path.getsize(intact)
        left = 'left%d' % k
        path = left if s['op'] != 'mod-default' else 'tmp/session.pkl'
        if s['old'] and s['op'] not in ('temp',):
            # an older file is in the way
            if s['old'] == 'earlier':       # of the same size, with other values at both ends
                vary(k + 100)
                perform(dict(s, op='mod-stream' if s['op'].startswith('mod') else s['op'], buffering=-1), 'earlier')
                vary(k)
                olds = open('earlier', 'rb').read()
                os.remove('earlier')
            with open(path, 'wb') as f:
                d = open(intact, 'rb').read()
                if s['old'] != 'earlier':
                    olds = dill.dumps({'old': [k] * 5, 'x': 'o' * (len(d) * 2 if s['old'] == 'long' else 3)})
                f.write(olds if s['old'] != 'same' else d[:-1] + b'00' + d[:9])
            oldbytes = open(path, 'rb').read()
        else:
            oldbytes = None
        off = int(size * s['at']) if s['tail'] is None else max(0, size - s['tail'])
        fault, op = s['fault'], s['op']
        if op in ('mod-path', 'mod-default', 'temp') and fault in ('call', 'at', 'closed', 'readonly', 'pipe'):
            fault = 'limit'
        if op in ('dump', 'pickler', 'mod-stream', 'settings') and fault in ('nodir', 'isdir'):
            fault = 'at'
        if op in ('mod-default', 'temp') and fault in ('full', 'nodir', 'isdir'):
            fault = 'limit'
        dest, err, fired, killed = None, None, True, False
        must = True
        seams.arm(None)
        gone = []
        try:
            if fault == 'none':
                fired = must = False
                perform(s, path)
            elif fault in ('call', 'at'):
                script = {'exc': s['exc'], 'torn': s['torn']}
                if fault == 'at':
                    script['at'] = off
                    must = off < size
                else:
                    script['call'] = 1 + int(s['at'] * 3)
                    must = False
                w = seams.Writer(script, env)
                try:
                    perform(s, path, w)
                finally:
                    open(path, 'wb').write(bytes(w.data))
                    fired = bool(w.fired)
                    must = must or fired
            elif fault == 'limit':
                env.count('fault:disk full at an offset')
                lim = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (off, lim[1]))
                must = off < size
                try:
                    perform(s, path)
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, lim)
            elif fault == 'kill':
                env.count('fault:process killed at a byte offset')
                pid = os.fork()
                if pid == 0:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (off, off))
                    if s['torn'] and s['op'] != 'temp':     # the part that fits is written by the kernel, the rest kills
                        pass
                    try:
                        perform(s, path)
                    except BaseException:
                        os._exit(9)
                    os._exit(0)
                _, st = os.waitpid(pid, 0)
                killed = os.WIFSIGNALED(st)
                err = 'killed' if killed else None
                if not killed and os.WEXITSTATUS(st):
                    err = 'raised'
                must = False
                if not killed and err is None and off < size:
                    must = True
            elif fault == 'full':
                env.count('fault:disk full')
                path = '/dev/full'
                perform(s, path)
            elif fault == 'nodir':
                env.count('fault:directory does not exist')
                path = 'no/such/dir'
                perform(s, path)
            elif fault == 'isdir':
                env.count('fault:path is a directory')
                os.makedirs('adir', exist_ok=True)
                path = 'adir'
                perform(s, path)
            elif fault == 'readonly':
                env.count('fault:stream is not writable')
                with open(intact, 'rb') as f:
                    perform(s, path, f)
            elif fault == 'closed':
                env.count('fault:stream is closed')
                f = open(left + '.c', 'wb')
                f.close()
                perform(s, path, f)
            elif fault == 'pipe':
                env.count('fault:reader of the pipe is gone')
                r, w = os.pipe()
                os.close(r)
                with open(w, 'wb', buffering=0) as f:
                    perform(s, path, f)
            elif fault == 'user':
                seams.arm(s['usern'] if s['usern'] <= 3 else 1, s['userexc'])
                must = True
                perform(s, path)
        except BaseException as e:
            err = type(e).__name__
            e.__traceback__ = None
            text = '%s: %s' % (err, str(e)[:200])
        if fault == 'user':
            fired = bool(seams.Trip.fired)
            must = fired
            if fired:
                env.count("fault:saved object's code raises " + s['userexc'])
        seams.arm(None)
        what = 'save %d: %s with fault %s at byte %d of %d, an older file %s' % (k, op, fault, off, size, s['old'])
        if must and err is None:
            env.log('violation', 'silent-failure', what + ' returned without an error')
            return jobs
        if fault == 'none' and err is not None:
            env.log('violation', 'save-fails', what + ' after earlier failures raised ' + text)
            return jobs
        rest = None
        if fault in ('readonly', 'closed', 'pipe'):
            pass
        elif os.path.isfile(path) and path != '/dev/full':
            rest = 'rest%d' % k
            shutil.copyfile(path, rest)
        elif os.path.isfile(left):
            rest = left
        if err is not None and rest and open(rest, 'rb').read() == oldbytes:
            rest = None         # the older file was not touched
        env.log('save', k, op, fault, err, os.path.getsize(rest) if rest else None)
        jobs.append({'k': k, 'op': op, 'fault': fault, 'err': err, 'rest': rest, 'intact': intact, 'fired': bool(err), 'what': what})
        # the process that saw the failure can save again
        if err is not None:
            again = 'again%d' % k
            try:
                perform(dict(s, op='mod-stream' if s['op'].startswith('mod') else s['op'], buffering=-1), again)
            except BaseException as e:
                env.log('violation', 'cannot-save-again', '%s (%s); saving again raised %s: %s' % (what, err, type(e).__name__, str(e)[:200]))
                return jobs
            jobs.append({'k': k, 'op': op, 'fault': 'none', 'err': None, 'rest': again, 'intact': intact, 'fired': False, 'what': what + ', saved again'})
            for n in os.listdir('tmp'):
                if op == 'temp':
                    os.remove('tmp/' + n)
    return jobs


def verify(env, plan, jobs):
    sys.path.insert(0, os.getcwd())
    import simtrip
    want = {}
    for j in jobs:
        if j['intact'] not in want:
            want[j['intact']] = sess.forked(lambda: look(plan, j, j['intact']))
            if want[j['intact']][0] != 'ok':
                env.log('violation', 'intact-fails', 'a save that met no fault does not load: %s; %s' % (want[j['intact']][1], j['what']))
                return
        if j['rest'] is None:
            if j['err'] is None and j['fault'] != 'kill':
                env.log('violation', 'lost', j['what'] + ' returned, but there is no file')
                return
            continue
        got = sess.forked(lambda: look(plan, j, j['rest']))
        env.state([j['op'], j['fault'], j['err'], got[0] if got[0] != 'ok' else 'loads'])
        if got[0] == 'ok':
            if got[1] != want[j['intact']][1]:
                env.log('violation', 'garbage', '%s (%s): what it left loads as something else: %s' % (
                    j['what'], j['err'] or 'returned', diff(want[j['intact']][1], got[1])))
                return
        elif j['err'] is None:
            env.log('violation', 'incomplete', '%s returned, but loading what it wrote fails: %s' % (j['what'], got[1]))
            return
    env.log('verified', len(jobs))


def look(plan, j, path):
    import dill
    from sim import world as W
    from sim.digest import Digester
    mode = plan['mode']
    if j['op'].startswith('mod'):
        mod = sess.module(mode)
        with open(path, 'rb') as f:
            if mode == 'runtime':
                mod = dill.load_module(f)
            else:
                dill.load_module(f, module=mod)
        ns = vars(mod)
        return [sess.digest_ns(ns, mode), [W.do_probe(t, n, W.evaluate(ns, t, n), ns, Digester(byvalue=(sess.NAME[mode],))) for t, n, _ in plan['things']]]
    with open(path, 'rb') as f:
        o = dill.load(f)
    return Digester(byvalue=('__main__', 'sendns'))(o)
