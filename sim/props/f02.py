"""F02: temporary-file saves are complete on return and leave nothing behind on failure."""
import io, os, sys
from sim import sess
from sim.things import THINGS
from sim.ctl import Violation
from sim.digest import diff

ID = 'F02'
RUNS = {'quick': 1800, 'thorough': 40000}
WALL = {'quick': 60, 'thorough': 720}
TECHNIQUE = 'seeded simulation of temporary-file saves and loads by several processes under disk, descriptor and object faults; a reader in another process, the directory and the descriptor table are the oracle'
NOTE = ('Seeded search over sequences of saves and loads, objects, options, faults and readers. Source extraction itself is only relied on for a fixed '
        'list of functions and classes; processes killed in the middle of a save leave their file, as tempfile says.')
SHRINK = ('steps',)
RULE = ('one run = 1..5 temporary saves or captures with scripted faults, each good file loaded by the same process, a forked reader or (at the end) a fresh '
        'process while the saver still holds it; non-trivial when a save was made or refused; distinct by event log')
STATES = 'distinct (operation, object, fault, reader, outcome) tuples'
REAL = 'dill, tempfile, file system, process limits'
STUB = "disk and descriptor limits (RLIMIT_FSIZE, RLIMIT_NOFILE), saved objects' methods with scripted faults, sys.stdout"

SOURCE = '''
import math
def plain(x): return x + 1
square = lambda x: x ** 2
def long(x):
    """a doc: \u00e9 \u2603 \U0001f600"""
    total = 0
    for i in range(x):
        total += i
    return total, '\u00e9\u2603'
def nested(x):
    def inner(y): return x + y
    return inner(2)
class Klass:
    attr = '\xfc'
    def m(self, x): return [x, self.attr]
def uses(x):
    return plain(x) * 2
def latin(): return '\xe9'
class Sub(Klass):
    def m2(self): return self.m(3)
def kw(a, b=2, *c, d='\u4e2d', **e): return a, b, c, d, e
'''
# name -> what is evaluated on the loaded object
SOBJ = {'plain': 'o(4)', 'square': 'o(5)', 'long': 'o(6)', 'nested': 'o(7)', 'Klass': 'o().m(1), o.attr', 'uses': 'o(3)', 'latin': 'o()', 'kw': 'o(1), o(1, 2, 3, z=4)'}
SKIP = {'counter', 'metaeq', 'mutualrec', 'selfclosure', 'wraps', 'cachedprop', 'newargs_ex'}
FAULTS = (None, None, None, 'full', 'full', 'fullflush', 'nodir', 'nofds', 'user', 'user', 'bad', 'interrupt', 'arg', 'diskintr', 'disk')


def gen(rng, tier, i):
    from sim.bombs import OBJ, BAD
    names = [t for t in THINGS if t not in SKIP and not THINGS[t].flags.get('main')]
    steps = []
    for k in range(rng.choice([1, 2, 3, 5])):
        op = rng.choice(['dump', 'dump', 'dump', 'dump_source', 'dump_source', 'dumpIO', 'dumpIO_source', 'capture', 'capture', 'file'])
        obj = rng.choice(list(SOBJ)) if 'source' in op else rng.choice(names)
        steps.append({'op': op, 'obj': obj, 'n': k + 1, 'fault': rng.choice(FAULTS), 'bomb': rng.choice([b for b in OBJ if b != 'module']), 'bad': rng.choice([b for b in BAD if 'deep' not in b]), 'at': rng.random(),
                      'exc': rng.choice(['oserror', 'user', 'memory', 'type', 'attr', 'exit', 'interrupt', 'recursion']),
                      'delete': rng.choice([None, True, False, False]), 'dir': rng.random() < .8, 'prefix': rng.choice([None, 'pre', 'p\u00e9']), 'suffix': rng.choice([None, '.pkl']),
                      'buffering': rng.choice([None, None, None, 0, 10, 100000]), 'alias': rng.choice([None, 'zz', 'plain2']), 'reader': rng.choice(['self', 'self', 'handle', 'fork', 'fork', 'process', 'twice']),
                      'damage': rng.choice([None, None, None, 'cut', 'setstate', 'missing']), 'pad': rng.choice([0, 0, 50, 9000, 300000]),
                      'cap': [rng.choice(['print', 'nest', 'raise', 'swap', 'err', 'close', 'dump', 'print', 'intr', 'dunder']) for _ in range(rng.choice([1, 2, 3]))],
                      'stream': rng.choice(['stdout', 'stdout', 'stderr', 'stdin'])})
    return {'steps': steps, 'ctx': rng.choice(['main', 'import']), 'settings': rng.choice([{}, {}, {'protocol': 2}, {'recurse': True}, {'protocol': 5}]), 'gc': rng.random() < .5}


def simplify(plan):
    for k, st in enumerate(plan['steps']):
        for key, v in (('fault', None), ('damage', None), ('pad', 0), ('buffering', None), ('alias', None), ('prefix', None), ('suffix', None), ('reader', 'self')):
            if st[key] != v:
                steps = [dict(x) for x in plan['steps']]
                steps[k][key] = v
                yield dict(plan, steps=steps)


def run(plan, ctl):
    with open(ctl.path('simsrc.py'), 'w') as f:
        f.write(SOURCE)
    os.mkdir(ctl.path('tmp'))
    r = ctl.node('A', 'saver', {'plan': plan})
    check(r)
    if r.result:
        r2 = ctl.node('B', 'reader', {'plan': plan, 'files': r.result})
        check(r2)
    return {'nontrivial': bool(r.events)}


def check(r):
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])


def setup(plan):
    import dill, tempfile, importlib
    sys.path.insert(0, os.getcwd())
    tempfile.tempdir = os.path.join(os.getcwd(), 'tmp')
    tempfile._io = SimIO()
    tempfile._name_sequence = iter(['%06d' % k for k in range(1000)])      # names without randomness
    dill.settings.update(plan['settings'])
    if plan['ctx'] == 'main':
        import __main__
        __main__.__file__ = os.path.join(os.getcwd(), 'simsrc.py')
        exec(compile(SOURCE, __main__.__file__, 'exec', dont_inherit=True), vars(__main__))
        return vars(__main__)
    return vars(importlib.import_module('simsrc'))


def observe(ns, st, o):
    """what loading shows (in a forked process, as looking may change it)"""
    from sim import world as W
    from sim.props.m01 import observe as ob
    if 'source' in st['op']:
        return sess.forked(lambda: repr(eval(SOBJ[st['obj']], {'o': o})))
    return sess.forked(lambda: ob(st['obj'], st['n'], o[0], W) + [o[1:]])


def load(st, what):
    import dill
    t = dill.temp
    if st['op'] == 'dump':
        return t.load(what)
    if st['op'] == 'file':
        with open(what if isinstance(what, str) else what.name, 'rb') as f:
            return dill.load(f)
    if st['op'] == 'dump_source':
        return t.load_source(what)
    return t.loadIO(what) if st['op'] == 'dumpIO' else t.loadIO_source(what)


def process_state():
    from sim import world as W
    s = W.dill_globals_snapshot()
    s.pop('sys.stdin', None)
    return s


def fds():
    from sim import world as W
    return sorted(W.open_fds().items())


def files():
    return {n: open(os.path.join('tmp', n), 'rb').read() for n in os.listdir('tmp')}


DISK = [None, 'x', 0]     # bytes until the disk fails, with what, how often it has


class SimRaw(io.FileIO):
    """the file as the disk shows it: a write can fail, or be cut short by a signal's exception"""
    def write(self, data):
        if DISK[0] is not None and (DISK[0] < len(data) or DISK[2]):
            if DISK[1] == 'disk':
                DISK[2] += 1
                raise OSError(5, 'injected')
            if not DISK[2]:
                DISK[2] += 1
                raise KeyboardInterrupt('injected')
        if DISK[0] is not None:
            DISK[0] -= len(data)
        return super().write(data)


class SimIO:
    """what tempfile opens files with"""
    def __getattr__(self, name):
        return getattr(io, name)

    @staticmethod
    def open(name, mode='r', buffering=-1, encoding=None, errors=None, newline=None, opener=None):
        if mode != 'w+b':
            return io.open(name, mode, buffering, encoding, errors, newline, True, opener)
        raw = SimRaw(name, 'w+', opener=opener)
        return raw if buffering == 0 else io.BufferedRandom(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)


def limit(which, n):
    import resource, signal
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    w = {'fsize': resource.RLIMIT_FSIZE, 'nofile': resource.RLIMIT_NOFILE}[which]
    resource.setrlimit(w, (n if n is not None else resource.getrlimit(w)[1], resource.getrlimit(w)[1]))


def saver(env, plan):
    import dill, gc, io
    from sim import world as W, seams, bombs
    ns = setup(plan)
    if plan['gc']:
        gc.disable()
    keep, pending = [], []
    bns = bombs.byvalue()
    bns['_register']()
    for st in plan['steps']:
        if st['op'] == 'capture':
            if not capturing(env, st):
                return None
            continue
        DISK[:] = [None, None, 0]
        if 'source' in st['op']:
            obj = ns[st['obj']]
            fault = st['fault'] if st['fault'] not in ('user', 'bad', 'interrupt') else None
            if st['fault'] == 'bad':
                fault = 'bad'
        else:
            own = {'__name__': 'sendns', '__builtins__': __import__('builtins')}
            W.install(own, st['obj'], st['n'])
            obj = [W.evaluate(own, st['obj'], st['n']), 'x' * st['pad'], list(range(3))]
            fault = st['fault']
            if fault in ('user', 'interrupt') or st['damage'] == 'setstate':
                obj.append(eval(bombs.OBJ[st['bomb']], bns))
            if fault == 'bad':
                obj.append(eval(bombs.BAD[st['bad']], bns))
        want = observe(ns, st, obj[:3] if isinstance(obj, list) else obj) if fault != 'bad' else None
        kw = {}
        if 'IO' not in st['op']:
            if st['delete'] is not None:
                kw['delete'] = st['delete']
            if st['dir']:
                kw['dir'] = os.path.join(os.getcwd(), 'tmp')
            if st['prefix']:
                kw['prefix'] = st['prefix']
            if st['suffix'] and st['op'] == 'dump':
                kw['suffix'] = st['suffix']
            if st['buffering'] is not None and not (st['buffering'] == 0 and 'full' in str(fault)):   # short raw writes are the caller's business
                kw['buffering'] = st['buffering']
            if fault == 'nodir':
                kw['dir'] = os.path.join(os.getcwd(), 'absent')
            if fault == 'arg':
                kw['mode'] = 'r'
        if st['alias'] and 'source' in st['op']:
            kw['alias'] = st['alias']
        if fault == 'bad' and 'source' in st['op']:
            kw['alias'] = Unnamed()

        def perform():
            if st['op'] == 'file':
                # a plain named file of the caller's own
                with open('tmp/own%d' % st['n'], 'wb') as f:
                    dill.dump(obj, f)
                return open('tmp/own%d' % st['n'], 'rb')
            return getattr(dill.temp, st['op'])(obj, **kw)
        size = sess.forked(lambda: [len(dill.dumps(obj)) if 'source' not in st['op'] else 60, seams.Trip.n])
        # dumpIO and plain files are here for contrast; their faults are checked under S02 and D01
        if st['op'] == 'file' or 'IO' in st['op'] and fault in ('full', 'fullflush', 'nodir', 'nofds', 'arg', 'disk', 'diskintr'):
            fault = None if fault not in ('bad',) else fault
        if fault in ('full', 'fullflush') and size[0] == 'ok':
            limit('fsize', int(size[1][0] * st['at']) if fault == 'full' else size[1][0] - 1)
        elif fault in ('disk', 'diskintr') and size[0] == 'ok':
            DISK[:] = [int(size[1][0] * st['at']), fault, 0]
        elif fault == 'nofds':
            limit('nofile', 3)
        elif fault in ('user', 'interrupt'):
            seams.arm(None)
            calls = sess.forked(lambda: [perform(), seams.Trip.n][1])
            for n in os.listdir('tmp'):
                if n not in [os.path.basename(k[1]) for k in keep] and not n.startswith('own'):
                    os.unlink(os.path.join('tmp', n))
            seams.arm(1 + int(st['at'] * (calls[1] - 1)) if calls[0] == 'ok' and calls[1] else None, st['exc'])
        gc.collect()
        pre_files, pre_fds, pre = files() if fault != 'nofds' else None, fds() if fault != 'nofds' else None, process_state()
        err, f = None, None
        try:
            f = perform()
        except BaseException as e:
            err = type(e).__name__
            # while the exception is still around
            limit('fsize', None), limit('nofile', None)
            left = files() if pre_files is not None else None
            e.__traceback__ = e.__context__ = e.__cause__ = None
            del e
        limit('fsize', None), limit('nofile', None)
        DISK[0] = None
        fired = seams.Trip.fired
        seams.arm(None)
        what = '%s of %s with %s, fault %s' % (st['op'], st['obj'], sorted(kw), fault)
        env.log('save', st['op'], st['obj'], fault, err)
        env.state([st['op'], st['obj'], fault, st['reader'], err])
        if fault and err:
            env.count('fault:%s' % fault)
        if err is not None:
            if fault is None or fault in ('user', 'interrupt') and not fired:
                env.log('violation', 'save-raised', '%s raised %s' % (what, err))
                return None
            gc.collect()
            if st['op'] != 'file' and pre_files is not None and (left != pre_files or files() != pre_files):
                env.log('violation', 'left-behind', '%s raised %s and left %s' % (what, err, sorted(set(left) ^ set(pre_files))[:3]))
                return None
            if pre_fds is not None and fds() != pre_fds:
                env.log('violation', 'descriptor', '%s raised %s; descriptors %s' % (what, err, [x for x in fds() if x not in pre_fds]))
                return None
            d = W.compare(pre, process_state())
            if d:
                env.log('violation', 'process-state', '%s raised %s: %s' % (what, err, d))
                return None
            continue
        if fault in ('full', 'fullflush', 'disk', 'diskintr') and 'source' not in st['op'] or fault in ('nodir', 'nofds', 'arg', 'bad') and 'IO' not in st['op'] and st['op'] != 'file':
            env.log('violation', 'silent', '%s returned' % what)
            return None
        if 'IO' not in st['op']:
            keep.append((f, f.name, st['op'] != 'file' and st['delete'] is not False))
            if not os.path.exists(f.name):
                env.log('violation', 'gone', '%s returned a handle whose file does not exist' % what)
                return None
            if not st['op'] == 'file' and (os.path.dirname(f.name) != os.path.join(os.getcwd(), 'tmp') or not os.path.basename(f.name).startswith(st['prefix'] or 'tmp')
                                           or not f.name.endswith('.py' if 'source' in st['op'] else st['suffix'] or '')):
                env.log('violation', 'name', '%s made %s' % (what, f.name))
                return None
        if not loading(env, plan, ns, st, f, want, what):
            return None
        if 'IO' not in st['op'] and st['reader'] == 'process' and (st['delete'] is False or st['op'] == 'file'):
            pending.append([f.name, st, want])
    # handles that delete their file do so when dropped, the others keep it
    d = [(n, gone) for f, n, gone in keep]
    f = None
    keep.clear()
    gc.collect()
    for n, gone in d:
        if os.path.exists(n) == gone:
            env.log('violation', 'lifetime', '%s %s once its handle was dropped' % (os.path.basename(n), 'still exists' if gone else 'is gone'))
            return None
    return pending


def loading(env, plan, ns, st, f, want, what):
    """the file loads, again and again, in this process or another one; loading changes nothing"""
    import dill, gc
    from sim import world as W, seams
    name = f if 'IO' in st['op'] else f.name
    reader = st['reader']
    arg = f if reader in ('handle', 'twice') else name
    gc.collect()
    pre, pre_fds, pre_files = process_state(), fds(), files()
    for turn in range(2 if reader == 'twice' else 1):
        if reader == 'fork':
            got = sess.forked(lambda: observe(ns, st, cut(load(st, arg))))
            got = got[1] if got[0] == 'ok' else got
        else:
            try:
                o = load(st, arg)
            except Exception as e:
                env.log('violation', 'load', '%s: loading by %s raised %s: %s' % (what, reader, type(e).__name__, str(e)[:200]))
                return False
            if fds() != pre_fds:
                env.log('violation', 'descriptor', '%s: after loading descriptors %s are open' % (what, [x for x in fds() if x not in pre_fds]))
                return False
            got = observe(ns, st, cut(o))
            del o
        if got != want:
            env.log('violation', 'content', '%s: loaded by %s: %s' % (what, reader, diff(want, got)))
            return False
    if st['damage'] and reader != 'fork':
        damaged = None
        if st['damage'] == 'cut' and 'source' not in st['op']:
            if 'IO' in st['op']:
                damaged = f.getvalue()[:int(len(f.getvalue()) * st['at'])]
            else:
                damaged = os.path.join('tmp', 'damaged')
                with open(name, 'rb') as a, open(damaged, 'wb') as b:
                    d = a.read()
                    b.write(d[:int(len(d) * st['at'])])
        elif st['damage'] == 'missing' and 'IO' not in st['op']:
            damaged = os.path.join('tmp', 'absent')
        elif st['damage'] == 'setstate' and 'source' not in st['op']:
            damaged = arg
            seams.arm(1, st['exc'] if st['exc'] not in ('exit', 'interrupt') else 'user')
        if damaged is not None:
            pre2, pf = fds(), files()
            err = None
            try:
                load(st, damaged)
            except Exception as e:
                err = type(e).__name__
                e.__traceback__ = e.__context__ = e.__cause__ = None
                del e
            fired = seams.Trip.fired
            seams.arm(None)
            env.count('fault:load meets ' + st['damage'])
            if err is None and st['damage'] != 'setstate':
                env.log('violation', 'garbage', '%s: a %s file was loaded' % (what, st['damage']))
                return False
            gc.collect()
            if fds() != pre2 or files() != pf:
                env.log('violation', 'descriptor', '%s: a failed load (%s) left descriptors %s' % (what, err, [x for x in fds() if x not in pre2]))
                return False
            if st['damage'] == 'cut' and 'IO' not in st['op']:
                os.unlink(damaged)
    if files() != pre_files:
        env.log('violation', 'file-changed', '%s: loading by %s changed the files' % (what, reader))
        return False
    d = W.compare(pre, process_state())
    if d:
        env.log('violation', 'process-state', '%s: loading: %s' % (what, d))
        return False
    return True


def cut(o):
    return o[:3] if isinstance(o, list) else o


def reader(env, plan, files):
    """a fresh process opens the files by name"""
    from sim import world as W
    ns = setup(plan)
    for name, st, want in files:
        try:
            got = observe(ns, st, cut(load(st, name)))
        except Exception as e:
            env.log('violation', 'load', 'loading %s of %s in another process raised %s: %s' % (st['op'], st['obj'], type(e).__name__, str(e)[:200]))
            return
        if got != want:
            env.log('violation', 'content', '%s of %s loaded by another process: %s' % (st['op'], st['obj'], diff(want, got)))
            return


class Unnamed:
    def __str__(self):
        raise Boom


class Boom(Exception):
    pass


def capturing(env, st):
    """capture() in any nesting gives every line to the innermost stream and puts back what was there"""
    import dill, io
    stream = st['stream']
    outer = io.StringIO()
    real = getattr(sys, stream)
    setattr(sys, stream, outer)
    expect = {}
    log = []

    def block(k, level):
        before = getattr(sys, stream)
        text = []
        cap = None
        try:
            with dill.temp.capture(stream) as cap:
                if getattr(sys, stream) is not cap or cap is before:
                    raise RuntimeError('not captured')
                for j, a in enumerate(st['cap'][k:]):
                    getattr(sys, stream).write('%d.%d\n' % (level, j))
                    text.append('%d.%d\n' % (level, j))
                    if a == 'nest' and level < 3:
                        block(k + j + 1, level + 1)
                    elif a == 'raise':
                        raise Boom
                    elif a == 'intr':
                        raise KeyboardInterrupt
                    elif a == 'dunder':
                        setattr(sys, stream, getattr(sys, '__%s__' % stream))
                        break
                    elif a == 'swap':
                        setattr(sys, stream, io.StringIO())
                        break
                    elif a == 'close':
                        t = cap.getvalue()
                        cap.close()
                        break
                    elif a == 'dump':
                        dill.loads(dill.dumps([len, lambda: 0]))
        except (Boom, KeyboardInterrupt):
            pass
        if getattr(sys, stream) is not before:
            log.append('sys.%s is not put back after a block at level %d' % (stream, level))
        if not cap.closed and cap.getvalue() != ''.join(text):
            log.append('captured %r at level %d, not %r' % (cap.getvalue(), level, ''.join(text)))
    try:
        block(0, 0)
    except RuntimeError as e:
        log.append(str(e))
    env.log('capture', stream, st['cap'], log)
    env.state(['capture', stream, st['cap']])
    ok = getattr(sys, stream) is outer and not log and outer.getvalue() == ''
    setattr(sys, stream, real)
    if not ok:
        env.log('violation', 'capture', '%s: %s' % (st['cap'], log or 'output went to the stream that was replaced'))
    return ok
