"""T03: tracing only observes."""
import os, sys
from sim.things import THINGS
from sim.ctl import Violation

ID = 'T03'
RUNS = {'quick': 3500, 'thorough': 40000}
WALL = {'quick': 60, 'thorough': 700}
TECHNIQUE = 'seeded simulation of tracing blocks over faulty trace outputs and streams; the same dumps without tracing are the oracle, a handler-stack model the other'
NOTE = ('Seeded search over nestings of tracing blocks, kinds of destinations, faults of the trace output and of the stream, and objects whose '
        'representation fails or saves in turn. Outcomes are compared with the same dump without tracing in the same process.')
SHRINK = ('prog', 'objs')
RULE = ('one run = a program of dumps, trace(True/False), tracing blocks (nested up to 4, left normally or by an exception) over working, '
        'failing, closed and full outputs; non-trivial when at least one dump ran with tracing on; distinct by event log')
STATES = 'distinct (block nesting, destination kinds, stderr kind, stream kind, tracing on/off) tuples at a dump'
REAL = 'dill, logging, pickle'
STUB = 'trace outputs and target streams with scripted faults'

SKIP = {'counter', 'metaeq', 'mutualrec', 'selfclosure', 'wraps', 'cachedprop', 'newargs_ex'}
DESTS = (None, None, 'stream', 'stream', 'failing', 'closed', 'path', 'full', 'ascii', 'bare')
STDERR = ('normal', 'normal', 'normal', 'none', 'closed', 'failing', 'bare')
FAILS = ('oserror', 'value', 'runtime', 'unicode', 'type', 'enospc')
HARD = ('reprfails', 'metarepr', 'reprdumps', 'reprfmt', 'reprexit', 'plain')


def usable():
    return [t for t in THINGS if t not in SKIP and not THINGS[t].flags.get('main')]


def gen_prog(rng, nobj, depth):
    prog = []
    for _ in range(rng.choice([1, 2, 3])):
        r = rng.random()
        if r < .5 or depth >= 4:
            prog.append({'dump': rng.randrange(nobj), 'how': rng.choice(['dumps', 'dump', 'dump', 'copy', 'module', 'pickler', 'sub']),
                         'tell': rng.choice(['ok', 'raise', 'absent', 'bad', 'later', 'sometimes', 'value', 'notimpl', 'runtime', 'float', 'neg', 'huge']), 'exc': rng.choice(['oserror', 'oserror', 'interrupt', 'value', 'exit']), 'fail': rng.choice([None, None, None, 1, 2, 5]),
                         'kw': {'protocol': rng.choice([None, 0, 2, 4, 5]), 'recurse': rng.choice([None, True]), 'byref': rng.choice([None, None, True])}})
        elif r < .62:
            prog.append({'set': rng.random() < .6})
        else:
            prog.append({'with': rng.choice(DESTS), 'exc': rng.choice(FAILS), 'at': rng.choice([1, 2, 7]), 'raise': rng.choice([None, None, None, None, 'error', 'interrupt', 'exit', 'genexit']),
                         'body': gen_prog(rng, nobj, depth + 1)})
    return prog


def _raise(e):
    raise e


# stream positions that are of no use
ODD = {'bad': lambda: None, 'value': lambda: _raise(ValueError('sim: tell')), 'notimpl': lambda: _raise(NotImplementedError('sim: tell')),
       'runtime': lambda: _raise(RuntimeError('sim: tell')), 'float': lambda: 1.5, 'neg': lambda: -10 ** 6, 'huge': lambda: 1 << 200}


def gen(rng, tier, i):
    names = usable()
    objs = [[rng.choice(names) if rng.random() < .7 else '!' + rng.choice(HARD), k + 1] for k in range(rng.choice([1, 2, 3]))]
    return {'objs': objs, 'prog': gen_prog(rng, len(objs), 0), 'stderr': rng.choice(STDERR), 'level': rng.choice([None, None, True]), 'own': rng.choice([None, None, 0, 10, 20, 25, 50]),
            'raising': rng.random() < .15}


def simplify(plan):
    import copy

    def walk(prog, path):
        for k, s in enumerate(prog):
            if 'body' in s:
                yield path + [k]
                yield from walk(s['body'], path + [k])
    for path in walk(plan['prog'], []):
        p = copy.deepcopy(plan)
        prog = p['prog']
        for q in path[:-1]:
            prog = prog[q]['body']
        s = prog[path[-1]]
        p2 = copy.deepcopy(p)
        prog[path[-1]:path[-1] + 1] = s['body']
        yield p
        for j in range(len(s['body'])):
            p3 = copy.deepcopy(p2)
            prog = p3['prog']
            for q in path:
                prog = prog[q]['body']
            del prog[j]
            yield p3
    if plan['stderr'] != 'normal':
        yield dict(plan, stderr='normal')


def run(plan, ctl):
    r = ctl.node('A', 'work', {'plan': plan}, timeout=100)
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])
    return {'nontrivial': r.result > 0}


HARDSRC = '''
class M(type):
    def __repr__(cls): raise ValueError('metaclass repr')
class Meta(metaclass=M):
    x = 1
class BadRepr(dict):
    def __repr__(self): raise RuntimeError('repr')
class D(type):
    def __repr__(cls):
        import dill
        dill.dumps([len, {'a': 1}, cls.__mro__[-1]])
        return 'D %s %r %(x)s {0}'
class Dumps(metaclass=D):
    y = 2
class F(type):
    def __repr__(cls): return '%s %d %(name)r \\udc80 \\n #'
class Fmt(metaclass=F):
    y = 2
class E(type):
    n = 0
    def __repr__(cls): raise AttributeError('exit')
class Exit(metaclass=E):
    z = 3
def f(): return BadRepr, Meta
def plain(x): return x
'''


def hard(kind, ns):
    exec(compile(HARDSRC, '<thing hard>', 'exec', dont_inherit=True), ns)
    return {'reprfails': lambda: [ns['BadRepr'](a=1), ns['f'], ns['BadRepr']], 'metarepr': lambda: [ns['Meta'], ns['Meta']()],
            'reprdumps': lambda: [ns['Dumps'], ns['plain']], 'reprfmt': lambda: [ns['Fmt'], ns['plain']], 'reprexit': lambda: [ns['Exit'], ns['plain']],
            'plain': lambda: [ns['plain'], {'a': len}]}[kind]()


class Out:
    """a trace destination"""
    encoding = 'utf-8'

    def __init__(self, kind, exc='oserror', at=1, env=None):
        self.kind, self.exc, self.at, self.env, self.n, self.got = kind, exc, at, env, 0, 0
        if kind == 'ascii':
            self.encoding = 'ascii'
        if kind != 'bare':
            self.flush = self._flush

    def _bad(self):
        from sim.seams import EXC
        if self.kind == 'closed':
            if self.env:
                self.env.count('fault:trace output is closed')
            raise ValueError('I/O operation on closed file')
        if self.kind == 'failing' and self.n >= self.at:
            if self.env:
                self.env.count('fault:trace output fails %s' % self.exc)
            raise EXC[self.exc]()

    def write(self, s):
        self.n += 1
        self._bad()
        if self.kind == 'ascii':
            s.encode('ascii')
        self.got += len(s)
        return len(s)

    def _flush(self):
        if self.kind == 'closed':
            self._bad()


def work(env, plan):
    import dill, io, logging, types, gc, copyreg
    from dill import logger as dl
    from sim import world as W, seams
    logging.raiseExceptions = plan['raising']
    ns = {'__name__': 'sendns', '__builtins__': __import__('builtins')}
    objs, mods = [], []
    for j, (t, n) in enumerate(plan['objs']):
        mod = types.ModuleType('rt%d' % j)
        mod.__dict__['__builtins__'] = __import__('builtins')
        if t.startswith('!'):
            objs.append(hard(t[1:], ns))
            hard(t[1:], vars(mod))
        else:
            W.install(ns, t, n)
            objs.append(W.evaluate(ns, t, n))
            W.install(vars(mod), t, n)
        mods.append(mod)
    for c in gc.get_objects():
        if isinstance(c, type) and (c.__module__ == 'sendns' or str(c.__module__).startswith('rt')):
            copyreg._slotnames(c)

    class Sub(dill.Pickler):
        dispatch = dill.Pickler.dispatch

    def perform(s):
        j = s['dump']
        w = seams.Writer({'tell': s['tell'] if s['tell'] in ('ok', 'raise') else 'absent', 'call': s['fail'], 'exc': s.get('exc', 'oserror')})
        if s['tell'] in ('later', 'sometimes'):
            asked = []

            def tell():
                asked.append(1)
                if len(asked) > 2 if s['tell'] == 'later' else len(asked) % 2:
                    env.count('fault:tell of the stream fails')
                    raise OSError(29, 'sim: illegal seek')
                return len(w.data)
            w.tell = tell
        if s['tell'] in ODD:
            w.tell = ODD[s['tell']]
        w.flush = lambda: w.data.extend(b'<flushed>')         # as for a compressor, it shows
        kw = s['kw']
        try:
            if s['how'] == 'dumps':
                return ['bytes', dill.dumps(objs[j], **kw)]
            if s['how'] == 'copy':
                return ['type', type(dill.copy(objs[j], **kw)).__name__]
            if s['how'] == 'module':
                dill.dump_module(w, module=mods[j])
            elif s['how'] == 'pickler':
                p = dill.Pickler(w, **kw)
                p.dump(objs[j])
                p.dump(objs[j])
            elif s['how'] == 'sub':
                Sub(w, **kw).dump(objs[j])
            else:
                dill.dump(objs[j], w, **kw)
            return ['bytes', bytes(w.data)]
        except RecursionError:
            return ['recursion']
        except BaseException as e:
            e.__traceback__ = None
            return ['raised', type(e).__name__, str(e) if ' at 0x' not in str(e) else '', bytes(w.data)]
    # outcomes without tracing, before anything else
    ref = {}

    def collect(prog):
        for s in prog:
            if 'dump' in s:
                import json
                k = json.dumps(s, sort_keys=True)
                if k not in ref:
                    ref[k] = perform(s)
            elif 'body' in s:
                collect(s['body'])
    collect(plan['prog'])
    err = {'normal': lambda: Out('stream'), 'none': lambda: None, 'closed': lambda: Out('closed', env=env), 'failing': lambda: Out('failing', 'oserror', 1, env),
           'bare': lambda: Out('bare')}[plan['stderr']]()
    sys.stderr = err
    if plan['level'] is not None:
        dill.detect.trace(plan['level'])
    lg = logging.getLogger('dill')
    if plan['own'] is not None:         # a level the program chose with the means of logging
        lg.setLevel(plan['own'])
    state = lambda: (lg.level, [id(h) for h in lg.handlers], lg.propagate, lg.disabled, id(sys.stderr))
    model = {'on': lg.isEnabledFor(logging.INFO), 'dests': [], 'n': 0}
    names = iter('trace%d.txt' % k for k in range(100))

    class Leave(Exception):
        pass

    class LeaveInterrupt(KeyboardInterrupt):
        pass

    class LeaveExit(SystemExit):
        pass

    class LeaveGen(GeneratorExit):
        pass
    leaves = {'error': Leave, True: Leave, 'interrupt': LeaveInterrupt, 'exit': LeaveExit, 'genexit': LeaveGen}

    def execute(prog, nest):
        for s in prog:
            if 'set' in s:
                dill.detect.trace(s['set'])
                model['on'] = s['set']
            elif 'dump' in s:
                import json
                from sim.norm import norm
                before = state()
                top = model['dests'][-1] if model['dests'] else err
                was = [got(d) for d in [err] + model['dests']]
                r, want = perform(s), ref[json.dumps(s, sort_keys=True)]
                env.state([nest, plan['stderr'], s['how'], s['tell'], s['fail'], model['on']])
                if model['on']:
                    model['n'] += 1
                if r != want and r[0] != 'recursion' and want[0] != 'recursion':
                    if not (r[0] == want[0] == 'bytes' and norm(r[1]) == norm(want[1])):
                        return bad('outcome', s, nest, 'without tracing %s, with it %s' % (brief(want), brief(r)))
                if state() != before:
                    return bad('state', s, nest, 'a dump changed the tracing state: %r -> %r' % (before, state()))
                now = [got(d) for d in [err] + model['dests']]
                traced = [a != b for a, b in zip(was, now)]
                # every dump of these traces something, unless it fails before that
                if not model['on'] and any(traced):
                    return bad('output', s, nest, 'tracing is off but something was written to a trace output')
                if model['on'] and model['dests'] and traced[0]:
                    if plan['raising'] and any(getattr(d, 'kind', None) in ('failing', 'closed', 'ascii', 'full') for d in model['dests']):
                        continue        # logging's own complaint about the failing output
                    if plan['objs'][s['dump']][0].startswith('!') or plan['raising']:
                        continue
                    return bad('output', s, nest, 'tracing is redirected but something was written to stderr')
                if model['on'] and want[0] == 'bytes' and getattr(top, 'kind', None) in ('stream', 'bare') and s['how'] != 'sub' \
                        and not traced[-1] and plan['objs'][s['dump']][0] == '!plain':
                    return bad('output', s, nest, 'tracing is on but nothing was written to its destination')
            else:
                kind = s['with']
                d = arg = None
                if kind == 'path':
                    arg = d = Path(next(names))
                elif kind == 'full':
                    arg, d = '/dev/full', Path('/dev/full')
                    env.count('fault:trace output is full')
                elif kind is not None:
                    arg = d = Out(kind, s['exc'], s['at'], env)
                before, on, fds = state(), model['on'], W.open_fds()
                try:
                    tm = dill.detect.trace(str(arg.name) if isinstance(arg, Path) else arg)     # held beyond the block
                    with tm:
                        if d is not None:
                            model['dests'].append(d)
                        model['on'] = True
                        if execute(s['body'], nest + '/%s' % kind) is False:
                            return False
                        if s['raise']:
                            env.count('fault:block left by an exception (%s)' % s['raise'])
                            raise leaves[s['raise']]
                except tuple(leaves.values()):
                    pass
                except OSError:
                    if kind != 'full':
                        raise
                except (ValueError, OSError):
                    if plan['stderr'] not in ('closed', 'failing') or state() != before:
                        raise
                if d is not None and d in model['dests']:
                    model['dests'].remove(d)
                model['on'] = on
                if W.open_fds() != fds:
                    return bad('not-closed', s, nest, 'files open after the block %r, before it %r' % (W.open_fds(), fds))
                a, b = before, state()
                if (a[0], sorted(a[1])) + a[2:] != (b[0], sorted(b[1])) + b[2:]:
                    return bad('not-restored', s, nest, 'the tracing block left %r where it had found %r (level, handlers, propagate, disabled)' % (named(b, lg), named(a, lg)))
        return True

    def named(st, lg):
        return (st[0], [('stderr' if i == id(dl.stderr_handler) else 'other') for i in st[1]]) + st[2:4]

    def bad(kind, s, nest, text):
        env.log('violation', kind, '%s in block %s with stderr %s: %s' % (s, nest or 'none', plan['stderr'], text))
        return False

    def got(d):
        if isinstance(d, Path):
            for h in lg.handlers:
                if isinstance(h, logging.FileHandler) and h.baseFilename != '/dev/full':
                    h.flush()
            return os.path.getsize(d.name) if os.path.exists(d.name) and d.name != '/dev/full' else 0
        return getattr(d, 'got', 0)
    base = state()
    execute(plan['prog'], '')
    return model['n']


class Path:
    def __init__(self, name):
        self.name = name


def brief(r):
    if r[0] == 'bytes':
        return '%d bytes' % len(r[1])
    if r[0] == 'raised':
        return 'raised %s(%s) after %d bytes' % (r[1], r[2][:150], len(r[3]))
    return str(r)
