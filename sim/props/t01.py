"""T01: saves and loads in several threads, under a deterministic scheduler, against the same operations run one after another."""
import os, sys
from sim.things import THINGS
from sim.ctl import Violation
from sim.digest import diff

ID = 'T01'
RUNS = {'quick': 700, 'thorough': 20000}
WALL = {'quick': 60, 'thorough': 700}
TECHNIQUE = 'seeded simulation of thread interleavings (every traced line or byte code of dill, pickle and saved code a switch point); refinement against serial execution'
NOTE = ('Seeded search over thread programs and schedules; real threads, one at a time, switched only at traced points in Python code, so '
        'switches inside C code are not explored. Oracle: the same operations run serially in another process. A failing schedule is '
        'recorded as a list of switches and minimised.')
SHRINK = ('threads', 'switches', 'observers')
RULE = ('one run = 2..4 threads of 1..3 operations (dump, dumps, copy, load, loads, session saves and loads) plus threads that print, warn, '
        'import and register types, under one seeded schedule; non-trivial when at least one switch happened between two unfinished threads; '
        'distinct by the hash of the switches made (thread, function, line)')
STATES = 'distinct (operation, options, function, line) places at which a switch was made'
REAL = 'dill, pickle, threads (one runs at a time)'
STUB = 'the thread scheduler; streams; locks of dill and of its log handlers park in the scheduler'

OPS = ('dumps', 'dumps', 'dumps', 'dump', 'copy', 'loads', 'loads', 'load', 'dumpm', 'loadm', 'asdict', 'asdictm', 'dumpmain', 'pickler')
OBS = ('print', 'warn', 'warnerror', 'import', 'register', 'look')
SKIP = {'counter', 'metaeq', 'mutualrec', 'selfclosure', 'wraps', 'cachedprop', 'localclass', 'newargs_ex'}


def usable():
    return [t for t in THINGS if t not in SKIP and not THINGS[t].flags.get('main')]


def gen(rng, tier, i):
    names = usable()
    few = rng.sample(names, 3) if rng.random() < .6 else names
    objs = []
    for k in range(rng.choice([1, 2, 3])):
        objs.append([rng.choice(few), k + 1, rng.choice(['exec', 'exec', 'main'])])
    threads = []
    for t in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for k in range(rng.choice([1, 1, 2, 3])):
            ops.append({'op': rng.choice(OPS), 'obj': rng.randrange(len(objs)), 'proto': rng.choice([None, None, 2, 3, 4, 5]),
                        'recurse': rng.choice([None, None, True, False]), 'byref': rng.choice([None, None, None, True]),
                        'fmode': rng.choice([None, None, 0, 1, 2]), 'ref': rng.random() < .5, 'ignore': rng.choice([None, True])})
        threads.append(ops)
    from sim import sched
    obs = [[rng.choice(OBS), rng.choice([5, 20, 60, 200])] for _ in range(rng.choice([0, 1, 1, 2]))]
    return {'objs': objs, 'threads': threads, 'observers': obs, 'policy': sched.gen_policy(rng, len(threads) + len(obs)), 'switches': None,
            'trace': rng.choice([None, None, None, 'on']), 'same': rng.random() < .4, 'opcodes': False, 'junk': rng.randrange(1000)}


def run(plan, ctl):
    from sim import sess
    sess.write_module(ctl)
    ser = ctl.node('A', 'work', {'plan': plan, 'par': False}, timeout=60)
    par = ctl.node('A', 'work', {'plan': plan, 'par': True}, timeout=120)
    for r in (ser, par):
        for ev in r.events:
            if ev[0] == 'violation' and r is ser:
                raise Violation(ev[1], 'one after another: ' + ev[2])
            if ev[0] == 'violation':
                raise concrete(Violation(ev[1], ev[2]), plan, par)
    a, b = ser.result['results'], par.result['results']
    for t, ops in enumerate(plan['threads']):
        for k, op in enumerate(ops):
            x, y = a[t][k], b[t][k]
            if x[0] == y[0] == 'bytes':
                if x[1] == y[1]:
                    continue
                if x[2] == y[2]:
                    ctl.counts['probe:same content in another order'] = ctl.counts.get('probe:same content in another order', 0) + 1
                    continue
                from sim.norm import explain
                x = open(ctl.path('ser%d_%d' % (t, k)), 'rb').read()
                y = open(ctl.path('par%d_%d' % (t, k)), 'rb').read()
                raise concrete(Violation('bytes', 'thread %d, %s: what was saved differs from what it is alone: %s' % (t, describe(plan, op), explain(x, y))), plan, par)
            if x != y:
                raise concrete(Violation('result', 'thread %d, %s: %s' % (t, describe(plan, op), diff(x, y))), plan, par)
    if par.result['replaced']:      # last, as this is a known finding
        raise concrete(Violation('replaced', par.result['replaced'][0]), plan, par)
    return {'nontrivial': par.result['nswitch'] > 0, 'sig': par.result['sig']}


def concrete(v, plan, par):
    rec = par.result['record'] if par.result else next((e[1] for e in par.events if e[0] == 'record'), None)
    if plan['switches'] is None and rec is not None:
        v.plan = dict(plan, switches=rec, policy=dict(plan['policy'], kind='list'))
    return v


def describe(plan, op):
    return '%s of %r with %s' % (op['op'], plan['objs'][op['obj'] % len(plan['objs'])], {k: op[k] for k in ('proto', 'recurse', 'byref', 'fmode', 'ref') if op[k] is not None})


# ---------------------------------------------------------------- node side
class Stream:
    """what the operations write to and read from; every call is a place where the scheduler may switch"""

    def __init__(self, data=b''):
        self.data, self.pos = bytearray(data), 0

    def write(self, b):
        hook('write')
        self.data += bytes(b)
        return len(b)

    def read(self, n=-1):
        hook('read')
        n = len(self.data) - self.pos if n is None or n < 0 else n
        d = bytes(self.data[self.pos:self.pos + n])
        self.pos += len(d)
        return d

    def readline(self):
        hook('readline')
        e = self.data.find(b'\n', self.pos)
        e = len(self.data) if e < 0 else e + 1
        d = bytes(self.data[self.pos:e])
        self.pos = e
        return d

    def peek(self, n=0):
        return bytes(self.data[self.pos:self.pos + max(n, 256)])


def hook(name):
    from sim import sched
    if sched.SCHED is not None:
        sched.SCHED.point(('stream', name))


def options(op):
    kw = {'protocol': op['proto'], 'recurse': op['recurse'], 'byref': op['byref'], 'fmode': op['fmode']}
    return kw


def pick(objs, op):
    return objs[op['obj'] % len(objs)]


def prepare(env, plan):
    """-> objects, payloads and one closure per operation"""
    import dill, types
    from sim import world as W
    import __main__
    objs = []
    for t, n, where in plan['objs']:
        ns = vars(__main__) if where == 'main' else {'__name__': 'sendns', '__builtins__': __import__('builtins')}
        W.install(ns, t, n)
        objs.append(W.evaluate(ns, t, n))
    calls = []
    keep = []
    for t, ops in enumerate(plan['threads']):
        row = []
        for k, op in enumerate(ops):
            op = dict(op)
            where = pick(plan['objs'], op)[2]
            if op['byref']:
                op['byref'] = None if where == 'exec' else True
            name = 'simmod' if op['op'] == 'asdictm' else 'rt' if plan.get('same') else 'rt%d_%d' % (t, k)
            row.append(make_call(op, t, k, pick(objs, op), pick(plan['objs'], op), keep, name))
        calls.append(row)
    # Python notes a class' slots in the class when it is first pickled: not what is studied here
    import copyreg, gc
    for c in gc.get_objects():
        if isinstance(c, type) and (c.__module__ in ('sendns', '__main__') or str(c.__module__).startswith('rt')):
            copyreg._slotnames(c)
    return objs, calls, keep


def make_call(op, t, k, obj, spec, keep, name):
    import dill, types, io
    from sim import world as W
    kw, kind = options(op), op['op']
    if kind == 'dumps':
        return lambda: ('bytes', dill.dumps(obj, **kw))
    if kind == 'dump':
        def call():
            s = Stream()
            dill.dump(obj, s, **kw)
            return 'bytes', bytes(s.data)
        return call
    if kind == 'pickler':
        def call():
            s = Stream()
            p = dill.Pickler(s, **kw)
            p.dump(obj)
            p.clear_memo()
            p.dump([obj, obj])
            return 'bytes', bytes(s.data)
        return call
    if kind == 'copy':
        return lambda: ('object', dill.copy(obj, ignore=op['ignore'], **kw))
    if kind in ('loads', 'load'):
        try:
            data = dill.dumps(obj, **kw)
        except Exception:
            data = dill.dumps([1, 2])
        if kind == 'loads':
            return lambda: ('object', dill.loads(data, ignore=op['ignore']))
        return lambda: ('object', dill.load(Stream(data), ignore=op['ignore']))
    if kind == 'dumpmain':
        def call():
            s = Stream()
            dill.dump_module(s, refimported=op['ref'])
            return 'bytes', bytes(s.data)
        return call
    if kind == 'asdictm':       # a session of a module that is loaded
        import simmod as m
        before = dict(vars(m))
        W.install(vars(m), spec[0], spec[1])
        m.plain = [t, k]
        b = io.BytesIO()
        dill.dump_module(b, module=m, refimported=op['ref'])
        vars(m).clear()
        vars(m).update(before)
        return lambda: ('ns', dill.load_module_asdict(Stream(b.getvalue()), update=bool(op['ignore'])))
    # sessions of a module-type object of this operation's own
    m = types.ModuleType(name)
    m.__dict__['__builtins__'] = __import__('builtins')
    W.install(vars(m), spec[0], spec[1])
    m.os, m.plain = os, [t, k]
    if kind == 'dumpm':
        def call():
            s = Stream()
            dill.dump_module(s, module=m, refimported=op['ref'])
            return 'bytes', bytes(s.data)
        return call
    b = io.BytesIO()
    dill.dump_module(b, module=m, refimported=op['ref'])
    data = b.getvalue()
    if kind == 'loadm':
        def call():
            new = types.ModuleType(name)
            dill.load_module(Stream(data), module=new)
            keep.append(new)
            return 'ns', vars(new)
        return call

    def call():
        return 'ns', dill.load_module_asdict(Stream(data))
    return call


def observer(env, kind, n, j, problems, printed, replaced):
    """a thread of the application that has nothing to do with dill"""
    import dill, warnings, types, logging

    class SimWarn(UserWarning):
        pass
    out, flt = sys.stdout, [repr(f) for f in warnings.filters]
    mods, settings = (sys.modules['__main__'], sys.modules['dill']), dict(dill.settings)
    level = logging.getLogger('dill').level
    simmod = sys.modules['simmod']

    def body():
        for r in range(n):
            hook('observer')
            if kind == 'print':
                print('obs%d-%d' % (j, r))
                printed.append('obs%d-%d\n' % (j, r))
            elif kind == 'warn':
                warnings.warn_explicit('w%d-%d' % (j, r), SimWarn, 'simfile', r + 1, registry={})
            elif kind == 'warnerror':
                try:
                    warnings.warn_explicit('strict', SimStrict, 'simfile', r + 1, registry={})
                except SimStrict:
                    continue
                problems.append('a warning that this process turns into an error was lost')
            elif kind == 'import':
                sys.modules['simimp%d_%d' % (j, r)] = types.ModuleType('simimp%d_%d' % (j, r))
                sys.modules.pop('simimp%d_%d' % (j, r - 3), None)
            elif kind == 'register':
                t = type('Reg%d_%d' % (j, r), (), {})
                dill.register(t)(lambda p, o: None)
                del dill.Pickler.dispatch[t]
            else:
                if sys.stdout is not out:
                    problems.append('another thread saw sys.stdout replaced')
                if [repr(f) for f in warnings.filters] != flt:
                    problems.append('another thread saw the warning filters changed')
                if (sys.modules['__main__'], sys.modules['dill']) != mods:
                    problems.append('another thread saw sys.modules changed')
                if sys.modules.get('simmod') is not simmod:
                    replaced.append('another thread saw the module whose session load_module_asdict() loads replaced in sys.modules')
                if dict(dill.settings) != settings:
                    problems.append('another thread saw the settings changed')
                if logging.getLogger('dill').level != level:
                    problems.append('another thread saw the tracing state changed')
    return body


class SimStrict(UserWarning):
    pass


def work(env, plan, par):
    import dill, io, warnings, gc, threading, logging, _thread
    from sim import world as W, sched
    from sim.norm import norm, sha
    gc.disable()
    hold = [[] for _ in range(plan['junk'])] if par else None
    threading.stack_size(64 << 20)
    if plan['trace']:
        dill.detect.trace(True)
    sys.stdout = shown = io.StringIO()
    sys.path.insert(0, os.getcwd())
    import simmod
    objs, calls, keep = prepare(env, plan)
    warnings.simplefilter('error', SimStrict)
    problems, printed, replaced, results = [], [], [], [[None] * len(r) for r in calls]
    lg = logging.getLogger('dill')
    nlocks = sched.replace_locks([m for n, m in sorted(sys.modules.items()) if n == 'dill' or n.startswith('dill.')], lg.handlers) if par else 0
    glob, mods, fds = W.dill_globals_snapshot(), W.modules_snapshot(), W.open_fds()
    main_before = W.ns_snapshot(sys.modules['__main__'].__dict__)
    live_before = W.ns_snapshot(simmod.__dict__)

    def thread(t):
        def body():
            for k, call in enumerate(calls[t]):
                try:
                    results[t][k] = call()
                except Exception as e:
                    e.__traceback__ = None
                    results[t][k] = ['raised', type(e).__name__, str(e)[:200]]
        return body
    bodies = [thread(t) for t in range(len(calls))]
    obs = [observer(env, kind, n, j, problems, printed, replaced) for j, (kind, n) in enumerate(plan['observers'])]
    nswitch, sig, record = 0, None, []
    if par:
        policy = dict(plan['policy'])
        if plan['switches'] is not None:
            policy.update(kind='list', switches=plan['switches'])
        s = sched.Sched(policy, sched.traced_files(__file__), opcodes=plan['opcodes'])
        ts = [s.spawn(b) for b in bodies + obs]
        try:
            s.run()
        except sched.Deadlock as e:
            env.log('record', s.record)
            env.log('violation', 'deadlock', str(e))
            return None
        nswitch, sig, record = len(s.record), '%d/%x' % (s.step, s.sig), s.record
        env.tick(s.step)
        env.count('fault:thread preempted at a traced line', nswitch)
        for p in s.places():
            env.state(p)
        for t in ts:
            if t.error is not None:
                env.log('record', record)
                env.log('violation', 'thread-failed', 'thread %d ended with %s: %s' % (t.idx, type(t.error).__name__, str(t.error)[:300]))
                return {'results': [], 'nswitch': nswitch, 'sig': sig, 'record': record}
    else:
        for b in bodies + obs:
            b()
    del bodies, obs
    # afterwards the process is what it was
    d = W.compare(glob, W.dill_globals_snapshot())
    if d:
        problems.append('process state after all threads finished: ' + d)
    d = W.compare(mods, {k: v for k, v in W.modules_snapshot().items() if k in mods or not (k.startswith('simimp') or k.split('.')[0] in sys.stdlib_module_names)})
    if d:
        problems.append('loaded modules after all threads finished: ' + d)
    d = W.compare(main_before, W.ns_snapshot(sys.modules['__main__'].__dict__))
    if d:
        problems.append('__main__ after all threads finished: ' + d)
    d = W.compare(live_before, W.ns_snapshot(simmod.__dict__))
    if d:
        problems.append('the live module after all threads finished: ' + d)
    if len(W.open_fds()) != len(fds):
        problems.append('open descriptors: %r -> %r' % (sorted(fds.values()), sorted(W.open_fds().values())))
    text = shown.getvalue()
    if any(text.count(p) != 1 for p in printed):
        problems.append('a line printed by another thread got lost')
    if len(text) != sum(map(len, printed)):
        problems.append('text appeared on sys.stdout: %r' % text[:200])
    if problems:
        env.log('record', record)
        env.log('violation', 'process', problems[0])
        return {'results': [], 'nswitch': nswitch, 'sig': sig, 'record': record}
    from sim import sess
    from sim.digest import Digester
    out = []
    for t, row in enumerate(results):
        r2 = []
        for k, res in enumerate(row):
            op = plan['threads'][t][k]
            thing, n, where = pick(plan['objs'], op)
            if res[0] == 'bytes':
                open('%s%d_%d' % ('par' if par else 'ser', t, k), 'wb').write(res[1])
                r2.append(['bytes', sha(res[1]), norm(res[1])])
            elif res[0] == 'object':
                o = res[1]
                r2.append(sess.forked(lambda: ['object', Digester(byvalue=('sendns',))(o), W.do_probe(thing, n, o, None, Digester(byvalue=('sendns',)))]))
            elif res[0] == 'ns':
                o = res[1]
                name = o['__name__']
                r2.append(sess.forked(lambda: ['ns', Digester(byvalue=(name,)).namespace(o), W.do_probe(thing, n, W.evaluate(o, thing, n), o, Digester(byvalue=(name,)))]))
            else:
                r2.append(res)
        out.append(r2)
    return {'results': out, 'nswitch': nswitch, 'sig': sig, 'record': record if par else None, 'replaced': replaced}
