"""T02: options belong to one operation: nested, interrupted and concurrent operations against the same operation alone."""
import os, sys
from sim.things import THINGS
from sim.ctl import Violation
from sim.digest import diff

ID = 'T02'
RUNS = {'quick': 1200, 'thorough': 20000}
WALL = {'quick': 60, 'thorough': 700}
TECHNIQUE = 'seeded simulation of settings changes, nested and concurrent operations at every call into streams and saved code; refinement against each operation run alone with its options spelt out'
NOTE = ('Seeded search over trees of operations: any operation can be interrupted at any call it makes to a stream or to a saved object\'s '
        'code by changes of the settings and by further operations, in the same or another thread. Oracle: the same operation alone in '
        'another process with every option given explicitly. Interruptions inside dill\'s own lines are T01\'s.')
SHRINK = ('ops', 'acts')
RULE = ('one run = 2..5 operations with options given or taken from the settings, each interrupted at scripted calls by settings changes, '
        'nested operations (depth up to 3), failing or not; non-trivial when an interruption happened or an operation followed another one '
        'with other options; distinct by event log')
STATES = 'distinct (operation, options given, settings in force, kind of interruption, same/other thread) tuples'
REAL = 'dill, pickle'
STUB = 'streams and saved objects whose code runs the scripted interruption'

SKIP = {'counter', 'metaeq', 'mutualrec', 'selfclosure', 'wraps', 'cachedprop', 'localclass', 'newargs_ex', 'slots', 'dataclass', 'stringio', 'attrcls'}
OPTS = ('protocol', 'byref', 'recurse', 'fmode', 'ignore')
VALUES = {'protocol': (0, 1, 2, 3, 4, 5), 'byref': (False, True), 'recurse': (False, True), 'fmode': (0, 1, 2), 'ignore': (False, True)}
DEFAULTS = {'protocol': 4, 'byref': False, 'recurse': False, 'fmode': 0, 'ignore': False}
KINDS = ('dumps', 'dumps', 'dump', 'pickler', 'copy', 'loads', 'load', 'dumpm', 'loadm', 'fail', 'failload', 'tempdump', 'pickles')


def usable():
    return [t for t in THINGS if t not in SKIP and not THINGS[t].flags.get('main')]


def gen_op(rng, nobj, depth):
    op = {'op': rng.choice(KINDS), 'obj': rng.randrange(nobj), 'opts': {k: rng.choice(VALUES[k]) for k in OPTS if rng.random() < .3}}
    op['acts'] = []
    if depth < 3:
        for _ in range(rng.choice([0, 1, 1, 2] if depth == 0 else [0, 0, 1])):
            op['acts'].append([rng.choice([1, 2, 3, 5, 8, 20, 60]), rng.random() < .3, gen_act(rng, nobj, depth)])
    return op


def gen_act(rng, nobj, depth):
    if rng.random() < .45:
        return {'op': 'set', 'opts': {k: rng.choice(VALUES[k]) for k in OPTS if rng.random() < .5}}
    return gen_op(rng, nobj, depth + 1)


def gen(rng, tier, i):
    names = usable()
    objs = [[rng.choice(names), k + 1] for k in range(rng.choice([1, 2, 3]))]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        ops.append(gen_act(rng, len(objs), 0) if rng.random() < .5 else gen_op(rng, len(objs), 0))
    return {'objs': objs, 'ops': ops}


def simplify(plan):
    import copy

    def acts(lst, path):
        for k, op in enumerate(lst):
            for j in range(len(op.get('acts', ()))):
                yield path + [k], j
    for k, op in enumerate(plan['ops']):
        stack = [(op, [])]
        while stack:
            o, path = stack.pop()
            for j, a in enumerate(o.get('acts', ())):
                p = copy.deepcopy(plan)
                t = p['ops'][k]
                for q in path:
                    t = t['acts'][q][2]
                del t['acts'][j]
                yield p
                stack.append((a[2], path + [j]))
            for name in o['opts']:
                p = copy.deepcopy(plan)
                t = p['ops'][k]
                for q in path:
                    t = t['acts'][q][2]
                del t['opts'][name]
                yield p


def run(plan, ctl):
    live = ctl.node('A', 'work', {'plan': plan})
    for ev in live.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])
    done = live.result['done']
    if not done:
        return {'nontrivial': False}
    ref = ctl.node('A', 'alone', {'plan': plan, 'done': [[d[0], d[1], d[2]] for d in done]})
    for n, (a, b) in enumerate(zip(ref.result, done)):
        kind, j, eff, res, story = b
        if a == res:
            continue
        if a[0] == res[0] == 'bytes':
            if a[2] == res[2]:
                continue
            from sim.norm import explain
            x, y = open(ctl.path('alone%d' % n), 'rb').read(), open(ctl.path('live%d' % n), 'rb').read()
            raise Violation('bytes', '%s of %r under %r (%s) differs from the same call alone: %s' % (kind, plan['objs'][j], eff, story, explain(x, y)))
        raise Violation('result', '%s of %r under %r (%s): %s' % (kind, plan['objs'][j], eff, story, diff(a, res)))
    for n, (kind, j, eff, res, story) in enumerate(live.result['done']):
        if res[0] == 'bytes':
            problem = shows(kind, eff, open(ctl.path('live%d' % n), 'rb').read())
            if problem:
                raise Violation('option', '%s of %r under %r (%s): %s' % (kind, plan['objs'][j], eff, story, problem))
    return {'nontrivial': live.result['interruptions'] > 0 or len(done) > 1}


def shows(kind, eff, data):
    """what the options must show in a pickle, whatever else it holds"""
    import pickletools, io
    p, f = eff['protocol'], io.BytesIO(data)
    while f.tell() < len(data):
        first = True
        for code, arg, pos in pickletools.genops(f):
            if first and p >= 2 and (code.name, arg) != ('PROTO', p):
                return 'protocol %d asked for, the pickle begins with %s %r' % (p, code.name, arg)
            if code.proto > p:
                return 'protocol %d asked for, the pickle uses %s of protocol %d' % (p, code.name, code.proto)
            first = False
    if kind == 'dumpm':
        return None
    if (b'the contents of the file' in data) != (eff['fmode'] == 2):
        return 'under fmode %d the contents of an open file are %s' % (eff['fmode'], 'left out' if eff['fmode'] == 2 else 'saved')
    if not eff['byref'] and b'_create_type' not in data:
        return 'a class of __main__ is saved by reference without byref'
    return None


# ---------------------------------------------------------------- node side
class Machine:
    def __init__(self, env, plan, live):
        self.env, self.plan, self.live = env, plan, live
        self.stack = []         # operations in progress: [op, calls so far]
        self.done = []
        self.n = 0
        self.failing = False

    def hook(self, where):
        if not self.stack:
            return
        top = self.stack[-1]
        top[1] += 1
        if not self.live:
            return
        for k, (at, other, act) in enumerate(top[0]['acts']):
            if at == top[1]:
                self.n += 1
                self.env.count('fault:%s at %s%s' % ('settings changed' if act['op'] == 'set' else 'nested ' + act['op'], where.split(' ')[0], ' by another thread' if other else ''))
                self.env.state([top[0]['op'], sorted(top[0]['opts']), act['op'], other])
                if other:
                    import threading
                    t = threading.Thread(target=self.do, args=(act,))
                    t.start()
                    t.join()
                else:
                    self.do(act)

    def do(self, op):
        import dill
        if op['op'] == 'set':
            dill.settings.update(op['opts'])
            self.expected.update(op['opts'])
            return
        eff = dict(dill.settings)
        for k, v in op['opts'].items():
            if k in used(op['op']):
                eff[k] = v
        at = len(self.done)
        entry = [op['op'], op['obj'], eff, None, '%s given, interrupted by %r' % (op['opts'], [a[2]['op'] for a in op['acts']])]
        self.done.append(entry)
        entry[3] = self.perform(op, {k: v for k, v in op['opts'].items() if k in used(op['op'])}, at)

    def alone(self, kind, j, eff, at):
        import dill
        kw = {k: eff[k] for k in used(kind)}
        # what cannot be given in the call comes from the settings
        dill.settings.update(DEFAULTS)
        dill.settings.update({k: v for k, v in eff.items() if k not in used(kind)})
        return self.perform({'op': kind, 'obj': j, 'opts': kw, 'acts': []}, kw, at)

    def perform(self, op, kw, at):
        self.stack.append([op, 0])
        try:
            return self._perform(op['op'], self.objs[op['obj'] % len(self.objs)], kw, at, op['obj'] % len(self.objs))
        except Exception as e:
            e.__traceback__ = None
            return ['raised', type(e).__name__, str(e)[:200] if ' at 0x' not in str(e) else '']
        finally:
            self.stack.pop()

    def saved(self, data, at):
        from sim.norm import norm, sha
        with open('%s%d' % ('live' if self.live else 'alone', at), 'wb') as f:
            f.write(data)
        return ['bytes', sha(data), norm(data)]

    def _perform(self, kind, obj, kw, at, j):
        import dill, io, types
        if kind == 'dumps':
            return self.saved(dill.dumps(obj, **kw), at)
        if kind in ('dump', 'fail'):
            s = Stream(self, 3 if kind == 'fail' else None)
            dill.dump(obj, s, **kw)
            return self.saved(bytes(s.data), at)
        if kind == 'pickler':
            s = Stream(self)
            p = dill.Pickler(s, **dict({'protocol': dill.settings['protocol']}, **kw))      # the class itself does not look at that setting
            self.hook('pickler made')
            p.dump(obj)
            p.clear_memo()
            p.dump([obj])
            return self.saved(bytes(s.data), at)
        if kind == 'tempdump':
            f = dill.temp.dump(obj, suffix='.pkl', dir=os.getcwd())
            with open(f.name, 'rb') as g:
                return self.saved(g.read(), at)
        if kind == 'copy':
            return self.seen(dill.copy(self.insts[j], **kw))
        if kind == 'pickles':
            return ['value', repr(dill.pickles(self.insts[j], **kw))]
        if kind in ('loads', 'load', 'failload'):
            data = self.payloads[j]
            if kind == 'failload':
                data = data[:-3]
            return self.seen(dill.loads(data, **kw) if kind == 'loads' else dill.load(Stream(self, None, data), **kw))
        if kind == 'dumpm':
            s = Stream(self)
            dill.dump_module(s, module=self.mods[j], refimported=True)
            return self.saved(bytes(s.data), at)
        new = types.ModuleType('rt%d' % j)
        dill.load_module(Stream(self, None, self.sessions[j]), module=new)
        return self.seen(vars(new), ns='rt%d' % j)

    def seen(self, o, ns=None):
        from sim.digest import Digester
        d = Digester(byvalue=('sendns', '__main__', ns))
        own = type(o) is sys.modules['__main__'].Inst if ns is None else None
        stack, self.stack = self.stack, []        # looking is not part of the operation
        try:
            return ['object', own, d.namespace(o) if ns else d(o)]
        finally:
            self.stack = stack


def used(kind):
    """the options a call of this kind can be given"""
    if kind in ('dumps', 'dump', 'fail'):
        return ('protocol', 'byref', 'recurse', 'fmode')
    if kind == 'pickler':
        return ('protocol', 'byref', 'recurse', 'fmode')
    if kind in ('copy', 'pickles'):
        return OPTS
    if kind in ('loads', 'load', 'failload'):
        return ('ignore',)
    return ()


class Stream:
    def __init__(self, m, fail=None, data=b''):
        self.m, self.fail, self.data, self.pos, self.calls = m, fail, bytearray(data), 0, 0

    def write(self, b):
        self.m.hook('write')
        self.calls += 1
        if self.fail == self.calls:
            raise OSError(28, 'sim: no space left')
        self.data += bytes(b)
        return len(b)

    def read(self, n=-1):
        self.m.hook('read')
        n = len(self.data) - self.pos if n is None or n < 0 else n
        d = bytes(self.data[self.pos:self.pos + n])
        self.pos += len(d)
        return d

    def readline(self):
        self.m.hook('readline')
        e = self.data.find(b'\n', self.pos)
        e = len(self.data) if e < 0 else e + 1
        d = bytes(self.data[self.pos:e])
        self.pos = e
        return d

    def peek(self, n=0):
        return bytes(self.data[self.pos:self.pos + max(n, 256)])


M = None


class Hook:
    """a saved object whose own code is a place for interruptions"""

    def __init__(self, tag):
        self.tag = tag

    def __getstate__(self):
        if M is not None:
            M.hook('getstate %s' % self.tag)
        return {'tag': self.tag}

    def __setstate__(self, st):
        self.__dict__.update(st)
        if M is not None:
            M.hook('setstate %s' % self.tag)

    def __eq__(self, o):
        return type(o) is Hook and o.tag == self.tag
    __hash__ = None


MAINSRC = '''
class Inst:
    def __init__(self, *a): self.a = a
    def meth(self): return 'own'
'''


def setup(env, plan, live):
    global M
    import dill, types, io
    from sim import world as W
    import __main__
    exec(compile(MAINSRC, '<thing main>', 'exec', dont_inherit=True), vars(__main__))
    sys.path.insert(0, os.getcwd())
    with open('simlib.py', 'w') as f:
        f.write('class Lib:\n    def f(self): return 1\ndef libfn(x): return Lib, x\n')
    with open('data.txt', 'w') as f:
        f.write('the contents of the file\n' * 3)
    import simlib
    m = Machine(env, plan, live)
    m.objs, m.insts, m.payloads, m.mods, m.sessions = [], [], [], [], []
    handle = open('data.txt')
    handle.readline()
    for j, (t, n) in enumerate(plan['objs']):
        ns = {'__name__': 'sendns', '__builtins__': __import__('builtins'), 'unused': ['u', j]}
        W.install(ns, t, n)
        obj = W.evaluate(ns, t, n)
        exec("class Local%d:\n    x = 1\ndef localfn%d(): return helper%d()\ndef helper%d(): return 2\n" % (j, j, j, j), vars(__main__))
        mn = vars(__main__)
        # parts whose bytes depend on every option, before and after places where an interruption can happen
        part = lambda: [mn['Local%d' % j], mn['localfn%d' % j], simlib.libfn, simlib.Lib]
        m.objs.append([Hook(1), obj, handle, Hook(2), part(), {'k': Hook(3), 'z': [handle, (mn['helper%d' % j],)]}, Hook(4), 'end' * 30])
        m.insts.append(__main__.Inst(Hook(1), [1, 2], Hook(2), t, mn['helper%d' % j], Hook(3)))
        mod = types.ModuleType('rt%d' % j)
        vars(mod).update({'__builtins__': __import__('builtins'), 'a': Hook(1), 'os': os, 'deep': [Hook(2), {'b': Hook(3)}], 'lib': simlib, 'libfn': simlib.libfn,
                          'fn': eval('lambda x: deep', vars(mod))})
        W.install(vars(mod), t, n)
        m.mods.append(mod)
    import copyreg, gc
    for c in gc.get_objects():
        if isinstance(c, type) and (c.__module__ in ('sendns', '__main__') or str(c.__module__).startswith('rt')):
            copyreg._slotnames(c)
    for j in range(len(plan['objs'])):
        m.payloads.append(dill.dumps(m.insts[j]))
        b = io.BytesIO()
        dill.dump_module(b, module=m.mods[j], refimported=True)
        m.sessions.append(b.getvalue())
    M = m
    return m


def work(env, plan):
    import dill
    m = setup(env, plan, True)
    m.expected = dict(dill.settings)
    for op in plan['ops']:
        m.do(op)
        if dict(dill.settings) != m.expected:
            env.log('violation', 'settings-changed', 'after %s the settings are %r, not %r' % (op['op'], dict(dill.settings), m.expected))
            return {'done': [], 'interruptions': 0}
    return {'done': m.done, 'interruptions': m.n}


def alone(env, plan, done):
    m = setup(env, plan, False)
    return [m.alone(kind, j, eff, n) for n, (kind, j, eff) in enumerate(done)]
