"""G01: a saved weak reference or proxy comes back as a reference to its own referent, or dead."""
import os, sys
from sim import sess
from sim.ctl import Violation

ID = 'G01'
RUNS = {'quick': 2500, 'thorough': 60000}
WALL = {'quick': 60, 'thorough': 720}
TECHNIQUE = "seeded simulation of the moment at which referents die during a save or load (any line of dill's and pickle's code, any call of saved objects' code) with reuse of their memory; identity and liveness oracle"
NOTE = ('Seeded search over graphs of weak references and proxies, kinds of referents and moments of death. Proxies of objects the collector does not track '
        'cannot be saved (a loud ReferenceError), which is accepted.')
SHRINK = ('items',)
RULE = ('one run = a graph of 1..6 weak references, proxies and strong references, saved while the last strong references outside it disappear at a chosen '
        'line or call and look-alikes take their memory, then restored (1..2 hops); non-trivial when a reference was restored; distinct by event log')
STATES = 'distinct (kind of reference, kind of referent, strong in the graph, moment of death, fate when restored) tuples'
REAL = "dill, pickle, the interpreter's collector and allocator"
STUB = "the moment of death (line tracing and saved objects' own methods), allocation of look-alikes"

SRC = '''
import weakref as _weakref
class Ref:
    def __init__(self, tag): self.tag = [tag]
class Kept(Ref):
    def __setstate__(self, s):
        from sim.seams import KEEP
        self.__dict__.update(s); KEEP.append(self)
class KeptCall(Kept):
    def __call__(self): return self.tag
class Call:
    def __init__(self, tag): self.tag = [tag]
    def __call__(self): return self.tag
class Slot:
    __slots__ = ('tag', '__weakref__')
    def __init__(self, tag): self.tag = [tag]
class Lying(Ref):
    def __repr__(self): return '<x at 0x10>'
    __str__ = __repr__
class Raising(Ref):
    def __repr__(self): raise RuntimeError('no repr')
    def __str__(self): raise RuntimeError('no str')
class Eq(Ref):
    def __eq__(self, o): return True
    def __hash__(self): return 1
class Falsy(Ref):
    def __bool__(self): return False
    def __len__(self): return 0
class Attrs(Ref):
    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        return 'attr ' + n
class Lst(list):
    def __init__(self, tag=None):
        if tag is not None: self.tag = [tag]
class Dct(dict):
    def __init__(self, tag=None):
        if tag is not None: self.tag = [tag]
class Red(Ref):
    def __reduce__(self): return Red, (self.tag[0],)
class Number:
    def __init__(self, tag): self.tag = [tag]
    def __index__(self): return 5
    def __int__(self): return 5
    def __iter__(self): return iter([1])
Odd = type('Odd at 0x7f0000000000>', (Ref,), {'__module__': __name__})
Odd.__qualname__ = 'Odd'
def Func(tag):
    def f(): return 'f'
    f.tag = [tag]
    return f
def Klass(tag):
    return type('Made', (), {'tag': [tag], '__module__': __name__})
def Set(tag):
    s = St(); s.tag = [tag]; return s
class St(set): pass
def Cyc(tag):
    r = Ref(tag); r.me = r; r.more = [r]
    return r
class Pad:
    def __init__(self): self.v = 1
    def __getstate__(self):
        from sim.seams import trip; trip('save'); return {'v': self.v}
    def __setstate__(self, s):
        from sim.seams import trip; trip('load'); self.__dict__.update(s)
'''
KINDS = ('Ref', 'Ref', 'Kept', 'Kept', 'Kept', 'Kept', 'Kept', 'KeptCall', 'KeptCall', 'Call', 'Slot', 'Lying', 'Raising', 'Eq', 'Falsy', 'Attrs', 'Lst', 'Dct', 'Red', 'Number', 'Func', 'Klass', 'Set', 'Cyc')
WEAK = ('ref', 'ref', 'proxy', 'proxy', 'refcb', 'proxycb', 'weakset', 'holder')


def gen(rng, tier, i):
    nref = rng.choice([1, 1, 2, 3])
    items = []
    for k in range(rng.choice([1, 2, 3, 4, 6])):
        items.append([rng.choice(WEAK + ('strong', 'pad', 'pad')), rng.randrange(nref)])
    plan = {'refs': [rng.choice(KINDS) for _ in range(nref)], 'items': items, 'death': rng.choice(['before', 'line', 'line', 'line', 'trip', 'after', 'never', 'loadtrip', 'midfail']),
            'at': rng.random(), 'at2': rng.random(), 'any': rng.random() < .2, 'reuse': rng.random() < .8, 'threshold': rng.choice([None, None, 1, 7, 'off']), 'who': [rng.random() < .8 for _ in range(nref)],
            'via': rng.choice(['dumps', 'dumps', 'copy', 'module', 'process', 'pickler', 'hops']), 'byref': rng.choice([None, None, True]), 'recurse': rng.choice([None, None, True]),
            'protocol': rng.choice([None, 2, 3, 4, 5]), 'importable': rng.random() < .4}
    if not plan['importable'] and rng.random() < .1:
        plan['refs'][0] = 'Odd'
    return plan


def simplify(plan):
    for key, v in (('via', 'dumps'), ('reuse', False), ('threshold', None), ('byref', None), ('recurse', None), ('protocol', None), ('importable', False)):
        if plan[key] != v:
            yield dict(plan, **{key: v})


def run(plan, ctl):
    with open(ctl.path('simweak.py'), 'w') as f:
        f.write(SRC)
    r = ctl.node('A', 'work', {'plan': plan})
    check(r)
    if plan['via'] == 'process' and r.result:
        check(ctl.node('B', 'receiver', {'plan': plan, 'facts': r.result}))
    return {'nontrivial': r.result is not None}


def check(r):
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])


def classes(plan):
    if plan['importable']:
        sys.path.insert(0, os.getcwd())
        import simweak
        return vars(simweak)
    ns = {'__name__': 'weakns', '__builtins__': __import__('builtins')}
    exec(compile(SRC, '<weak>', 'exec', dont_inherit=True), ns)
    return ns


class Death:
    """ends the life of referents at a chosen line of the traced code"""

    def __init__(self, where=None, action=None):
        self.where, self.action, self.seen, self.fired = where, action, {}, False

    def _wanted(self, name):
        return '/dill/' in name or name.endswith('/pickle.py') or name.endswith('/weakref.py')

    def glob(self, frame, event, arg):
        return self.loc if self._wanted(frame.f_code.co_filename) else None

    def loc(self, frame, event, arg):
        if event == 'line':
            k = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            n = self.seen[k] = self.seen.get(k, 0) + 1
            if self.where is not None and self.where[0] == k and self.where[1] == n:
                self.fired = True
                self.action()
        return self.loc

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def callback(x):
    pass


def item(kind, obj):
    import weakref
    if kind == 'strong':
        return obj
    if kind == 'ref':
        return weakref.ref(obj)
    if kind == 'proxy':
        return weakref.proxy(obj)
    if kind == 'refcb':
        return weakref.ref(obj, callback)
    if kind == 'proxycb':
        return weakref.proxy(obj, callback)
    if kind == 'weakset':
        return (weakref.ref(obj), weakref.proxy(obj), weakref.ref(obj))
    return {'held': [weakref.ref(obj)]}



def build(plan, ns, holder):
    """the graph; holder has the only other strong references"""
    out = []
    for kind, k in plan['items']:
        if kind == 'pad':
            out.append(ns['Pad']())
        else:
            out.append(item(kind, holder[k]))
    return out


def targets(x, kind):
    """-> list of ('dead',) or ('alive', tag, weak) of the references in a restored item"""
    import weakref
    if kind == 'holder':
        x = x['held'][0]
    out = []
    for w in (x if kind == 'weakset' else [x]):
        try:
            if type(w) is weakref.ref:
                o = w()
                t = None if o is None else getattr(o, 'tag', ['a stranger', type(o).__name__])
                del o
            else:
                t = getattr(w, 'tag', ['a stranger', w.__class__.__name__])
        except ReferenceError:
            t = None
        out.append([type(w).__name__, t])
    return out


def examine(env, plan, got, facts, where):
    """facts: for every referent 'dead', 'alive' or 'dying' while saving"""
    items = plan['items']
    strong = {}
    for (kind, k), x in zip(items, got):
        if kind == 'strong':
            if x.tag[0] != k:
                return bad(env, plan, where, 'strong reference %d leads to %r' % (k, x.tag))
            if k in strong and strong[k] is not x:
                return bad(env, plan, where, 'two strong references to referent %d lead to two objects' % k)
            strong[k] = x
    for j, ((kind, k), x) in enumerate(zip(items, got)):
        if kind in ('strong', 'pad'):
            continue
        name = plan['refs'][k]
        for tname, t in targets(x, kind):
            fate = 'dead' if t is None else 'alive'
            env.state([kind, name, k in strong, plan['death'], facts[k], fate])
            what = 'item %d: %s (%s) of a %s' % (j, kind, tname, name)
            if t is not None and t[0] != k:
                return bad(env, plan, where, '%s leads to %r instead of %d' % (what, t, k))
            if t is not None and facts[k] == 'dead':
                return bad(env, plan, where, '%s was dead before it was saved but leads to %r' % (what, t))
            if k in strong:
                if t is None:
                    return bad(env, plan, where, '%s is dead although the graph holds its referent' % what)
                if t is not strong[k].tag:
                    return bad(env, plan, where, '%s leads to another copy than the strong reference' % what)
                if 'Proxy' in tname and (tname == 'CallableProxyType') != callable(strong[k]):
                    return bad(env, plan, where, '%s is callable or not unlike its referent' % what)
            if t is None and facts[k] == 'alive' and name.startswith('Kept'):
                return bad(env, plan, where, '%s is dead although its referent was alive while it was saved and is alive restored' % what)
            if t is None and tname != 'ReferenceType' and (tname == 'CallableProxyType') != (name in ('Call', 'KeptCall', 'Func', 'Klass')):
                return bad(env, plan, where, '%s is a %s now' % (what, tname))
    return True


def bad(env, plan, where, text):
    env.log('violation', 'wrong-referent', '%s: %s (referents %s died %s)' % (where, text, plan['refs'], plan['death']))
    return False


def dump(plan, graph):
    import dill, io
    kw = {'protocol': plan['protocol'], 'byref': plan['byref'] if plan['importable'] and 'Klass' not in plan['refs'] else None, 'recurse': plan['recurse']}
    if plan['via'] == 'module':
        m = sess.runtime_module()
        m.graph = graph
        return sess.dump_to_bytes(m, 'runtime', False, plan['protocol'])
    if plan['via'] == 'pickler':
        b = io.BytesIO()
        dill.Pickler(b, **{k: v for k, v in kw.items() if v is not None}).dump(graph)
        return b.getvalue()
    return dill.dumps(graph, **kw)


def load(plan, data):
    import dill, io
    if plan['via'] == 'module':
        m = sess.runtime_module()
        dill.load_module(io.BytesIO(data), module=m)
        return m.graph
    return dill.loads(data)


def work(env, plan):
    import dill, gc, weakref
    from sim import seams
    ns = classes(plan)
    seams.arm(None)
    holder = {k: ns[kind](k) for k, kind in enumerate(plan['refs'])}
    watch = [weakref.ref(holder[k]) for k in range(len(plan['refs']))]
    graph = build(plan, ns, holder)
    strong = {k for kind, k in plan['items'] if kind == 'strong'}
    impostors = []
    dying = [k for k, w in enumerate(plan['who']) if w]

    def kill():
        for k in dying:
            holder.pop(k, None)
        if any(plan['refs'][k] in ('Cyc', 'Func', 'Klass') for k in dying):
            gc.collect()
        if plan['reuse']:
            for k in dying:
                for _ in range(20):
                    impostors.append(ns[plan['refs'][k]]('impostor'))
    facts = ['alive'] * len(plan['refs'])
    if plan['threshold'] == 'off':
        gc.disable()
    elif plan['threshold']:
        gc.set_threshold(plan['threshold'])
    if plan['death'] == 'before':
        kill()
        facts = ['alive' if w() is not None else 'dead' for w in watch]
    elif plan['death'] in ('line', 'trip', 'midfail'):
        facts = ['dying' if k in dying and k not in strong else 'alive' for k in range(len(facts))]
    death = None
    if plan['death'] == 'midfail':
        graph.append((i for i in [1]))          # the save fails in the end
    if plan['death'] in ('line', 'midfail'):
        def count():
            with Death() as d:
                try:
                    dump(plan, graph)
                except TypeError:
                    pass
            return sorted(d.seen.items())
        lines = sess.forked(count)
        if lines[0] != 'ok':
            raise RuntimeError(lines[1])
        lines = lines[1]
        # every line of the code is as likely as any other, however often it runs
        mine = [x for x in lines if not x[0].startswith(('pickle.', 'weakref.'))] or lines
        k, n = (lines if plan['any'] else mine)[int(plan['at'] * len(lines if plan['any'] else mine))]
        death = Death([k, 1 + int(plan['at2'] * n)], kill)
        env.count('line:' + k.split(':')[0])
    elif plan['death'] == 'trip':
        n = sess.forked(lambda: [dump(plan, graph), seams.Trip.n][1])[1]
        n = n if isinstance(n, int) else 0
        seams.arm(1 + int(plan['at'] * n), 'user', lambda where: kill())
    untracked = [k for k in range(len(plan['refs'])) if watch[k]() is not None and not gc.is_tracked(watch[k]())]
    data = err = None
    try:
        if death:
            with death:
                data = dump(plan, graph)
        else:
            data = dump(plan, graph)
    except Exception as e:
        err = [type(e).__name__, str(e)[:200]]
        e.__traceback__ = e.__context__ = e.__cause__ = None
        del e
    seams.arm(None)
    if death and death.fired:
        env.count('fault:referent dies at a line')
    elif plan['death'] == 'trip':
        env.count('fault:referent dies in a call')
    what = 'saving %s (%s) whose referents died %s' % (plan['items'], plan['refs'], plan['death'])
    if err and plan['death'] != 'midfail':
        if err[0] == 'ReferenceError' and 'Cannot reference' in err[1] and untracked:
            env.log('refused', err[0])
            return None
        env.log('violation', 'save-raised', '%s raised %s: %s' % (what, err[0], err[1]))
        return None
    # nothing of the save keeps the referents alive
    kill()
    impostors.clear()
    if plan['threshold'] == 'off':
        gc.enable()
    gc.collect()
    alive = [k for k in dying if k not in strong and watch[k]() is not None]
    if alive and plan['via'] != 'pickler':
        env.log('violation', 'kept-alive', '%s%s keeps %s alive' % (what, ' (which failed)' if err else '', [plan['refs'][k] for k in alive]))
        return None
    if err:
        env.log('failed as planned', err[0])
        return None
    env.log('saved', plan['death'])
    if plan['via'] == 'process':
        with open('wire', 'wb') as f:
            f.write(data)
        return facts
    for hop in range(2 if plan['via'] == 'hops' else 1):
        if plan['death'] == 'loadtrip':
            seams.arm(1, 'user', lambda where: (kill(), gc.collect(), [ns['Ref']('impostor') for _ in range(50)]))
        try:
            got = load(plan, data)
        except Exception as e:
            env.log('violation', 'load-raised', '%s: loading raised %s: %s' % (what, type(e).__name__, str(e)[:200]))
            return None
        seams.arm(None)
        if not examine(env, plan, got, facts, 'restored' if not hop else 'restored from a restored graph'):
            return None
        if plan['via'] == 'hops' and hop == 0:
            facts = [f if k in strong or plan['refs'][k].startswith('Kept') else 'dead' for k, f in enumerate(facts)]
            gc.collect()
            try:
                data = dump(plan, got)
            except ReferenceError:
                return None if untracked else env.log('violation', 'save-raised', '%s: saving the restored graph raised ReferenceError' % what)
            del got
    # the graph itself stays as it was
    if not examine_original(env, plan, graph, strong, what):
        return None
    return facts


def examine_original(env, plan, graph, strong, what):
    for j, ((kind, k), x) in enumerate(zip(plan['items'], graph)):
        if kind in ('strong', 'pad'):
            continue
        for tname, t in targets(x, kind):
            if (t is None) != (k not in strong and plan['who'][k]) or t is not None and t[0] != k:
                env.log('violation', 'original-changed', '%s: item %d of the original leads to %r' % (what, j, t))
                return False
    return True


def receiver(env, plan, facts):
    import dill, gc
    from sim import seams
    seams.arm(None)
    if plan['importable']:
        classes(plan)
    with open('wire', 'rb') as f:
        data = f.read()
    try:
        got = dill.loads(data)
    except Exception as e:
        env.log('violation', 'load-raised', 'loading in another process raised %s: %s' % (type(e).__name__, str(e)[:200]))
        return
    gc.collect()
    examine(env, plan, got, facts, 'restored in another process')
