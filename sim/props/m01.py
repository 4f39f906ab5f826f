"""M01: messages between processes over a byte transport with faults."""
import os, sys
from sim.things import THINGS
from sim.ctl import Violation
from sim.digest import diff

ID = 'M01'
RUNS = {'quick': 2000, 'thorough': 12000}
TECHNIQUE = 'seeded simulation of a faulty byte transport between processes; end-to-end structural and behavioural oracle'
NOTE = ('Seeded search over message programs, options, protocols, hops and transport faults with real dill in separate interpreters. Trusts the structural digest (sim/digest.py) and the probes; no finite sample proves absence.')
SHRINK = ('msgs', 'cuts')
RULE = ('one run = 1..5 objects dumped to one stream by a sender process, carried over a transport that splits, duplicates, cuts or refuses '
        'bytes, loaded by a process of another hash seed, for 1..3 hops (each hop re-dumps what it received); non-trivial when at least '
        'one message was delivered; distinct by event log')
STATES = 'distinct (context, protocol, byref, recurse, thing) tuples delivered, plus fault kinds per tuple class'
REAL = 'dill, pickle, sender and receiver interpreters of different hash seeds'
STUB = 'the transport: an in-memory byte stream with scripted chunking, duplication, truncation and write errors'

CTX = ('exec', 'main', 'same', 'factory', 'module')
# outside the promise: functions sharing rebindable globals that are sent by value get a copy of them each; recurse=True gives up
# (RecursionError on dump) on functions that reach themselves through globals, closures or attributes; an instance reachable
# from the globals of its own class' __new__; byref with local classes
SKIP = {c: {'counter'} for c in CTX}
SKIP_RECURSE = {'metaeq', 'mutualrec', 'selfclosure', 'wraps', 'cachedprop'}
SKIP_PROTO01 = {'stringio', 'slots', 'dataclass', 'attrcls'} | {t for t in THINGS if THINGS[t].flags.get('proto2')}     # Python itself refuses these below protocol 2
SKIP_FACTORY_RECURSE = {'recursive', 'funcattrs', 'selfattr'}
SKIP['exec'] |= {'newargs_ex'}
# where the receiver has the module itself, functions use its globals, not the message's (and a top-level instance its class)
SKIP['same'] |= {'mutualrec', 'recursive', 'selfattr', 'lambdas', 'instattrfunc', 'inherit'}
SKIP['module'] |= {'lambdas', 'instattrfunc'}


def only(names):
    """development aid: SIM_THINGS restricts the vocabulary"""
    some = os.environ.get('SIM_THINGS')
    return [t for t in names if t in some.split(',')] or names[:1] if some else names


def flagged(flag):
    return {t for t in THINGS if THINGS[t].flags.get(flag)}

# the parts of these find one another through the names of their module
REBINDABLE = set(THINGS) - {'dataclass', 'exceptions', 'funcglobal', 'mutualrec', 'nestedclass', 'npsub', 'operators', 'recursive', 'reduce', 'selfattr', 'subbuiltin', 'tryexc'}


def usable(ctx, hops=()):
    skip = set(SKIP[ctx])
    if any(h['recurse'] for h in hops) or not hops:
        skip |= SKIP_RECURSE
        if ctx == 'factory':
            skip |= SKIP_FACTORY_RECURSE
    if any(h['byref'] for h in hops) or not hops:
        skip |= {'localclass'} | flagged('localcls')
    if any(h['proto'] in (0, 1) for h in hops):
        skip |= SKIP_PROTO01
    if ctx in ('same', 'module'):
        skip |= flagged('nomod')
    if ctx == 'factory':
        skip |= flagged('nofactory')
    return only([t for t in THINGS if t not in skip and not THINGS[t].flags.get('main')])


def steps_ok(ctx, t):
    """state kept in a module's globals belongs to the module, not to the message"""
    return ctx != 'module' and not (ctx == 'factory' and '__globals__' in THINGS[t].step)


def gen(rng, tier, i):
    ctx = rng.choice(CTX)
    byref = rng.random() < .4 if ctx in ('same', 'module') else False      # copies sent by value are not importable again
    hops = []
    for h in range(rng.choice([1, 1, 2, 3])):
        hops.append({'proto': rng.choice([None, None, 0, 1, 2, 3, 4, 5]),
                     'byref': byref,
                     'recurse': True if ctx == 'main' else rng.random() < .3,
                     'how': rng.choice(['dump', 'dump', 'dumps', 'pickler']),
                     'chunk': rng.choice([None, 1, 7, 100]),
                     'dup': rng.random() < .2,
                     'src': rng.choice([None, None, 'raw', 'file', 'bytesio', 'pipe'])})
    names = usable(ctx, hops)
    msgs = []
    for k in range(rng.choice([1, 1, 2, 2, 3, 5])):
        msgs.append([rng.choice(names), k + 1, rng.randrange(3)])
    clash = rng.choice([None, None, 'list', 'function', 'class', 'tuple'])
    if clash and ctx == 'main' and rng.random() < .3:
        msgs.append(['namedtuple', len(msgs) + 1, 0])
    cuts = []
    if rng.random() < .35:
        cuts.append([rng.randrange(len(hops)), rng.choice(['cut', 'refuse']), rng.random()])
    drop = ctx in ('exec', 'factory') and rng.random() < .3
    if drop:        # each message is made, sent and forgotten before the next one, so that addresses are used again
        if rng.random() < .7:
            t = rng.choice(names)
            msgs = [[t, k + 1, rng.randrange(3)] for k in range(rng.choice([3, 5, 8, 12]))]
        cuts = [c for c in cuts if c[1] == 'cut']
    rebound = ctx == 'module' and not byref and not cuts and rng.random() < .5
    if rebound:
        del hops[1:]
        msgs = [m for m in msgs if m[0] in REBINDABLE] or [['posonly', 1, 0]]
    return {'rebound': rebound, 'drop': drop, 'ctx': ctx, 'msgs': msgs, 'hops': hops, 'cuts': cuts, 'batch': rng.random() < .3 and ctx != 'same' and not drop, 'clash': clash,
            'gc': rng.choice([None, None, None, 1, 7, 50, 200, 0])}


def run(plan, ctl):
    msgs, hops = plan['msgs'], plan['hops']
    expect = None
    if plan['ctx'] == 'module':
        from sim.things import sub
        for t, n, k in msgs:
            with open(ctl.path('simmsg%d.py' % n), 'w') as f:
                f.write(sub(THINGS[t].setup, n) + '\n')
    delivered = 0
    for h, hop in enumerate(hops):
        cut = [c for c in plan['cuts'] if c[0] == h]
        r = ctl.node('AB'[h % 2], 'endpoint', {'plan': plan, 'h': h, 'cut': cut[0] if cut else None})
        stop = None
        for ev in r.events:
            if ev[0] == 'violation':
                raise Violation(ev[1], 'hop %d: %s' % (h, ev[2]))
            if ev[0] == 'stop':
                stop = ev[1]
        if stop is not None and stop == 0:
            return {'nontrivial': delivered > 0}
    r = ctl.node('AB'[len(hops) % 2], 'endpoint', {'plan': plan, 'h': len(hops), 'cut': None})
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], 'hop %d: %s' % (len(hops), ev[2]))
        if ev[0] == 'got':
            delivered += 1
    return {'nontrivial': delivered > 0}


# ---------------------------------------------------------------- node side
def namespace(ctx, n):
    """the namespace message n lives in at its origin"""
    if ctx in ('main', 'same'):
        import __main__
        return vars(__main__)
    if ctx == 'module':
        return vars(__import__('simmsg%d' % n))
    return {'__name__': 'sendns', '__builtins__': __import__('builtins')}


def make(ctx, t, n, k, W):
    ns = namespace(ctx, n)
    th = THINGS[t]
    from sim.things import sub
    if ctx == 'factory':
        src = 'def factory():\n' + ''.join('    ' + l + '\n' for l in sub(th.setup, n).split('\n'))
        src += '    return (%s)\n' % sub(th.obj, n)
        exec(compile(src, '<thing %s>' % t, 'exec', dont_inherit=True), ns)
        obj = ns['factory']()
    else:
        if ctx != 'module':
            W.install(ns, t, n)
        obj = W.evaluate(ns, t, n)
    if th.step and k and steps_ok(ctx, t):
        for j in range(k):
            W.body(sub(th.step, n), 'obj, G, k')(obj, ns, 40 + j)
    return obj


def clashing(name, kind):
    """an object of the receiver's own under a name of the sender"""
    if kind == 'class':
        return type(name, (), {'__module__': '__main__', 'mine': 1})
    if kind == 'tuple':
        import collections
        return collections.namedtuple(name, 'mine other', module='__main__')
    if kind == 'function':
        def f(*a, **k):
            return 'mine'
        f.__name__ = f.__qualname__ = name
        f.__module__ = '__main__'
        return f
    return ['clash']


class Refused(OSError):
    pass


class Out:
    """sending side of the transport: refuses to take more than `limit` bytes"""

    def __init__(self, limit=None):
        self.data, self.limit = bytearray(), limit

    def write(self, b):
        b = bytes(b)
        if self.limit is not None and len(self.data) + len(b) > self.limit:
            self.data += b[:self.limit - len(self.data)]
            raise Refused(32, 'sim: connection broken')
        self.data += b
        return len(b)


class In:
    """receiving side: hands out at most `chunk` bytes to read(), exactly what there is until the end"""

    def __init__(self, data, chunk, env):
        self.data, self.pos, self.chunk, self.env = data, 0, chunk, env

    # a blocking stream: read(n) gives n bytes unless the stream ends, however the transport chunks them
    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.pos
        out = bytearray()
        while len(out) < n and self.pos < len(self.data):
            c = self.data[self.pos:self.pos + min(n - len(out), self.chunk or n)]
            self.pos += len(c)
            out += c
            self.env.count('fault:chunked delivery', 1) if self.chunk and len(out) < n else None
        return bytes(out)

    def readline(self):
        e = self.data.find(b'\n', self.pos)
        e = len(self.data) if e < 0 else e + 1
        r = bytes(self.data[self.pos:e])
        self.pos = e
        return r


class Pipe:
    """the receiving end of a socket or pipe wrapped for reading: it has no position, and only what is asked for is taken"""

    def __init__(self, inner):
        self.inner, self.read, self.readline = inner, inner.read, inner.readline

    def readinto(self, b):
        d = self.inner.read(len(b))
        b[:len(d)] = d
        return len(d)

    def seekable(self):
        return False

    def tell(self):
        raise OSError(29, 'sim: illegal seek')
    seek = tell

    @property
    def pos(self):
        return self.inner.pos


def source(kind, data, path, chunk, env):
    import io
    if kind == 'raw':
        return open(path, 'rb', buffering=0)
    if kind == 'file':
        return open(path, 'rb')
    if kind == 'bytesio':
        return io.BytesIO(data)
    src = In(data, chunk, env)
    return Pipe(src) if kind == 'pipe' else src


def observe(t, n, obj, W):
    """digest now, and what the probe sees, in a forked copy of this process so that probing changes nothing here"""
    import json
    from sim.digest import Digester
    d = Digester(byvalue=('__main__', 'sendns'))(obj)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = W.do_probe(t, n, obj, None, Digester(byvalue=('__main__', 'sendns')))
            data = json.dumps(out).encode()
        except BaseException as e:
            data = json.dumps(['probe failed', type(e).__name__, str(e)[:200]]).encode()
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return [d, json.loads(data) if data else ['probe died']]


def collect(env, n):
    """the collector runs after every n new containers (0: never)"""
    import gc
    if n is not None:
        gc.set_threshold(n, 0, 0) if n else gc.disable()
        if n:
            env.count('fault:garbage collected at every few allocations')


def endpoint(env, plan, h, cut):
    """hop h: receive the messages of hop h-1 (or make them, h == 0), check them, send them on (unless last)"""
    from sim import world as W
    import dill, json, io
    ctx, msgs, hops = plan['ctx'], plan['msgs'], plan['hops']
    collect(env, plan.get('gc'))
    sys.path.insert(0, os.getcwd())
    objs = []
    drop = plan.get('drop') and h == 0
    if (h == 0 or ctx == 'same') and not drop:
        made = [make(ctx, t, n, k, W) for t, n, k in msgs]
        if h == 0:
            objs = made
            if ctx == 'main':
                import __main__
                with open('names', 'w') as f:
                    json.dump([k for k in vars(__main__) if not k.startswith('__')], f)
            with open('expect', 'w') as f:
                json.dump([observe(t, n, o, W) for (t, n, k), o in zip(msgs, objs)], f)
    expect = json.load(open('expect')) if not drop else []
    if h > 0:
        hop = hops[h - 1]
        if ctx == 'main' and plan['clash']:
            import __main__
            for k in json.load(open('names')):      # the receiver has its own objects under these names
                setattr(__main__, k, clashing(k, plan['clash']))
        data = open('wire%d' % (h - 1), 'rb').read()
        info = json.load(open('wire%d.info' % (h - 1)))
        ends, complete = info['ends'], info['complete']
        # unless told to ignore it, load uses the receiver's own class of that name for the loaded object itself
        lk = {'ignore': True} if ctx == 'main' and plan['clash'] in ('class', 'tuple') else {}
        src = source(hop.get('src'), data, 'wire%d' % (h - 1), hop['chunk'], env)
        here = getattr(src, 'pos', None)
        here = (lambda: src.pos) if here is not None else src.tell
        if hop['how'] == 'pickler':
            up = dill.Unpickler(src, **lk)
        i = 0
        while True:
            whole = i < complete
            if not whole and here() >= len(data):
                break
            try:
                if hop['how'] == 'pickler':
                    o = up.load()
                elif hop['how'] == 'dumps' and whole:
                    raw = src.read(ends[i] - here())
                    o = dill.loads(raw, **lk)
                    if hop['dup']:
                        o2 = dill.loads(raw, **lk)
                        env.count('fault:duplicated message')
                        for j, x in enumerate(o2 if plan['batch'] else [o2]):
                            if not compare(env, 'duplicate', plan, j if plan['batch'] else i, expect, x, W):
                                return
                else:
                    o = dill.load(src, **lk)
            except Exception as e:
                if whole:
                    return env.log('violation', 'load-failed', 'message %d %r: %s: %s' % (i, msgs[i] if not plan['batch'] else msgs, type(e).__name__, str(e)[:300]))
                env.log('cut message raises', type(e).__name__)
                env.count('fault:truncated message met by load')
                break
            if not whole:
                return env.log('violation', 'garbage', 'message %d was cut after %d of its bytes but loaded as %s' % (
                    i, len(data) - (ends[i - 1] if i else 0), type(o).__name__))
            if getattr(src, 'closed', False):
                return env.log('violation', 'boundary', 'the stream is closed after load of message %d' % i)
            if here() != ends[i]:
                return env.log('violation', 'boundary', 'message %d ends at byte %d, load consumed up to %d' % (i, ends[i], here()))
            if plan['batch']:
                objs = list(o)
            else:
                objs.append(o)
            i += 1
        for j, o in enumerate(objs):
            if not compare(env, 'message', plan, j, expect, o, W):
                return
            env.log('got', j)
            env.state([ctx, hop['proto'], hop['byref'], hop['recurse'], msgs[j][0]])
    if not objs and not drop:
        return env.log('stop', 0)
    if h == len(hops):
        return 0
    hop = hops[h]
    kw = {'protocol': hop['proto'], 'byref': hop['byref'], 'recurse': hop['recurse']}
    def oneatatime():
        for t, n, k in msgs:
            o = make(ctx, t, n, k, W)
            expect.append(observe(t, n, o, W))
            yield o
            del o
    if plan.get('rebound'):      # what was saved by name before cannot be now, as other objects took over the names
        for o in objs:
            dill.dumps(o, **kw)
        for t, n, k in msgs:
            ns = vars(sys.modules['simmsg%d' % n])
            for name, v in list(ns.items()):
                if not name.startswith('__') and getattr(v, '__module__', None) == ns['__name__'] and hasattr(v, '__qualname__'):
                    ns[name] = clashing(name, plan['clash'])
        env.count('history:names rebound between two saves', len(msgs))
    tosend = [objs] if plan['batch'] else oneatatime() if drop else objs
    probe = Out()
    limit = None
    if cut and cut[1] == 'refuse':
        total = 0
        try:
            for o in tosend:
                total += len(dill.dumps(o, **kw))
        except Exception:
            total = 100
        limit = int(total * cut[2])
    out, ends, complete = Out(limit), [], 0
    pk = dill.Pickler(out, **kw) if hop['how'] == 'pickler' else None
    for j, o in enumerate(tosend):
        try:
            if hop['how'] == 'dumps':
                out.write(dill.dumps(o, **kw))
            elif pk is not None:
                pk.dump(o)
            else:
                dill.dump(o, out, **kw)
        except Refused:
            env.count('fault:write refused during dump')
            if limit is None:
                raise
            # the object is still good: a second dump to a working stream gives the whole message
            out.limit = None
            break
        except Exception as e:
            return env.log('violation', 'dump-failed', 'message %d %r: %s: %s' % (j, msgs[j] if not plan['batch'] else msgs, type(e).__name__, str(e)[:300]))
        if limit is not None and len(out.data) > limit:
            return env.log('violation', 'silent-refusal', 'the stream refused bytes of message %d but dump returned' % j)
        ends.append(len(out.data))
        complete += 1
        del o
    if drop:
        env.count('history:messages made and dropped one after the other', len(msgs))
        with open('expect', 'w') as f:
            json.dump(expect, f)
    data = bytes(out.data)
    if cut and cut[1] == 'cut' and data:
        at = int(len(data) * cut[2])
        complete = sum(1 for e in ends if e <= at)
        data = data[:at]
        env.count('fault:stream cut')
    with open('wire%d' % h, 'wb') as f:
        f.write(data)
    with open('wire%d.info' % h, 'w') as f:
        json.dump({'ends': ends, 'complete': complete}, f)
    return 0


def compare(env, what, plan, j, expect, o, W):
    t, n, k = plan['msgs'][j]
    try:
        got = observe(t, n, o, W)
    except Exception as e:
        env.log('violation', 'damaged', '%s %d %r cannot be examined: %s: %s' % (what, j, plan['msgs'][j], type(e).__name__, str(e)[:200]))
        return False
    for part, a, b in zip(('structure', 'behaviour'), expect[j], got):
        if part == 'structure' and plan['ctx'] in ('same', 'module'):
            continue            # what is the receiver's own and what was sent is the options' choice there
        if a != b:
            env.log('violation', part, '%s %d %r: %s' % (what, j, plan['msgs'][j], diff(a, b)))
            return False
    return True
