"""S06: restoring does not depend on how the input stream delivers its bytes, and takes exactly one pickle from it."""
import os, sys
from sim import sess
from sim.things import THINGS
from sim.ctl import Violation
from sim.digest import diff

ID = 'S06'
RUNS = {'quick': 900, 'thorough': 16000}
WALL = {'quick': 70, 'thorough': 720}
TECHNIQUE = 'seeded simulation of input channels (chunking, buffering, missing or failing optional methods, blocking at message ends), differential against one plain buffer per message'
NOTE = ('Seeded search over sequences of pickles and sessions in one stream and over channel behaviours. Raw streams whose read(n) returns '
        'less than n although more follows are used below a buffered reader only, as pickle itself requires. Trusts the digest.')
SHRINK = ('items',)
RULE = ('one run = 1..5 pickles and sessions written one after another to one stream and read back through one channel; non-trivial always; '
        'distinct by event log')
STATES = 'distinct (channel, optional methods, message kind, loader, protocol) tuples'
REAL = 'dill, pickle, io, gzip, bz2, pipes and sockets between processes'
STUB = 'raw streams and minimal readers with scripted delivery'

CHANNELS = ('buffered', 'buffered', 'buffered', 'reader', 'reader', 'reader', 'gate-raw', 'gate-reader', 'gate-raw', 'gate-reader', 'pipe', 'pipe-raw', 'socket', 'gzip', 'bz2', 'file', 'file0',
            'spooled', 'delegate', 'rwpair', 'random', 'zip')
SKIP = {'counter', 'metaeq', 'mutualrec', 'selfclosure', 'wraps', 'cachedprop', 'newargs_ex'}


def gen(rng, tier, i):
    names = [t for t in THINGS if t not in SKIP and not THINGS[t].flags.get('main')]
    items = []
    for k in range(rng.choice([1, 2, 3, 3, 5])):
        it = {'kind': rng.choice(['obj', 'obj', 'session', 'session', 'session']), 'things': sess.gen_things(rng, rng.choice([1, 1, 2]), names),
              'proto': rng.choice([None, 0, 1, 2, 3, 4, 5]), 'pad': rng.choice([None, None, 'head', 'tail', 'doc']), 'k': k,
              'mode': rng.choice(sess.MODES), 'ref': rng.random() < .3, 'how': rng.choice(['load', 'load_module', 'load_module', 'asdict', 'update']),
              'arg': rng.choice(['none', 'object', 'name']), 'objhow': rng.choice(['load', 'load', 'unpickler', 'ignore'])}
        items.append(it)
    return {'items': items, 'channel': rng.choice(CHANNELS), 'sizes': [rng.choice([1, 2, 3, 7, 64, 255, 1000, 4096, 8192, 1 << 20]) for _ in range(rng.choice([1, 2, 5]))],
            'bufsize': rng.choice([1, 2, 16, 100, 512, 4096, 8192, 100000]), 'tell': rng.choice(['ok', 'raise', 'absent']), 'seek': rng.choice(['ok', 'raise', 'absent']),
            'peek': rng.choice([None, None, 1, 5, 100, -1, 1 << 20]), 'readinto': rng.random() < .5, 'prefix': rng.choice([0, 0, 0, 5]),
            'one': rng.random() < .3}


def simplify(plan):
    for k in range(len(plan['items'])):
        it = plan['items'][k]
        for key, v in (('pad', None), ('ref', False), ('arg', 'none')):
            if it[key] != v:
                items = [dict(x) for x in plan['items']]
                items[k][key] = v
                yield dict(plan, items=items)
        for j in range(len(it['things'])):
            items = [dict(x) for x in plan['items']]
            items[k]['things'] = it['things'][:j] + it['things'][j + 1:]
            yield dict(plan, items=items)


def run(plan, ctl):
    from sim.props.m01 import SKIP_PROTO01
    for it in plan['items']:
        if it['proto'] in (0, 1):
            it['things'] = [t for t in it['things'] if t[0] not in SKIP_PROTO01]
    sess.write_module(ctl)
    sizes = []
    for it in plan['items']:
        sizes.append(ctl.node('A', 'make', {'plan': plan, 'it': it}).result)
    r = ctl.node('B', 'read', {'plan': plan, 'sizes': sizes}, timeout=60)
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])
    return {}


def make(env, plan, it):
    import dill, io
    from sim import world as W
    out = io.BytesIO()
    if it['kind'] == 'session':
        mod = sess.module(it['mode'])
        ns = vars(mod)
        if it['pad'] == 'head':
            ns['apad'] = ['pad' * 5000, b'p' * 3000]
        if it['pad'] == 'doc':
            mod.__doc__ = 'documentation ' * 1500
        sess.populate(ns, it['things'])
        if it['pad'] == 'tail':
            ns['zpad'] = ['pad' * 30000, b'p' * 3000, list(range(3000))]
        ns['idx'] = it['k']
        data = sess.dump_to_bytes(mod, it['mode'], it['ref'], it['proto'])
    else:
        obj = [it['k']]
        if it['pad'] == 'head':
            obj.append(['pad' * 30000, b'p' * 3000])
        for t, n, s in it['things']:
            ns = {'__name__': 'sendns', '__builtins__': __import__('builtins')}
            W.install(ns, t, n)
            obj.append(W.evaluate(ns, t, n))
        if it['pad'] == 'tail':
            obj.append(b'x' * 200000)
        data = dill.dumps(obj, protocol=it['proto'])
    with open('item%d' % it['k'], 'wb') as f:
        f.write(data)
    return len(data)


class Gate:
    """where the sender waits: nothing beyond the current message exists yet"""

    def __init__(self, ends):
        self.ends, self.open, self.asked = ends, 0, None

    def limit(self):
        return self.ends[min(self.open, len(self.ends) - 1)]


def read(env, plan, sizes):
    import dill, io
    sys.path.insert(0, os.getcwd())
    datas = [open('item%d' % it['k'], 'rb').read() for it in plan['items']]
    want = sess.forked(lambda: consume(env, plan, datas, None))
    if want[0] != 'ok':
        env.log('violation', 'baseline', 'reading each message from its own buffer: %s' % want[1])
        return
    got = sess.forked(lambda: consume(env, plan, datas, plan['channel']))
    if got[0] != 'ok':
        env.log('violation', 'fails', 'channel %s: %s' % (describe(plan), got[1]))
        return
    for it in plan['items']:
        env.state([plan['channel'], plan['tell'], plan['seek'], plan['peek'], it['kind'], it['how'] if it['kind'] == 'session' else it['objhow'], it['proto']])
    env.count('channel:' + plan['channel'])
    for k, (a, b) in enumerate(zip(want[1], got[1])):
        if b and b[0] == 'violation':
            env.log('violation', b[1], 'channel %s, message %d (%s): %s' % (describe(plan), k, kind(plan['items'][k]), b[2]))
            return
        if a != b:
            env.log('violation', 'differs', 'channel %s: message %d (%s) is restored differently: %s' % (describe(plan), k, kind(plan['items'][k]), diff(a, b)))
            return
    if len(want[1]) != len(got[1]):
        env.log('violation', 'end', 'channel %s: after the last message: %s, not %s' % (describe(plan), got[1][-1], want[1][-1]))
        return
    env.log('read', len(got[1]))


def kind(it):
    return it['kind'] + ' by ' + (it['how'] if it['kind'] == 'session' else it['objhow'])


def describe(plan):
    return '%s (chunks %s, buffer %d, tell %s, seek %s, peek %s)' % (plan['channel'], plan['sizes'], plan['bufsize'], plan['tell'], plan['seek'], plan['peek'])


def channel(env, plan, datas):
    """-> (stream, gate or None, position function or None)"""
    import io
    from sim import seams
    data = b'#' * plan['prefix'] + b''.join(datas)
    ends, pos = [], plan['prefix']
    for d in datas:
        pos += len(d)
        ends.append(pos)
    ch = plan['channel']
    raw = lambda **k: seams.RawChunks(data, plan['sizes'], **k)
    tell = None
    gate = None
    if ch == 'buffered':
        f = io.BufferedReader(raw(seekable=plan['seek'] == 'ok'), plan['bufsize'])
        tell = f.tell if plan['seek'] == 'ok' else None
    elif ch in ('reader', 'gate-reader', 'delegate'):
        f = seams.Reader(data, {k: plan[k] for k in ('tell', 'seek', 'peek', 'readinto')})
        base = f
        tell = lambda: base.pos
        if ch == 'gate-reader':
            gate = Gate(ends)
            real = f._check

            def check(upto):
                if upto > gate.limit() and gate.open < len(ends):
                    gate.asked = 'asked for %d bytes beyond the end of the message' % (upto - gate.limit())
                    raise TimeoutError('sim: the sender waits, nothing more arrives')
                return real(upto)
            f._check = check
            if plan['peek']:
                f.peek = lambda n=0: data[f.pos:min(gate.limit(), f.pos + abs(plan['peek']))]
        if ch == 'delegate':
            class Delegate:
                def __init__(self, f): self._f = f
                def __getattr__(self, name): return getattr(self._f, name)
            f = Delegate(f)
    elif ch == 'gate-raw':
        gate = Gate(ends)
        r = raw()

        class Gated(io.RawIOBase):
            def readable(self): return True
            def readinto(self, buf):
                left = gate.limit() - r.pos
                if left <= 0 and gate.open < len(ends):
                    gate.asked = 'asked for more than the message'
                    raise TimeoutError('sim: the sender waits, nothing more arrives')
                return r.readinto(memoryview(buf)[:max(left, 0)])
        f = io.BufferedReader(Gated(), plan['bufsize'])
    elif ch in ('pipe', 'pipe-raw', 'socket'):
        import socket
        if ch == 'socket':
            a, b = socket.socketpair()
            rfd, w = a.detach(), b.detach()
        else:
            rfd, w = os.pipe()
        if os.fork() == 0:
            os.close(rfd)
            try:
                p = k = 0
                while p < len(data):
                    n = plan['sizes'][k % len(plan['sizes'])] + (3000 if len(data) > 100000 else 0)
                    p += os.write(w, data[p:p + n])
                    k += 1
            finally:
                os._exit(0)
        os.close(w)
        if ch == 'socket':
            f = socket.socket(fileno=rfd).makefile('rb', buffering=max(2, plan['bufsize']))
        else:
            f = io.open(rfd, 'rb', buffering=max(2, plan['bufsize']))
    elif ch in ('gzip', 'bz2', 'zip'):
        import gzip, bz2, zipfile
        if ch == 'zip':
            b = io.BytesIO()
            with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED) as z:
                z.writestr('x', data)
            f = zipfile.ZipFile(io.BytesIO(b.getvalue())).open('x')
        else:
            m = gzip if ch == 'gzip' else bz2
            c = m.compress(data)
            f = m.open(io.BufferedReader(seams.RawChunks(c, plan['sizes'], seekable=True), 4096), 'rb')
    elif ch in ('file', 'file0', 'random'):
        with open('stream', 'wb') as g:
            g.write(data)
        f = open('stream', 'r+b' if ch == 'random' else 'rb', buffering=0 if ch == 'file0' else max(2, plan['bufsize']))
        tell = f.tell
    elif ch == 'spooled':
        import tempfile
        f = tempfile.SpooledTemporaryFile(max_size=1000 if plan['one'] else 0, dir='.')
        f.write(data)
        f.seek(0)
        tell = f.tell
    elif ch == 'rwpair':
        f = io.BufferedRWPair(raw(), io.BytesIO(), plan['bufsize'])
    if plan['prefix']:
        f.read(plan['prefix'])
    return f, gate, tell, ends


def consume(env, plan, datas, ch):
    """what every message of the stream gives, one after another"""
    import dill, io
    from sim import world as W
    from sim.digest import Digester
    out = []
    f = gate = tell = None
    if ch is not None:
        f, gate, tell, ends = channel(env, plan, datas)
    up = None
    for k, it in enumerate(plan['items']):
        if ch is None:
            f = io.BytesIO(datas[k])
        if gate:
            gate.open, gate.asked = k, None
        try:
            if it['kind'] == 'obj':
                how = it['objhow']
                if how == 'unpickler':
                    o = dill.Unpickler(f).load()
                elif how == 'ignore':
                    o = dill.load(f, ignore=True)
                else:
                    o = dill.load(f)
                out.append(Digester(byvalue=('__main__', 'sendns'))(o))
            else:
                mode = it['mode']
                kw = {}
                mod = sess.module(mode)
                if it['arg'] == 'object' and not (mode == 'runtime' and it['how'] == 'asdict'):
                    kw['module'] = mod
                elif it['arg'] == 'name' and mode != 'runtime':
                    kw['module'] = sess.NAME[mode]
                if it['how'] in ('load_module', 'load'):
                    r = dill.load_module(f, **kw)
                    target = vars(r if mode == 'runtime' and r is not None else mod)
                else:
                    kw.pop('module', None)
                    target = dill.load_module_asdict(f, update=it['how'] == 'update')
                d = Digester(byvalue=(sess.NAME[mode],)).namespace(target)
                out.append([d, target.get('idx')])
        except Exception as e:
            if ch is None:
                raise
            out.append(['violation', 'beyond' if gate and gate.asked else 'fails', '%s: %s%s' % (
                type(e).__name__, str(e)[:200], '; ' + gate.asked if gate and gate.asked else '')])
            return out
        if tell is not None and tell() != ends[k]:
            out[-1] = ['violation', 'position', 'the stream is at %d after it, the message ends at %d' % (tell(), ends[k])]
            return out
    if gate:
        gate.open = len(datas)
    try:
        if ch is None:
            f = io.BytesIO(b'')
        dill.load(f)
        out.append('loaded from nothing')
    except EOFError:
        out.append('EOFError')
    except Exception as e:
        out.append(type(e).__name__)
    return out
