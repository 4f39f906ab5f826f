"""F01: a restored file handle behaves as its file mode promises, whatever happened to the file meanwhile."""
import os, sys
from sim import sess
from sim.ctl import Violation

ID = 'F01'
RUNS = {'quick': 5000, 'thorough': 80000}
WALL = {'quick': 60, 'thorough': 720}
TECHNIQUE = 'seeded simulation of histories of a file and its handles (save, changes by others, full disk, restore in the same or another process) against a small executable model of the three file modes'
NOTE = ('Seeded search over open modes, positions, histories of the file, disk faults and operations on the restored and the original handle. The '
        'encoding, line ending and buffering arguments of open() are not part of a pickled handle and stay at their defaults here.')
SHRINK = ('before', 'changes', 'after')
RULE = ('one run = a handle used for 0..5 operations, saved, 0..3 changes made to the file by others, restored and used for 1..8 operations next to the '
        'handle the model opens; non-trivial when a handle was restored or refused as the model says; distinct by event log')
STATES = 'distinct (open mode, file mode, changes, fault, outcome of each operation) tuples'
REAL = 'dill, pickle, io, file system'
STUB = 'the disk limit (RLIMIT_FSIZE), the processes that change the file'

MODES = ('r', 'rb', 'r+', 'rb+', 'w', 'wb', 'w+', 'wb+', 'a', 'ab', 'a+', 'ab+', 'x', 'xb', 'x+', 'xb+')
CONTENTS = ('', 'hello\nworld\n', 'one\r\ntwo\rthree\n\n', 'x' * 9000 + '\nend', 'h\u00e9llo \u2028 w\u00f6rld\n\U0001f600\n', 'no newline', '\n' * 20, '\udcff\udc80raw\n\x00\x1a bytes')
OPS = (['read', 0], ['read', 3], ['read', None], ['line', 0], ['line', 0], ['next', 0], ['write', 'abc'], ['write', 'l1\nl2\r\n'], ['write', '\u00e9\u2028'], ['seek', 0], ['seek', 4],
       ['seek', 30], ['seekend', 0], ['tell', 0], ['trunc', None], ['trunc', 2], ['flush', 0], ['lines', 0], ['write', 'y' * 20000], ['readable', 0], ['writable', 0])
CHANGES = ('append', 'truncate', 'empty', 'remove', 'replace', 'rewrite', 'bigger', 'rmdir', 'directory', 'symlink', 'same', 'moved')


def gen(rng, tier, i):
    fm = rng.choice([0, 0, 1, 1, 1, 2, 2, 2])
    return {'mode': rng.choice(MODES), 'raw': rng.random() < .12, 'content': rng.randrange(len(CONTENTS)), 'exists': rng.random() < .85,
            'name': rng.choice(['f.txt', 'f.txt', 'sub/f', './sub/../f.txt', 'abs', 'na\u00efve \U0001f600', '<weird>']),
            'before': [rng.choice(OPS) for _ in range(rng.choice([0, 1, 2, 3, 5]))],
            'closed': rng.random() < .12, 'closeafter': rng.random() < .5,
            'fmode': fm, 'how': rng.choice(['kw', 'kw', 'settings', 'pickler', 'module', 'copy', 'positional']), 'protocol': rng.choice([None, 0, 2, 4, 5]),
            'changes': [rng.choice(CHANGES) for _ in range(rng.choice([0, 1, 1, 2, 3]))], 'chdir': rng.random() < .1,
            'via': rng.choice(['same', 'process']), 'wrap': rng.choice(['plain', 'twice', 'attr', 'closure']),
            'after': [rng.choice(OPS) for _ in range(rng.choice([1, 2, 4, 8]))],
            'full': rng.choice([None, None, None, None, 0, 3, 5000]), 'std': rng.choice([None] * 24 + ['stdin', 'stdout', 'stderr'])}


def simplify(plan):
    for key, v in (('full', None), ('name', 'f.txt'), ('via', 'same'), ('wrap', 'plain'), ('how', 'kw'), ('protocol', None), ('chdir', False), ('raw', False), ('content', 1)):
        if plan[key] != v:
            yield dict(plan, **{key: v})


def run(plan, ctl):
    os.makedirs(ctl.path('w/sub'))
    r = ctl.node('A', 'work', {'plan': plan, 'role': 'save' if plan['via'] == 'process' else 'whole'})
    check(r)
    if plan['via'] == 'process' and r.result == 'saved':
        r = ctl.node('B', 'work', {'plan': plan, 'role': 'load'})
        check(r)
    return {'nontrivial': True}


def check(r):
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])


# ---------------------------------------------------------------- the file system under the handle
def snapshot(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(base, n)
            r = os.path.relpath(p, d)
            if os.path.islink(p):
                out[r] = ['link', os.readlink(p)]
            elif os.path.isdir(p):
                out[r] = ['dir']
            else:
                with open(p, 'rb') as f:
                    out[r] = ['file', f.read().decode('latin-1')]
    return out


def restore(d, snap):
    import shutil
    for n in os.listdir(d):
        p = os.path.join(d, n)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for r in sorted(snap):
        p = os.path.join(d, r)
        if snap[r][0] == 'dir':
            os.mkdir(p)
        elif snap[r][0] == 'link':
            os.symlink(snap[r][1], p)
        else:
            with open(p, 'wb') as f:
                f.write(snap[r][1].encode('latin-1'))


def change(name, what, k):
    """somebody else does something to the file"""
    try:
        if what == 'append':
            with open(name, 'ab') as f:
                f.write(b'appended %d\n' % k)
        elif what == 'truncate':
            os.truncate(name, os.path.getsize(name) // 2)
        elif what == 'empty':
            os.truncate(name, 0)
        elif what == 'remove':
            os.unlink(name)
        elif what in ('replace', 'bigger'):
            with open(name + '.new', 'wb') as f:
                f.write(b'replaced\n' * (2000 if what == 'bigger' else 1))
            os.rename(name + '.new', name)
        elif what == 'rewrite':
            with open(name, 'wb') as f:
                f.write(b'rewritten ' + b'.' * k)
        elif what == 'rmdir':
            os.unlink(name)
            os.rmdir(os.path.dirname(name) or 'nothing')
        elif what == 'directory':
            os.unlink(name)
            os.mkdir(name)
        elif what == 'symlink':
            os.rename(name, name + '.real')
            os.symlink(os.path.basename(name) + '.real', name)
        elif what == 'moved':
            os.rename(name, name + '.moved')
    except OSError:
        pass


# ---------------------------------------------------------------- operations
def operate(h, op, arg):
    try:
        b = 'b' in mode_of(h)
        if op == 'read':
            r = h.read(arg)
        elif op == 'line':
            r = h.readline()
        elif op == 'lines':
            r = h.readlines()
        elif op == 'next':
            r = next(h, 'end')
        elif op == 'write':
            r = h.write(arg.encode() if b else arg)
        elif op == 'seek':
            r = h.seek(arg)
        elif op == 'seekend':
            r = h.seek(0, 2)
        elif op == 'trunc':
            r = h.truncate(arg)
        else:
            r = getattr(h, op)()
        return r.decode('latin-1') if isinstance(r, bytes) else [x.decode('latin-1') if isinstance(x, bytes) else ascii(x) for x in r] if isinstance(r, list) else ascii(r)
    except Exception as e:
        return type(e).__name__


def mode_of(h):
    return h.mode


def look(h, name=True):
    out = [type(h).__name__, h.mode, h.closed]
    if name:
        out.append(ascii(h.name))
    if not h.closed:
        out += [h.readable(), h.writable(), h.tell(), getattr(h, 'encoding', None)]
    return out


def use(h, plan, name, top, anon):
    out = [look(h, not anon)]
    for op, arg in plan['after']:
        out.append([op, operate(h, op, arg)])
    try:
        h.close()
    except Exception as e:
        out.append(type(e).__name__)
    return out


# ---------------------------------------------------------------- the model: what the three modes promise
class Refused(Exception):
    pass


def model(name, mode, pos, closed, fmode, data):
    """-> (handle, it is anonymous)"""
    import tempfile
    keep = lambda p, fl: os.open(p, fl & ~(os.O_TRUNC | os.O_EXCL), 0o777)
    try:
        if fmode == 2:
            with open(name, 'wb') as f:
                f.write(data)
            h = open(name, mode, opener=keep)
        elif not os.path.exists(name) and 'r' in mode:
            return tempfile.TemporaryFile(mode), True, closed
        elif fmode == 1:
            size = os.path.getsize(name) if os.path.exists(name) else 0
            h = open(name, mode, opener=keep)
            pos = min(pos, size)
        else:
            h = open(name, mode)
            pos = None
    except OSError as e:
        raise Refused(type(e).__name__)
    if pos is not None:
        h.seek(0 if closed else pos)
    return h, False, closed


def fds():
    return sorted(int(x) for x in os.listdir('/proc/self/fd') if int(x) < 900)


def limited(plan):
    import resource, signal
    if plan['full'] is not None:
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (plan['full'], resource.RLIM_INFINITY))


def unlimited():
    import resource
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def work(env, plan, role):
    import dill, json, io
    top = os.getcwd()
    w = os.path.join(top, 'w')
    os.chdir(w)
    name = os.path.join(w, 'abs.txt') if plan['name'] == 'abs' else plan['name']
    if role in ('whole', 'save'):
        if plan['std']:
            return standard(env, plan)
        saved = save(env, plan, name, w, top)
        if saved is None:
            return 'refused'
        with open(os.path.join(top, 'saved'), 'wb') as f:
            f.write(saved[0])
        with open(os.path.join(top, 'meta'), 'w') as f:
            json.dump(saved[1], f)
        if role == 'save':
            return 'saved'
    with open(os.path.join(top, 'saved'), 'rb') as f:
        pik = f.read()
    with open(os.path.join(top, 'meta')) as f:
        meta = json.load(f)
    for k, c in enumerate(plan['changes']):
        change(name, c, k)
        env.count('change:' + c)
    if plan['chdir']:
        os.makedirs(os.path.join(top, 'w', 'other', 'sub'), exist_ok=True)
        os.chdir(os.path.join(top, 'w', 'other'))
    here = snapshot(w)
    cwd = os.getcwd()

    def again():
        os.chdir(top)
        restore(w, here)
        os.chdir(cwd)

    def modelled():
        limited(plan)
        try:
            h, anon, closed = model(name, meta['mode'], meta['pos'], meta['closed'], plan['fmode'], meta['data'].encode('latin-1') if meta['data'] is not None else None)
            first = None
            if closed:
                h.close()
            out = use(h, plan, name, w, anon)
        except Refused as e:
            out = 'refused'
        unlimited()
        return [out, snapshot(w), 'anon' if out != 'refused' and anon else None]
    h = sess.forked(modelled)
    if h[0] != 'ok':
        raise RuntimeError('model: ' + h[1])
    want = h[1]
    again()

    def restored():
        before = fds()
        limited(plan)
        try:
            got = unwrap(plan, loads(plan, pik))
            out = use(got, plan, name, w, want[2] == 'anon')
            del got
        except dill.UnpicklingError as e:
            e.__cause__ = e.__context__ = e.__traceback__ = None
            e.args = ()
            out = 'refused'
        unlimited()
        return [out, snapshot(w), want[2], fds() == before]
    h = sess.forked(restored)
    env.log('history', want[0])
    env.state([plan['mode'], plan['fmode'], plan['changes'], plan['full'], want[0][1:] if want[0] != 'refused' else want[0]])
    if plan['full'] is not None:
        env.count('fault:full disk' + (', refused' if want[0] == 'refused' else ''))
    what = 'handle opened %r at %s, file mode %d, after %s' % (meta['mode'], meta['pos'], plan['fmode'], plan['changes'] or 'no change')
    if h[0] != 'ok':
        env.log('violation', 'restore-raised', '%s: %s' % (what, h[1]))
    elif h[1][0] != want[0]:
        a, b = h[1][0], want[0]
        n = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), 0) if 'refused' not in (a, b) else 0
        env.log('violation', 'handle', '%s: operation %d gives %s, not %s' % (what, n, short(a if a == 'refused' else a[n]), short(b if b == 'refused' else b[n])))
    elif h[1][1] != want[1] and want[0] != 'refused':
        ks = [k for k in set(h[1][1]) | set(want[1]) if h[1][1].get(k) != want[1].get(k)]
        env.log('violation', 'file', '%s: %s is %s afterwards, not %s' % (what, ks[0], short(h[1][1].get(ks[0])), short(want[1].get(ks[0]))))
    elif not h[1][3]:
        env.log('violation', 'descriptor', '%s: a descriptor is left open' % what)
    again()
    return 'done'


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:100] + '...' + s[-50:]


def standard(env, plan):
    import dill
    f = getattr(sys, '__%s__' % plan['std'])
    if dill.loads(dill.dumps([f], fmode=plan['fmode']))[0] is not f if plan['fmode'] != 2 else False:
        env.log('violation', 'standard', 'sys.__%s__ is not restored as itself' % plan['std'])
    env.state(['std', plan['std'], plan['fmode']])
    return 'done'


def wrap(plan, h):
    w = plan['wrap']
    if w == 'plain':
        return h
    if w == 'twice':
        return [h, {'again': h}]
    if w == 'attr':
        import types
        return types.SimpleNamespace(h=h)
    return lambda: h


def unwrap(plan, x):
    w = plan['wrap']
    if w == 'plain':
        return x
    if w == 'twice':
        assert x[0] is x[1]['again'], 'two references to one handle are two handles now'
        return x[0]
    return x.h if w == 'attr' else x()


def dumps(plan, obj):
    import dill, io
    fm, how, pr = plan['fmode'], plan['how'], plan['protocol']
    if how == 'settings':
        dill.settings['fmode'] = fm
        try:
            return dill.dumps(obj, pr)
        finally:
            dill.settings['fmode'] = 0
    if how == 'positional':
        return dill.dumps(obj, pr, None, fm)
    if how == 'pickler':
        b = io.BytesIO()
        dill.Pickler(b, pr if pr is not None else 4, fmode=fm).dump(obj)
        return b.getvalue()
    if how == 'module':
        dill.settings['fmode'] = fm
        try:
            m = sess.runtime_module()
            m.h = obj
            return sess.dump_to_bytes(m, 'runtime', False, pr)
        finally:
            dill.settings['fmode'] = 0
    return dill.dumps(obj, pr, fmode=fm)


def loads(plan, pik):
    import dill, io
    if plan['how'] == 'module':
        m = sess.runtime_module()
        dill.load_module(io.BytesIO(pik), module=m)
        return m.h
    return dill.loads(pik)


def save(env, plan, name, w, top):
    """use a handle, save it, go on using it; the same without saving"""
    import dill
    text = CONTENTS[plan['content']].encode('utf-8', 'surrogateescape')
    mode = plan['mode']
    if plan['exists'] and 'x' not in mode or 'r' in mode:
        with open(name, 'wb') as f:
            f.write(text)
    start = snapshot(w)

    def life(saving, known=None):
        kw = {'buffering': 0} if plan['raw'] and 'b' in mode else {}
        h = open(name, mode, **kw)
        out = [operate(h, op, arg) for op, arg in plan['before']]
        if plan['closed']:
            h.close()
        pik = meta = None
        if not saving and not h.closed:
            h.flush()
        try:
            meta = {'mode': h.mode, 'pos': 0 if h.closed else h.tell(), 'closed': h.closed}
        except (OSError, ValueError):
            meta = 'untold'
        if saving:
            before = fds()
            obj = wrap(plan, h)
            try:
                pik = dumps(plan, obj)
            except Exception as e:
                env.log('dumps raised', type(e).__name__, str(e)[:80])
                if known != 'untold':
                    raise Violation2('%s, file mode %d: saving raised %s: %s' % (mode, plan['fmode'], type(e).__name__, str(e)[:200]))
            if fds() != before:
                raise Violation2('saving leaves a descriptor open')
        if meta != 'untold':
            with open(name, 'rb') as f:
                meta['data'] = f.read().decode('latin-1')
        out.append(snapshot(w))
        out.append(h.closed)
        try:
            out.append(None if h.closed else look(h))
        except (OSError, ValueError) as e:
            out.append(type(e).__name__)
        if plan['closeafter']:
            h.close()
        mid = snapshot(w)
        for op, arg in plan['after']:
            out.append(operate(h, op, arg))
        h.close()
        out.append(snapshot(w))
        return out, pik, meta, mid
    try:
        want, _, meta, mid = life(False)
        os.chdir(top)
        restore(w, start)
        os.chdir(w)
        got, pik, _, mid = life(True, meta)
    except Violation2 as e:
        env.log('violation', 'save', str(e))
        return None
    if got != want:
        n = next(k for k, (a, b) in enumerate(zip(got, want)) if a != b)
        env.log('violation', 'original-changed', '%s, file mode %d, %s: the original handle or its file differs after saving (observation %d: %s, not %s)' % (
            mode, plan['fmode'], plan['before'], n, short(got[n]), short(want[n])))
        return None
    if pik is None or meta == 'untold':
        return None
    os.chdir(top)
    restore(w, mid)
    os.chdir(w)
    return pik, meta


class Violation2(Exception):
    pass
