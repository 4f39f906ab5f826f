"""S04: session files never follow a symbolic link, whenever an adversary swaps it in; new ones are private from their first moment."""
import os, sys, stat
from sim import sess
from sim.ctl import Violation

ID = 'S04'
RUNS = {'quick': 2000, 'thorough': 40000}
WALL = {'quick': 60, 'thorough': 720}
TECHNIQUE = 'seeded simulation of an adversary process acting between any two steps of a session save or load (line, system-call and audit-event granularity)'
NOTE = ('The adversary is scheduled at every line of the running code in dill/session.py, before and after every path-taking os call and at '
        'the audit event inside open(), i.e. between check and use. Single host, Linux semantics; directory components of the path are outside.')
SHRINK = ('acts', 'ops')
RULE = ('one run = 1..3 operations on one path with 0..3 adversary actions each at chosen points; non-trivial when at least one adversary '
        'action ran; distinct by event log')
STATES = 'distinct (operation, initial path state, adversary action, call site it preceded, outcome) tuples'
REAL = 'dill, file system, os and open'
STUB = 'the adversary process (its actions run in the same process at simulated instants)'

OPS = ('dump', 'dump', 'load', 'asdict', 'asdict-update', 'dump-ref', 'load-arg')
STATE = ('absent', 'absent', 'file', 'file', 'link-session', 'link-junk', 'link-dangling', 'link-self', 'link-loop', 'link-good', 'junk')
ACTS = ('link-session', 'link-junk', 'link-dangling', 'link-good', 'unlink', 'file', 'junk', 'swap-back', 'chmod')


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        acts = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            acts.append([rng.random(), rng.choice(ACTS)])
        acts.sort()
        ops.append({'op': rng.choice(OPS), 'state': rng.choice(STATE), 'acts': acts, 'umask': rng.choice([0o22, 0o22, 0, 0o77, 0o27, 0o2, 0o177]),
                    'mode': rng.choice([0o600, 0o644, 0o666, 0o640, 0o700]), 'ptype': rng.choice(['str', 'path', 'abs', 'default', 'bytes', 'dot', 'up', 'dirlink', 'slash', 'slashdot'])})
    return {'ops': ops, 'mod': rng.choice(['import', 'runtime', 'import', 'main']), 'size': rng.choice([1, 1, 5000])}


def simplify(plan):
    for k, op in enumerate(plan['ops']):
        for j in range(len(op['acts'])):
            ops = [dict(o) for o in plan['ops']]
            ops[k]['acts'] = op['acts'][:j] + op['acts'][j + 1:]
            yield dict(plan, ops=ops)
        if op['ptype'] != 'str':
            ops = [dict(o) for o in plan['ops']]
            ops[k]['ptype'] = 'str'
            yield dict(plan, ops=ops)


def run(plan, ctl):
    sess.write_module(ctl)
    r = ctl.node('A', 'work', {'plan': plan})
    acted = 0
    for ev in r.events:
        if ev[0] == 'violation':
            raise Violation(ev[1], ev[2])
        if ev[0] == 'op':
            acted += ev[3]
    return {'nontrivial': acted > 0}


class World:
    """the files, and what the adversary does to them"""

    def __init__(self, path, good, evil):
        self.path, self.good, self.evil = path, good, evil
        self.made = False       # the operation under test may have created the file now at the path

    def put(self, state, mode=0o644):
        p = self.path
        if os.path.lexists(p):
            os.unlink(p)
        if state == 'file':
            self.write(p, self.good, mode)
        elif state == 'junk':
            self.write(p, b'junk, not a pickle', mode)
        elif state == 'link-session':
            os.symlink(os.path.abspath('victim-session'), p)
        elif state == 'link-junk':
            os.symlink(os.path.abspath('victim-junk'), p)
        elif state == 'link-dangling':
            os.symlink(os.path.abspath('victim-dangling'), p)
        elif state == 'link-good':
            os.symlink(os.path.abspath('victim-good'), p)
        elif state == 'link-self':
            os.symlink(p, p)
        elif state == 'link-loop':
            if os.path.lexists('loop2'):
                os.unlink('loop2')
            os.symlink(os.path.abspath(os.fsdecode(p)), 'loop2')
            os.symlink(os.path.abspath('loop2'), p)

    def write(self, p, data, mode):
        fd = os.open(p, os.O_CREAT | os.O_WRONLY | os.O_EXCL, 0o600)
        os.write(fd, data)
        os.fchmod(fd, mode)
        os.close(fd)

    def victims(self):
        self.write('victim-session', self.evil, 0o640)
        self.write('victim-junk', b'precious', 0o604)
        self.write('victim-good', self.good, 0o644)
        return self.look()

    def look(self):
        out = {}
        for n in ('victim-session', 'victim-junk', 'victim-good', 'victim-dangling'):
            try:
                st = os.lstat(n)
                out[n] = (st.st_mode, st.st_ino, st.st_nlink, open(n, 'rb').read())
            except FileNotFoundError:
                out[n] = None
        return out


NAMES = ('open', 'lstat', 'stat', 'unlink', 'remove', 'rename', 'replace', 'chmod', 'fchmod', 'access', 'readlink', 'fdopen', 'fstat', 'symlink', 'truncate',
         'ftruncate', 'link', 'mkdir', 'utime', 'close', 'lchown', 'chown')


class Instants:
    """calls back at every instant an adversary could act: lines of dill/session.py, around os calls, inside open()"""

    def __init__(self, hook):
        import builtins, io
        self.hook, self.n, self.busy, self.on = hook, 0, False, False
        self.real = {n: getattr(os, n) for n in NAMES}
        self.realopen = builtins.open
        if not Instants.__dict__.get('hooked'):
            Instants.hooked = True
            sys.addaudithook(self.audit)
        Instants.current = self

    def at(self, where):
        if self.busy or not self.on:
            return
        self.busy = True
        try:
            self.n += 1
            self.hook(self.n, where)
        finally:
            self.busy = False

    @staticmethod
    def audit(event, args):
        i = getattr(Instants, 'current', None)
        if i is not None and i.on and not i.busy and event in ('open', 'os.chmod', 'os.truncate', 'os.rename', 'os.remove', 'os.link'):
            i.at('audit ' + event)

    def wrap(self, name, fn):
        def call(*a, **k):
            self.at('before ' + name)
            r = fn(*a, **k)
            self.at('after ' + name)
            return r
        call.__name__ = name
        return call

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.endswith('dill/session.py'):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line':
            self.at('line of %s' % frame.f_code.co_name)
        return self.local

    def __enter__(self):
        import builtins
        for n, f in self.real.items():
            setattr(os, n, self.wrap('os.' + n, f))
        builtins.open = self.wrap('open', self.realopen)
        self.on = True
        sys.settrace(self.trace)

    def __exit__(self, *a):
        import builtins
        sys.settrace(None)
        self.on = False
        for n, f in self.real.items():
            setattr(os, n, f)
        builtins.open = self.realopen


def work(env, plan):
    import dill, io, importlib, tempfile, types, warnings, pathlib
    os.mkdir('tmp', 0o777)
    os.chmod('tmp', 0o1777)
    os.symlink('.', 'dirlink')
    tempfile.tempdir = os.path.join(os.getcwd(), 'tmp')
    importlib.reload(dill.session)           # its default path is fixed when it is imported
    session = dill.session
    default = session.SESSION_TEMPFILE
    assert default.startswith(os.getcwd()), default
    warnings.simplefilter('ignore')
    mod = sess.module(plan['mod'])
    ns = vars(mod)
    sess.populate(ns, [['alias', 1, 0]])
    ns['pad'] = 'x' * plan['size']
    ns['marker'] = 'good'
    good = sess.dump_to_bytes(mod, plan['mod'])
    ns['marker'] = 'evil'
    evil = sess.dump_to_bytes(mod, plan['mod'])
    ns['marker'] = 'live'
    for k, o in enumerate(plan['ops']):
        path = {'str': 'sess.pkl', 'path': pathlib.Path('sess.pkl'), 'abs': os.path.abspath('sess.pkl'), 'default': default, 'bytes': b'sess.pkl'}.get(o['ptype'], 'sess.pkl')
        arg = {'default': None, 'dot': './sess.pkl', 'up': 'tmp/../sess.pkl', 'dirlink': 'dirlink/sess.pkl', 'slash': 'sess.pkl/', 'slashdot': 'sess.pkl/.'}.get(o['ptype'], path)
        w = World(path, good, evil)
        if o['state'] == 'link-self' and o['ptype'] in ('str', 'path', 'bytes'):
            pass
        for v in ('victim-session', 'victim-junk', 'victim-good', 'victim-dangling'):
            if os.path.lexists(v):
                os.unlink(v)
        w.put(o['state'], o['mode'])
        before = w.victims()
        # dry run on a copy of the situation, to know how many instants there are
        total = [0]

        def perform():
            op = o['op']
            if op.startswith('dump'):
                return session.dump_module(arg, module=mod, refimported=op == 'dump-ref')
            if op == 'load':
                return session.load_module(arg, **({'module': mod} if plan['mod'] == 'runtime' else {}))
            if op == 'load-arg':
                return session.load_module(arg, module=mod)
            return session.load_module_asdict(arg, update=op == 'asdict-update')
        acts, log, st = list(o['acts']), [], {'i': 0, 'widest': None, 'static': True}

        def widest(where):
            # permissions of whatever the operation has created at the path
            try:
                s = os.lstat(path)
            except FileNotFoundError:
                return
            if stat.S_ISREG(s.st_mode) and (s.st_ino not in foreign) and s.st_mode & 0o077 and st['widest'] is None:
                st['widest'] = (oct(s.st_mode & 0o7777), where)
        foreign, held = set(), []

        def note():
            try:
                foreign.add(os.lstat(path).st_ino)
                held.append(os.open(path, os.O_PATH | os.O_NOFOLLOW))       # so that its number is not used again
            except FileNotFoundError:
                pass

        def hook(n, where):
            if n in when:
                act = when[n]
                env.count('fault:adversary ' + act)
                st['static'] = False
                if act == 'unlink':
                    if os.path.lexists(path):
                        os.unlink(path)
                elif act == 'swap-back':
                    w.put(o['state'], o['mode'])
                    note()
                elif act == 'chmod':
                    if os.path.lexists(path) and not os.path.islink(path):
                        os.chmod(path, 0o644)
                        note()
                else:
                    w.put(act, o['mode'])
                    note()
                log.append([act, where])
            widest(where)
        os.umask(o['umask'])
        live = dict(ns)
        try:
            when = {}
            note()
            inst = Instants(lambda n, where: None)
            pid_total = sess.forked(lambda: dry(inst, perform))
            total = pid_total[1] if pid_total[0] == 'ok' else 40
            when = {}
            # the forked dry run worked on the same files: put them back
            for v in ('victim-session', 'victim-junk', 'victim-good', 'victim-dangling'):
                if os.path.lexists(v):
                    os.unlink(v)
            w.put(o['state'], o['mode'])
            before = w.victims()
            foreign.clear()
            note()
            for f, act in acts:
                when[1 + int(f * total)] = act
            err = res = None
            inst = Instants(hook)
            try:
                with inst:
                    res = perform()
            except BaseException as e:
                err = e
                e.__traceback__ = None
            widest('the end')
        finally:
            for fd in held:
                os.close(fd)
            os.umask(0o22)
        env.log('op', o['op'], o['state'], len(log), log, type(err).__name__ if err else None)
        for l in log or [['none', '']]:
            env.state([o['op'], o['state'], l[0], l[1], type(err).__name__ if err else 'ok'])
        what = 'operation %d: %s (path was %s, umask %o, adversary %s) %s' % (
            k, o['op'], o['state'], o['umask'], log, 'raised %s: %s' % (type(err).__name__, str(err)[:150]) if err else 'returned')
        after = w.look()
        for v in before:
            if before[v] != after[v]:
                b, a = before[v], after[v]
                how = 'was created' if b is None else 'is gone' if a is None else 'was written to' if a[3] != b[3] else 'changed mode %o -> %o' % (b[0], a[0])
                return env.log('violation', 'target-written', '%s: the link target %s %s' % (what, v, how))
        if st['widest'] and not any(l[0] == 'chmod' for l in log):
            return env.log('violation', 'not-private', '%s: the new session file had mode %s at %s' % (what, st['widest'][0], st['widest'][1]))
        isload = not o['op'].startswith('dump')
        marker = None
        if isload and err is None:
            m = res if isinstance(res, dict) else vars(res) if res is not None else ns
            marker = m.get('marker')
        elif isload:
            marker = ns.get('marker')
        if isload and marker == 'evil':
            return env.log('violation', 'target-read', '%s: the contents of a link target were loaded' % what)
        link = o['state'].startswith('link') or o['ptype'].startswith('slash')       # nor can it be a file then
        if st['static'] and link and not isinstance(err, OSError):
            return env.log('violation', 'no-oserror', what + '; it should raise OSError')
        if st['static'] and not link:
            ok = {'absent': not isload, 'file': True, 'junk': not isload}[o['state']]
            if ok and err is not None:
                return env.log('violation', 'fails', what + ' although nothing was wrong')
            if not ok and err is None:
                return env.log('violation', 'silent', what)
            if ok and not isload:
                s = os.lstat(path)
                if o['state'] != 'absent' and stat.S_IMODE(s.st_mode) != o['mode']:
                    return env.log('violation', 'permissions', '%s: the permissions of an existing file changed from %o to %o' % (what, o['mode'], s.st_mode & 0o7777))
            if ok and isload and marker != 'good':
                return env.log('violation', 'wrong', '%s: marker %r' % (what, marker))
        if not st['static'] and err is not None and not isinstance(err, OSError):
            # junk or an empty file was there for a moment
            if not (isload and (o['state'] == 'junk' or any(l[0] == 'junk' for l in log))):
                return env.log('violation', 'error', what)
        # a reading through a link shows in what the operation returns only when the target can be loaded
        if not isload and err is None and os.path.lexists(path) and not os.path.islink(path) and st['static'] and o['ptype'] != 'bytes':
            d = session.load_module_asdict(path)
            if d.get('marker') != ns.get('marker'):
                return env.log('violation', 'saved', '%s: the file does not hold the session' % what)
        # once the adversary is gone everything works
        w.put('file', 0o600)
        ns.clear()
        ns.update(live)
        if o['ptype'].startswith('slash'):
            arg = path
        try:
            session.dump_module(arg, module=mod)
            d = session.load_module_asdict(arg)
        except BaseException as e:
            return env.log('violation', 'later', '%s; afterwards %s: %s' % (what, type(e).__name__, str(e)[:200]))
        if d.get('marker') != 'live':
            return env.log('violation', 'later', '%s; afterwards marker %r' % (what, d.get('marker')))


def dry(inst, perform):
    try:
        with inst:
            perform()
    except BaseException:
        pass
    return inst.n
