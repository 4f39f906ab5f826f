"""Controller side of the simulator: zygotes, node tasks, scratch directories."""
import ctypes, json, os, shutil, subprocess, sys, tempfile, hashlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PEER = os.path.join(HERE, 'peer')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


class HarnessError(Exception):
    """something went wrong in the harness itself, not in the code under test"""


class NodeResult:
    __slots__ = ('status', 'code', 'events', 'counts', 'steps', 'states', 'result', 'has_result', 'trace')

    def __init__(self, head, data):
        self.status, self.code = head
        self.events, self.counts, self.states = [], {}, []
        self.steps = 0
        self.result = None
        self.has_result = False
        self.trace = None
        for line in data.split(b'\n'):
            if not line:
                continue
            try:
                k, v = json.loads(line)
            except ValueError:      # cut by a kill in the middle of a line
                continue
            if k == 'e':
                self.events.append(v)
            elif k == 'c':
                self.counts[v[0]] = self.counts.get(v[0], 0) + v[1]
            elif k == 's':
                self.steps += v
            elif k == 'h':
                self.states.append(v)
            elif k == 'r':
                self.result = v
                self.has_result = True
            elif k == 'x':
                self.trace = v

    @property
    def ok(self):
        return self.status == 'exit' and self.code == 0 and self.has_result


def _no_aslr():
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        cur = libc.personality(ctypes.c_ulong(0xffffffff))
        if cur != -1:
            libc.personality(ctypes.c_ulong(cur | 0x0040000))
    except Exception:
        pass


class Zygote:
    def __init__(self, hashseed, repo, preload=()):
        cfg = {'path': [HERE], 'repo': repo, 'preload': list(preload)}
        env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LANG': 'C.UTF-8', 'PYTHONHASHSEED': str(hashseed), 'TZ': 'UTC',
               'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'PYTHONNODEBUGRANGES': ''}
        if os.environ.get('SIM_COV'):
            env['SIM_COV'] = os.environ['SIM_COV']
        boot = 'import sys; sys.path[:0] = [%r]; __import__("sim.node").node.main()' % HERE
        self.p = subprocess.Popen([PY, '-B', '-c', boot, json.dumps(cfg)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE if os.environ.get('SIM_QUIET') else None, env=env, cwd='/', preexec_fn=_no_aslr)
        self.out = self.p.stdout
        line = self.out.readline()
        if line != b'ready\n':
            raise HarnessError('zygote did not start (is dill importable?): %r' % line)

    def run(self, req):
        self.p.stdin.write(json.dumps(req).encode() + b'\n')
        self.p.stdin.flush()
        head = self.out.readline()
        if not head:
            raise HarnessError('zygote died')
        head = json.loads(head)
        n = int(self.out.readline())
        data = self.out.read(n)
        return NodeResult(head, data)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


class Ctl:
    """runs nodes for one simulated run after another"""

    def __init__(self, prop, base):
        self.prop = prop
        self.base = base            # scratch root, made and removed by the master
        self.zy = {}
        self.begin(0)

    def zygote(self, which):
        # which: 'A' or 'B' (different interpreters, different hash seeds) in this run's hash class; 'O' and 'Q' run the released code in peer/, 'P' has no dill imported
        key = (which, self.cls)
        z = self.zy.get(key)
        if z is None:
            z = self.zy[key] = Zygote({'A': 1000, 'B': 2000, 'O': 3000, 'Q': 4000, 'P': 5000}[which] + self.cls, {'O': PEER, 'Q': PEER, 'P': None}.get(which, REPO), getattr(self.prop, 'PRELOAD', ()))
        return z

    def begin(self, cls):
        self.cls = cls
        self.counts, self.events, self.states = {}, [], []
        self.steps = 0
        self.nodes = 0
        self.dir = None

    def scratch(self):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix='n', dir=self.base)
            os.chmod(self.dir, 0o755)
        return self.dir

    def end(self):
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def path(self, name):
        return os.path.join(self.scratch(), name)

    def node(self, which, fn, args=None, timeout=25, seed=0, may_crash=False, raw=False):
        """run one task in a fresh process; the harness's own exceptions raise HarnessError"""
        if ':' not in fn:
            fn = self.prop.__name__ + ':' + fn
        req = {'fn': fn, 'args': args or {}, 'cwd': self.scratch(), 'timeout': timeout, 'seed': seed}
        if os.environ.get('SIM_KEEPOUT'):
            req['keepout'] = 1
        r = self.zygote(which).run(req)
        if r.status == 'timeout':
            # a hang is only a verdict when it happens twice; the scratch state may have moved on, so leave that to the caller's replay
            self.counts['timeouts'] = self.counts.get('timeouts', 0) + 1
        self.nodes += 1
        for k, v in r.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.steps += r.steps + 1
        self.states += r.states
        ev = [which, fn, r.status, r.code, r.events, r.result if not raw else None]
        text = json.dumps(ev)
        if self.dir in text:        # the scratch directory's random name is no part of the run
            ev = json.loads(text.replace(self.dir, '$DIR'))
        self.events.append(ev)
        if r.trace is not None:
            raise HarnessError('task %s: %s' % (fn, r.trace))
        if r.status == 'timeout':
            raise Hang('node task %s did not finish within %ss; last event %r' % (fn, timeout, r.events[-1:]))
        if not may_crash and not r.ok:
            raise Died('node task %s ended with %s %s; last event %r' % (fn, r.status, r.code, r.events[-1:]))
        return r

    def close(self):
        for z in self.zy.values():
            z.close()
        self.zy = {}


class Hang(Exception):
    pass


class Died(Exception):
    """the interpreter itself went down (a crash inside the code under test)"""


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(kind, msg)
        self.kind, self.msg = kind, msg


def jhash(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]
