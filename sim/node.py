"""A simulated node: one forked process running one task.

`main()` is the zygote: an exec'ed interpreter with a fixed hash seed, dill
(from the tree under test) and numpy imported and a clean __main__.  For every
request it forks a child, which runs one task function (`module:function`) with
JSON arguments and streams its event log and result back.  Only files in the
scratch directory survive a child.
"""
import sys, os


def _preimport():
    import abc, array, collections, dataclasses, datetime, decimal, enum, fractions, functools, io, operator, pathlib, random, re
    import types, typing, uuid, weakref, contextvars, threading, queue, warnings, logging, pickle, pickletools, json, copyreg
    import tempfile, inspect, dis, itertools, string, math, socket, signal, resource, errno, time, gc, traceback, multiprocessing
    import multiprocessing.reduction, contextlib, struct, marshal, importlib, stat, ctypes, linecache, tokenize, subprocess, shutil
    import encodings.latin_1, encodings.ascii, encodings.raw_unicode_escape, encodings.unicode_escape, encodings.idna, encodings.utf_16
    import numpy


def import_dill(repo):
    sys.path.insert(0, repo)
    prefix = sys.pycache_prefix
    sys.pycache_prefix = '/nonexistent'     # never trust byte code cached in the tree: build from source
    sys.dont_write_bytecode = True
    try:
        import dill
        import dill.detect, dill.session, dill.source, dill.temp, dill.pointers, dill.settings, dill.objtypes, dill.logger
    finally:
        sys.pycache_prefix = prefix
    root = os.path.realpath(repo) + os.sep
    for m in list(sys.modules.values()):
        if (getattr(m, '__name__', '') + '.').startswith('dill.'):
            assert os.path.realpath(m.__file__).startswith(root), (m.__file__, repo)
    return dill


class Env:
    """what a task gets: event log, counters"""

    def __init__(self, fd):
        self.fd = fd
        self.counts = {}

    def _send(self, kind, payload):
        import json
        data = (json.dumps([kind, payload]) + '\n').encode()
        while data:
            n = os.write(self.fd, data)
            data = data[n:]

    def log(self, *event):
        self._send('e', list(event))

    def count(self, name, n=1):
        self._send('c', [name, n])

    def tick(self, steps):
        self._send('s', steps)

    def state(self, value):
        self._send('h', value)

    def result(self, value):
        self._send('r', value)


ENV = None      # the running task's Env


def _coverage(path):
    """development aid: which lines of dill ran, appended to a file (one line per line and process)"""
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
    os.dup2(fd, 901)
    os.close(fd)
    m = sys.monitoring
    m.use_tool_id(3, 'simcov')

    def line(code, n):
        f = code.co_filename
        if '/dill/' in f and '/peer/' not in f:
            os.write(901, ('%s:%d\n' % (f.rsplit('/', 1)[1], n)).encode())
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)


def _child(req, wfd):
    global ENV
    import importlib, random, signal, traceback, gc, resource
    os.setpgid(0, 0)
    env = ENV = Env(wfd)
    os.umask(0o022)
    os.chdir(req['cwd'])
    nul = os.open(os.devnull, os.O_RDONLY)
    os.dup2(nul, 0)
    os.close(nul)
    out = os.open(os.path.join(req['cwd'], '.out') if req.get('keepout') else os.devnull, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    os.dup2(out, 1)
    os.dup2(out, 2)
    os.close(out)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    random.seed(req.get('seed', 0))
    code = 0
    try:
        mod, fn = req['fn'].split(':')
        if os.environ.get('SIM_COV'):
            _coverage(os.environ['SIM_COV'])
        f = getattr(importlib.import_module(mod), fn)
        env.result(f(env, **req['args']))
    except SystemExit as e:
        code = 0
    except BaseException:
        env._send('x', traceback.format_exc()[-6000:])
        code = 3
    os._exit(code)


def main():
    import json, signal, select, time
    inp = os.fdopen(os.dup(0), 'rb', buffering=0)
    outfd = os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    cfg = json.loads(sys.argv[1])
    for p in cfg.get('path', []):
        if p not in sys.path:
            sys.path.insert(0, p)
    _preimport()
    if cfg.get('repo'):
        import_dill(cfg['repo'])
    for m in cfg.get('preload', []):
        __import__(m)
    import __main__
    for k in list(vars(__main__)):
        if not (k.startswith('__') and k.endswith('__')):
            del vars(__main__)[k]
    __main__.__doc__ = None
    __main__.__annotations__ = {}
    del __main__.__annotations__
    os.write(outfd, b'ready\n')
    import gc
    gc.collect()
    gc.freeze()
    buf = b''
    while True:
        while b'\n' not in buf:
            d = inp.read(65536)
            if not d:
                os._exit(0)
            buf += d
        line, buf = buf.split(b'\n', 1)
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            # keep the plumbing out of the low descriptor numbers, which tasks count
            os.dup2(w, 900)
            os.close(w)
            inp.close()
            os.close(outfd)
            os.close(devnull)
            _child(req, 900)
        os.close(w)
        deadline = time.monotonic() + req['timeout']
        chunks = []
        status = None
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                status = 'timeout'
                break
            rl, _, _ = select.select([r], [], [], min(left, 0.5))
            if rl:
                d = os.read(r, 1 << 20)
                if not d:
                    break
                chunks.append(d)
            else:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    # the child is gone but something it started holds the pipe: collect what is there
                    while select.select([r], [], [], 0)[0]:
                        d = os.read(r, 1 << 20)
                        if not d:
                            break
                        chunks.append(d)
                    status = st
                    break
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        if status is None or status == 'timeout':
            if status == 'timeout':
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                st = 'timeout'
            else:
                # the pipe is closed: the child exits now (or was killed)
                _, st = os.waitpid(pid, 0)
        else:
            st = status
        os.close(r)
        out = b''.join(chunks)
        if st == 'timeout':
            head = ['timeout', 0]
        elif os.WIFSIGNALED(st):
            head = ['signal', os.WTERMSIG(st)]
        else:
            head = ['exit', os.WEXITSTATUS(st)]
        msg = json.dumps(head).encode() + b'\n' + str(len(out)).encode() + b'\n' + out
        while msg:
            n = os.write(outfd, msg[:1 << 20])
            msg = msg[n:]
