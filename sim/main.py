"""Deterministic simulation of dill: master, workers, minimiser, replay.

  main.py check ID             run the check of one property (VERIF_SEED, VERIF_TIER)
  main.py replay FILE          re-run a replay file: exit 1 and the VIOLATION line if it reproduces
  main.py run ID I [SEED]      run one simulated run, print plan, events and outcome
  main.py selftest ID [N]      determinism: same seeds at other worker counts, compare event logs
"""
import sys, os
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
sys.dont_write_bytecode = True
import importlib, json, random, select, shutil, signal, subprocess, tempfile, time, traceback, fcntl
from sim import ctl as C
from sim.ctl import HERE, jhash

NCLASS = 4          # hash-seed classes: run i uses class i % NCLASS whatever the number of workers
DEFAULT_WORKERS = 8


def load_prop(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def seed_of():
    return int(os.environ.get('VERIF_SEED', '1'))


def tier_of():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def make_plan(prop, seed, tier, i):
    rng = random.Random('%s/%d/%d' % (prop.ID, seed, i))
    return prop.gen(rng, tier, i)


def execute(prop, ctl, plan, cls):
    """one simulated run -> outcome dict"""
    ctl.begin(cls)
    out = {'violation': None, 'harness': None}
    try:
        info = prop.run(plan, ctl) or {}
        out['nontrivial'] = bool(info.get('nontrivial', True))
        out['sig'] = info.get('sig')
    except C.Violation as v:
        out['violation'] = [v.kind, v.msg]
        if getattr(v, 'plan', None) is not None:
            out['plan'] = v.plan        # the same run with the scheduler's choices written out
    except C.Hang as v:
        out['violation'] = ['hang', str(v)]
    except C.Died as v:
        out['violation'] = ['interpreter-died', str(v)]
    except C.HarnessError as e:
        text = str(e)
        # an exception that comes out of dill where the harness expects none is the code's doing
        last = [l for l in text.splitlines() if l.strip().startswith('File "')]
        if last and os.sep + 'dill' + os.sep in last[-1].split('"')[1] and last[-1].split('"')[1].startswith(os.path.realpath(C.REPO)):
            out['violation'] = ['unexpected-exception', text.strip().splitlines()[-1][:300] + ' at ' + last[-1].strip()]
        else:
            out['harness'] = text
    except Exception:
        out['harness'] = traceback.format_exc()
    finally:
        ctl.end()
    out['log'] = jhash(ctl.events)
    out.setdefault('nontrivial', True)
    if not out.get('sig'):
        out['sig'] = out['log']
    out['counts'], out['states'], out['steps'], out['nodes'] = ctl.counts, ctl.states, ctl.steps, ctl.nodes
    return out


# ---------------------------------------------------------------- worker
def worker(pid, base):
    prop = load_prop(pid)
    seed, tier = seed_of(), tier_of()
    ctl = C.Ctl(prop, base)
    for line in sys.stdin:
        i = int(line)
        plan = make_plan(prop, seed, tier, i)
        out = execute(prop, ctl, plan, i % NCLASS)
        out['i'] = i
        out.pop('plan', None)
        sys.stdout.write(json.dumps(out) + '\n')
        sys.stdout.flush()
    ctl.close()


class Pool:
    def __init__(self, pid, base, n):
        self.ws = []
        env = dict(os.environ, PYTHONHASHSEED='0')
        for k in range(n):
            p = subprocess.Popen([C.PY, '-B', os.path.join(HERE, 'sim', 'main.py'), 'worker', pid, base],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, start_new_session=True)
            self.ws.append(p)

    def close(self):
        for p in self.ws:
            try:
                p.stdin.close()
            except OSError:
                pass
        for p in self.ws:
            try:
                p.wait(5)
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            p.stdout.close()


def run_batch(prop, base, indices, nworkers, wall, stop_on=None):
    """dispatch run indices to workers; yields outcomes. wall: seconds, or None"""
    nworkers = max(1, min(nworkers, len(indices)))
    pool = Pool(prop.ID, base, nworkers)
    t0 = time.monotonic()
    queues = [[] for _ in range(nworkers)]
    for i in indices:
        queues[(i % NCLASS if nworkers < NCLASS else i) % nworkers].append(i)
    for q in queues:
        q.reverse()
    outs = []
    bufs = {p.stdout.fileno(): b'' for p in pool.ws}
    busy = {}
    limit = getattr(prop, 'RUN_TIMEOUT', 240)

    def feed(k):
        over = wall is not None and time.monotonic() - t0 > wall
        if queues[k] and not over and not stopping[0]:
            i = queues[k].pop()
            pool.ws[k].stdin.write(b'%d\n' % i)
            pool.ws[k].stdin.flush()
            busy[k] = (i, time.monotonic())
        else:
            busy.pop(k, None)
    stopping = [False]
    try:
        for k in range(nworkers):
            feed(k)
        while busy:
            fds = [pool.ws[k].stdout.fileno() for k in busy]
            rl, _, _ = select.select(fds, [], [], 5)
            for fd in rl:
                k = next(k for k in busy if pool.ws[k].stdout.fileno() == fd)
                d = os.read(fd, 1 << 20)
                if not d:
                    outs.append({'i': busy[k][0], 'harness': 'worker died on run %d' % busy[k][0], 'violation': None})
                    stopping[0] = True
                    busy.pop(k)
                    continue
                bufs[fd] += d
                while b'\n' in bufs[fd]:
                    line, bufs[fd] = bufs[fd].split(b'\n', 1)
                    o = json.loads(line)
                    outs.append(o)
                    if stop_on and stop_on(o):
                        stopping[0] = True
                    feed(k)
            for k in list(busy):
                if time.monotonic() - busy[k][1] > limit:
                    outs.append({'i': busy[k][0], 'harness': 'run %d took over %ss' % (busy[k][0], limit), 'violation': None})
                    stopping[0] = True
                    busy.pop(k)
    finally:
        pool.close()
    return outs, time.monotonic() - t0


# ---------------------------------------------------------------- minimiser
def shrink_candidates(prop, plan):
    keys = getattr(prop, 'SHRINK', ())
    for key in keys:
        lst = plan.get(key)
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                cand = lst[:s] + lst[s + size:]
                if len(cand) < n:
                    yield dict(plan, **{key: cand})
            size //= 2
    if hasattr(prop, 'simplify'):
        yield from prop.simplify(plan)


def minimise(prop, base, plan, cls, kind, budget):
    ctl = C.Ctl(prop, base)
    best, t0, tries = plan, time.monotonic(), 0
    try:
        again = True
        while again and time.monotonic() - t0 < budget:
            again = False
            for cand in shrink_candidates(prop, best):
                if time.monotonic() - t0 > budget:
                    break
                tries += 1
                try:
                    o = execute(prop, ctl, json.loads(json.dumps(cand)), cls)
                except Exception:
                    continue
                if o['violation'] and o['violation'][0] == kind:
                    best = cand
                    again = True
                    break
    finally:
        ctl.close()
    return best, tries


def write_replay(prop, seed, tier, i, plan, cls, out, minimised):
    d = os.path.join(HERE, 'out', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d-%d-%s.json' % (prop.ID, seed, i, jhash(plan)[:6]))
    with open(path, 'w') as f:
        json.dump({'property': prop.ID, 'verif_seed': seed, 'tier': tier, 'run': i, 'hash_class': cls, 'kind': out['violation'][0],
                   'message': out['violation'][1], 'event_log': out['log'], 'minimised': minimised, 'plan': plan}, f, indent=1)
        f.write('\n')
    return path


def replay(path, quiet=False):
    with open(path) as f:
        rep = json.load(f)
    prop = load_prop(rep['property'])
    base = tempfile.mkdtemp(prefix='dsim')
    ctl = C.Ctl(prop, base)
    try:
        out = execute(prop, ctl, rep['plan'], rep['hash_class'])
        same = out['log'] == rep['event_log']
    finally:
        ctl.close()
        shutil.rmtree(base, ignore_errors=True)
    if out['harness']:
        print('harness error during replay:', out['harness'][-2000:])
        return 2
    if out['violation']:
        print('%s: %s' % tuple(out['violation']))
        print('event log identical to the recorded run: %s' % same)
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    print('not reproduced: the property holds on this replay')
    return 0


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    """entries 'finding: property=<id> kind=<kind> match=<text> -- what fails' suppress exactly that violation"""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: ') and ('property=%s ' % pid) in line:
                head, _, what = line.partition(' -- ')
                kind = head.split(' kind=', 1)[1].split(' match=', 1)[0]
                match = head.split(' match=', 1)[1]
                out.append((kind, match, what))
    return out


def is_known(known, violation):
    return next((k for k in known if violation[0] == k[0] and k[1] in violation[1]), None)


# ---------------------------------------------------------------- check
def check(pid):
    prop = load_prop(pid)
    seed, tier = seed_of(), tier_of()
    t0 = time.monotonic()
    nruns = int(os.environ.get('SIM_RUNS', prop.RUNS[tier]))
    wall = float(os.environ.get('SIM_WALL', prop.WALL[tier] if hasattr(prop, 'WALL') else {'quick': 100, 'thorough': 700}[tier]))
    nworkers = int(os.environ.get('SIM_WORKERS', DEFAULT_WORKERS))
    print('check %s tier=%s seed=%d runs=%d workers=%d repo=%s' % (pid, tier, seed, nruns, nworkers, C.REPO), flush=True)
    known = known_findings(pid)
    base = tempfile.mkdtemp(prefix='dsim')
    rc = 0
    try:
        unknown = lambda o: bool(o['harness']) or (o['violation'] is not None and not is_known(known, o['violation']))
        outs, batch_wall = run_batch(prop, base, list(range(nruns)), nworkers, wall, stop_on=unknown)
        outs.sort(key=lambda o: o['i'])
        harness = [o for o in outs if o['harness']]
        bad = [o for o in outs if o['violation'] and not is_known(known, o['violation'])]
        reported = 0
        for o in bad:
            if reported:
                break
            i, kind = o['i'], o['violation'][0]
            plan = make_plan(prop, seed, tier, i)
            left = max(20, min(120, 840 - (time.monotonic() - t0)))
            # reproduce in this process first; a hang must happen again to count
            ctl = C.Ctl(prop, base)
            try:
                again = execute(prop, ctl, plan, i % NCLASS)
            finally:
                ctl.close()
            if not again['violation']:
                print('run %d: %s did not happen again on an identical run: not believed (%s)' % (i, kind, o['violation'][1][:500]))
                harness.append({'i': i, 'harness': 'non-repeatable violation %s' % kind})
                continue
            if again.get('plan'):
                ctl = C.Ctl(prop, base)
                try:
                    o2 = execute(prop, ctl, json.loads(json.dumps(again['plan'])), i % NCLASS)
                finally:
                    ctl.close()
                if o2['violation']:
                    plan, again = again['plan'], o2
                else:
                    print('run %d: not reproduced from its recorded schedule; replaying by seed' % i)
            small, tries = minimise(prop, base, plan, i % NCLASS, again['violation'][0], left if kind != 'hang' else 0)
            ctl = C.Ctl(prop, base)
            try:
                final = execute(prop, ctl, json.loads(json.dumps(small)), i % NCLASS)
            finally:
                ctl.close()
            if not final['violation']:
                small, final = plan, again
            path = write_replay(prop, seed, tier, i, small, i % NCLASS, final, {'tries': tries})
            p = subprocess.run([C.PY, '-B', os.path.join(HERE, 'sim', 'main.py'), 'replay', path], capture_output=True, text=True,
                               timeout=300)
            print('run %d (%s): %s' % (i, final['violation'][0], final['violation'][1][:1500]))
            print('minimised plan (%d attempts): %s' % (tries, json.dumps(small)[:3000]))
            print('replay in a fresh process: exit %d, %s' % (p.returncode, (p.stdout.strip().splitlines() or ['?'])[-1][:200]))
            if p.returncode == 1:
                print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
                reported += 1
                rc = 1
            else:
                harness.append({'i': i, 'harness': 'replay did not reproduce %s' % kind})
        seen = {}
        for o in outs:
            if o['violation']:
                k = is_known(known, o['violation'])
                if k and k not in seen:
                    seen[k] = o
                    print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
        if harness and rc == 0:
            rc = 2
            for o in harness[:3]:
                print('HARNESS ERROR run %s: %s' % (o.get('i'), o['harness'][-3000:]), file=sys.stderr)
        write_evidence(prop, seed, tier, nruns, outs, batch_wall, time.monotonic() - t0, len(bad), nworkers)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print('%s: %d runs in %.1fs, exit %d' % (pid, len(outs), time.monotonic() - t0, rc), flush=True)
    return rc


def write_evidence(prop, seed, tier, nruns, outs, batch_wall, wall, nbad, nworkers):
    good = [o for o in outs if 'counts' in o]
    faults, probes, other = {}, {}, {}
    states = set()
    steps = nodes = 0
    sigs = set()
    for o in good:
        for k, v in o['counts'].items():
            d = faults if k.startswith('fault:') else probes if k.startswith('probe:') else other
            d[k.split(':', 1)[1] if ':' in k else k] = d.get(k.split(':', 1)[1] if ':' in k else k, 0) + v
        for s in o['states']:
            states.add(s if isinstance(s, str) else jhash(s))
        steps += o['steps']
        nodes += o['nodes']
        if o['nontrivial']:
            sigs.add(o['sig'])
    samples = []
    for o in good[:3]:
        plan = make_plan(prop, seed, tier, o['i'])
        samples.append({'run': o['i'], 'plan': json.loads(json.dumps(plan)[:100000]) if len(json.dumps(plan)) < 6000 else json.dumps(plan)[:6000],
                        'event_log_hash': o['log'], 'fired': {k: v for k, v in o['counts'].items()}})
    hrs = max(batch_wall, 1e-6) / 3600
    ev = {
        'property': prop.ID, 'tier': tier, 'seed': seed, 'level': getattr(prop, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': len(good), 'distinct_nontrivial': len(sigs), 'rule': prop.RULE, 'samples': samples,
            'runs_planned': nruns, 'runs_per_hour': round(len(good) / hrs), 'seeds_per_hour': round(len(good) / hrs),
            'simulated_time': {'unit': 'simulator steps (node tasks, seam calls, traced lines); the code under test reads no clock',
                               'steps': steps, 'node_processes': nodes},
            'faults_injected': dict(sorted(faults.items())), 'rare_condition_probes': dict(sorted(probes.items())),
            'other_counts': dict(sorted(other.items())),
            'distinct_states': len(states), 'states_measure': getattr(prop, 'STATES', 'distinct event-log hashes'),
            'workers': nworkers,
            'components': {'real': getattr(prop, 'REAL', 'all of dill from /repo, CPython pickle, the file system'),
                           'stub': getattr(prop, 'STUB', 'none')},
        },
        'assumptions': getattr(prop, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': nbad,
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop.ID + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(d, prop.ID + '.json'))


def run_one(pid, i, seed=None):
    prop = load_prop(pid)
    seed = seed_of() if seed is None else seed
    plan = make_plan(prop, seed, tier_of(), i)
    print('plan:', json.dumps(plan)[:4000])
    base = tempfile.mkdtemp(prefix='dsim')
    ctl = C.Ctl(prop, base)
    try:
        t = time.monotonic()
        out = execute(prop, ctl, plan, i % NCLASS)
        for e in ctl.events:
            print('event:', json.dumps(e)[:int(os.environ.get('SIM_EVLEN', '1500'))])
        print('%.2fs' % (time.monotonic() - t), json.dumps(out)[:4000])
        if out['harness']:
            print(out['harness'])
    finally:
        ctl.close()
        shutil.rmtree(base, ignore_errors=True)
    return 0


def selftest(pid, n):
    """same seeds at several worker counts and under another controller hash seed: the event logs must agree"""
    prop = load_prop(pid)
    bad = 0
    logs = {}
    for nw in (8, 8, 3, 5):
        base = tempfile.mkdtemp(prefix='dsim')
        try:
            outs, w = run_batch(prop, base, list(range(n)), nw, None)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        for o in outs:
            k = (o.get('log'), json.dumps(o.get('counts'), sort_keys=True), str(o['violation']), str(o['harness'])[:200])
            if o['i'] in logs and logs[o['i']] != k:
                bad += 1
                print('run %d differs with %d workers:\n  %s\n  %s' % (o['i'], nw, logs[o['i']], k))
            logs.setdefault(o['i'], k)
    print('selftest %s: %d runs x 4, %d differences' % (pid, n, bad))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a[0] == 'worker':
        return worker(a[1], a[2])
    if a[0] == 'replay':
        return replay(a[1])
    if a[0] == 'run':
        return run_one(a[1], int(a[2]), int(a[3]) if len(a) > 3 else None)
    if a[0] == 'selftest':
        return selftest(a[1], int(a[2]) if len(a) > 2 else 40)
    if a[0] == 'setup':
        # nothing to build: the checks import dill from the working tree.  Make sure the node processes can.
        z = C.Zygote(0, C.REPO)
        z.close()
        print('ok')
        return 0
    if a[0] == 'check':
        return check(a[1])
    return check(a[0])


if __name__ == '__main__':
    sys.exit(main())
