"""S01: sessions survive any number of save / crash / restore generations (differential against an uninterrupted run)."""
import os, sys
from sim import sess
from sim.things import THINGS
from sim.ctl import Violation

ID = 'S01'
RUNS = {'quick': 1200, 'thorough': 9000}
TECHNIQUE = 'seeded simulation of save / process death / restore histories, differential against an uninterrupted run'
NOTE = ('Seeded search over programs, save points and crash placements with real processes killed and restarted. Trusts the structural digest; workload limited to the object kinds in sim/things.py.')
SHRINK = ('ops',)
RULE = ('one run = a random program (things added, mutated, linked, probed) executed once uninterrupted and once with the process '
        'killed after 1..4 session saves and continued in a fresh process of another hash seed; non-trivial when at least one restore '
        'happened with at least one thing alive; distinct by event log')
STATES = 'distinct (mode, refimported, channel, thing alive at a restore) tuples'
REAL = 'dill, pickle, file system, real process death and fresh interpreters'
STUB = 'none'

LEVEL = 'exploration'
EXCLUDE = set()         # things that are not session material


SESS = [t for t in THINGS if THINGS[t].flags.get('main')]


# names the source of the module under test binds itself, and variables that tools and people set in modules
REBOUND = ('math', 'deque', 'base_value', 'base_fn', 'newname', '_private', '_', 'dill', 'os')
DUNDERS = ('__version__', '__author__', '__all__', '__annotations__', '__doc__', '__custom__', '__license', '__test__')
IMPORTS = ('helper', 'Helper', 'LIMIT', 'TABLE', 'TAGS', 'LABEL')     # from the user's module simconf
VALUES = ('builtin', 'class', 'dict', 'function', 'instance', 'int', 'list', 'module', 'none', 'own', 'ownsub', 'str', 'submodule')


def value(kind):
    import json, os.path, collections, math, decimal
    if kind in ('own', 'ownsub'):       # modules that lie next to the program
        sys.path[:0] = [] if os.getcwd() in sys.path else [os.getcwd()]
        import simconf, simpkg.simsub
        return simconf if kind == 'own' else simpkg.simsub
    return {'module': json, 'submodule': os.path, 'class': collections.OrderedDict, 'function': os.path.join, 'builtin': math.sqrt,
            'instance': decimal.Decimal('1.5'), 'list': [1, {'a': (2, 3)}], 'dict': {'k': int}, 'int': 5, 'none': None, 'str': 'text'}[kind]


def usable(mode):
    from sim.props.m01 import only
    return only([t for t in THINGS if t not in EXCLUDE])


def gen(rng, tier, i):
    mode = rng.choice(['main', 'main', 'main', 'import', 'runtime', 'sub'])
    names = usable(mode)
    ops, alive, n, lk = [], [], 0, 0
    total = rng.randint(3, 14)
    saves = 0
    for _ in range(total):
        r = rng.random()
        if r < .5 or not alive:
            t = rng.choice(names if rng.random() < .85 else SESS)
            n += 1
            alive.append((t, n))
            ops.append(['add', t, n])
        elif r < .7:
            t, m = rng.choice(alive)
            ops.append(['step', t, m, rng.randrange(1, 50)])
        elif r < .78 and len(alive) > 1:
            a, b = rng.choice(alive), rng.choice(alive)
            lk += 1
            ops.append(['link', lk, a[0], a[1], b[0], b[1]])
        elif r < .84:
            t, m = rng.choice(alive)
            ops.append(['probe', t, m])
        elif r < .88:
            ops.append(['rebind', rng.choice(REBOUND), rng.choice(VALUES)])
        elif r < .92:
            ops.append(['dunder', rng.choice(DUNDERS), rng.choice(VALUES)])
        elif r < .95:
            o = ['imp', rng.choice(IMPORTS), rng.choice([None, None, 'given'])]
            if not any(p[:2] == o[:2] for p in ops):    # one name each: a copy saved by value is not shared with a later import
                ops.append(o)
        elif r < .965:
            ops.append(['handle', rng.randrange(9)])
        elif saves < 3:
            ops.append(['save', gen_save(rng)])
            saves += 1
    if saves < 1 or ops[-1][0] != 'save':
        if rng.random() < .5:
            t, m = rng.choice(alive)
            ops.append(['step', t, m, rng.randrange(1, 50)])
        ops.append(['save', gen_save(rng)])
    if any(o[0] == 'handle' for o in ops):
        for o in ops:
            if o[0] == 'save':
                o[1]['opts'].pop('fmode', None)
                o[1]['kw'] = {'fmode': 2}
                o[1]['old'] = False
    return {'mode': mode, 'ops': ops, 'alias': mode != 'runtime' and rng.random() < .15, 'gc': rng.choice([None, None, None, 1, 7, 50, 200, 0])}


def gen_save(rng):
    return {'ref': rng.random() < .4, 'chan': rng.choice(['path', 'path', 'fileobj', 'bytesio', 'pathlib']),
            'proto': rng.choice([None, None, None, 4, 5, 3, 2]), 'after': rng.random() < .5, 'name': rng.random() < .4,
            'opts': {k: v for k, v in (('recurse', True), ('byref', True), ('ignore', True), ('fmode', 2)) if rng.random() < .12},
            'old': rng.random() < .12}


def run(plan, ctl):
    sess.write_module(ctl)
    ops, mode = plan['ops'], plan['mode']
    ref = ctl.node('A', 'life', {'ops': ops, 'mode': mode, 'start': 0, 'gen': 0, 'saves': False, 'alias': plan.get('alias')})
    expect = ref.result
    pos = gen = 0
    seen = []
    while True:
        r = ctl.node('AB'[gen % 2], 'life', {'ops': ops, 'mode': mode, 'start': pos, 'gen': gen, 'saves': True, 'gcn': plan.get('gc'), 'alias': plan.get('alias')}, may_crash=True)
        done = False
        for ev in r.events:
            if ev[0] == 'at':
                want = next((e for e in expect if e[1] == ev[1] and e[2] == ev[2]), None)
                seen.append(ev[1:3])
                if want is None:
                    raise Violation('continues', 'unexpected event %r' % (ev[1:3],))
                if want[3] != ev[3]:
                    from sim.digest import diff
                    raise Violation('continues', 'after %d restore(s), %s at op %s %r differs from the uninterrupted run: %s' % (
                        gen, ev[2], ev[1], ops[ev[1]] if ev[1] < len(ops) else 'end', diff(want[3], ev[3])))
            elif ev[0] == 'fail':
                raise Violation('fail-' + ev[1], '%s in generation %d: %s' % (ev[1], gen, ev[2]))
            elif ev[0] == 'died-after-save':
                pos = ev[1]
                gen += 1
                break
            elif ev[0] == 'end':
                done = True
        else:
            if not done:
                raise Violation('died', 'the process died: %s %s after %r' % (r.status, r.code, [e[:3] for e in r.events[-1:]]))
        if done:
            break
    missing = [e[1:3] for e in expect if e[1:3] not in seen]
    if missing:
        raise Violation('continues', 'events missing in the restored run: %r' % missing[:3])
    return {'nontrivial': gen > 0 and any(o[0] == 'add' for o in ops)}


# ---------------------------------------------------------------- node side
def namespace(mode, make):
    if mode in ('import', 'sub'):
        sys.path.insert(0, os.getcwd())
        return sess.module(mode) if make else None
    return sess.module(mode)


def life(env, ops, mode, start, gen, saves, gcn=None, alias=False):
    from sim import world as W
    from sim.digest import Digester
    import dill, io
    from sim.props.m01 import collect
    collect(env, gcn)
    out = []
    alive = []
    byval = MOD = sess.NAME[mode]
    path = 's%d.pkl'

    def emit(i, label, value):
        if saves:
            env.log('at', i, label, value)
        else:
            out.append(['at', i, label, value])

    def dig():
        return Digester(byvalue=(byval,))

    dunders = sorted({o[1] for o in ops if o[0] == 'dunder'})

    def names():
        d = dig()
        return d.namespace(ns, skip=('handle',)) + [[k, d(ns.get(k))] for k in dunders] + handle() + imports()

    def handle():       # an open file, saved with its contents
        h = ns.get('handle')
        if h is None:
            return []
        at = h.tell()
        h.seek(0)
        text = h.read()
        h.seek(at)
        return [['handle', at, text, h.mode, os.path.basename(h.name)]]

    def imports():      # what was imported under its own name is still the very object of its module
        own = {}
        for o in ops[:done[0]]:
            if o[0] == 'imp' and not o[2]:
                own[o[1]] = True
            elif o[0] == 'save' and not o[1]['ref']:
                own = {k: v for k, v in own.items() if k in ('helper', 'Helper')}
        conf = sys.modules.get('simconf')
        return [['imported', k, ns.get(k) is getattr(conf, k, None)] for k in sorted(own)]
    done = [start]

    # what other code may put into the table of modules
    sys.modules['simblocked'] = None

    class Lazy:
        __slots__ = ()

        def __getattr__(self, name):
            raise AttributeError(name)
    sys.modules['simlazy'] = Lazy()
    if start == 0:
        mod = namespace(mode, True)
    else:
        sv = ops[start - 1][1]
        mod = namespace(mode, False)
        try:
            src = path % gen
            if sv['chan'] == 'pathlib':
                import pathlib
                src = pathlib.Path(src)
            elif sv['chan'] == 'fileobj':
                src = open(src, 'rb')
            elif sv['chan'] == 'bytesio':
                src = io.BytesIO(open(src, 'rb').read())
            dill.settings.update(sv.get('opts', {}))        # sessions are saved and loaded alike under all global settings
            load = dill.load_module
            if sv.get('old') and mode != 'runtime':         # by its former name
                def load(f, **kw):
                    kw = {'main' if k == 'module' else k: v for k, v in kw.items()}
                    dill.load_session(f, **kw)
                    return sys.modules[MOD]
            if mode == 'main':
                r = load(src, **({'module': '__main__'} if sv['name'] else {}))
            elif mode in ('import', 'sub'):
                r = load(src, **({'module': MOD} if sv['name'] else {}))
                mod = sys.modules[MOD]
                if r is not mod:
                    env.log('fail', 'return', 'load_module returned %r' % (r,))
                    return
            elif sv['name']:
                r = load(src, module=mod)
            else:
                mod = load(src)
        except Exception as e:
            env.log('fail', 'load', '%s: %s' % (type(e).__name__, str(e)[:300]))
            return
    if alias:           # a module may be known by further names
        sys.modules['simalias'] = mod
    ns = vars(mod)
    for o in ops[:start]:
        if o[0] == 'add':
            alive.append((o[1], o[2]))

    if start:
        emit(start - 1, 'namespace', names())
        env.state([mode, sv['ref'], sv['chan']])
        for t, n in alive:
            env.state([mode, sv['ref'], sv['proto'], t])
        env.count('fault:kill after save and restart')
    i = start
    for i in range(start, len(ops)):
        o = ops[i]
        done[0] = i + 1
        if o[0] == 'add':
            W.install(ns, o[1], o[2])
            alive.append((o[1], o[2]))
        elif o[0] == 'step':
            if (o[1], o[2]) in alive:
                W.do_step(ns, o[1], o[2], o[3])
        elif o[0] in ('rebind', 'dunder'):
            ns[o[1]] = value(o[2])
        elif o[0] == 'imp':
            value('own')
            ns['imp_' + o[1] if o[2] else o[1]] = getattr(sys.modules['simconf'], o[1])
        elif o[0] == 'handle':
            if 'handle' in ns:
                ns['handle'].close()
            ns['handle'] = open('h%d.txt' % i, 'w+')
            ns['handle'].write('text of the handle')
            ns['handle'].seek(o[1])
        elif o[0] == 'link':
            if (o[2], o[3]) in alive and (o[4], o[5]) in alive:
                a, b = W.evaluate(ns, o[2], o[3]), W.evaluate(ns, o[4], o[5])
                ns['link%d' % o[1]] = [a, {'b': b}, a]
        elif o[0] == 'probe':
            if (o[1], o[2]) in alive:
                emit(i, 'probe', W.do_probe(o[1], o[2], W.evaluate(ns, o[1], o[2]), ns, dig()))
        elif o[0] == 'save':
            if not saves:
                emit(i, 'namespace', names())
                continue
            sv = o[1]
            try:
                dill.settings['protocol'] = dill.DEFAULT_PROTOCOL if sv['proto'] is None else sv['proto']
                dst = path % (gen + 1)
                if 'handle' in ns:
                    ns['handle'].flush()
                dill.settings.update(sv.get('opts', {}))
                dump = dill.dump_session if sv.get('old') else dill.dump_module
                kw = {'byref' if sv.get('old') else 'refimported': sv['ref']}
                if not sv.get('old'):
                    kw.update(sv.get('kw', {}))
                if mode != 'main':
                    kw['main' if sv.get('old') else 'module'] = mod if mode == 'runtime' or sv['name'] else MOD
                if sv['chan'] == 'pathlib':
                    import pathlib
                    dump(pathlib.Path(dst), **kw)
                elif sv['chan'] == 'fileobj':
                    with open(dst, 'wb') as f:
                        dump(f, **kw)
                elif sv['chan'] == 'bytesio':
                    b = io.BytesIO()
                    dump(b, **kw)
                    open(dst, 'wb').write(b.getvalue())
                else:
                    dump(dst, **kw)
            except Exception as e:
                env.log('fail', 'dump', '%s: %s' % (type(e).__name__, str(e)[:300]))
                return
            if sv['after']:
                # work after the save is lost with the process
                for t, n in alive:
                    try:
                        W.do_step(ns, t, n, 49)
                    except Exception:
                        pass
                ns['lost'] = 1
                if 'handle' in ns and sv.get('kw'):
                    os.remove(ns['handle'].name)
            env.log('died-after-save', i + 1)
            os.kill(os.getpid(), 9)
    env.tick(len(ops))
    emit(len(ops), 'namespace', names())
    for t, n in alive:
        emit(len(ops), 'probe %s %d' % (t, n), W.do_probe(t, n, W.evaluate(ns, t, n), ns, dig()))
    if saves:
        env.log('end')
    return out
