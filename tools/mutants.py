"""mutants.py FILE(s of dill/) N SEED PROPS: small random changes of covered lines of FILE that pass the project's own test scripts, each run
against the quick checks of PROPS (comma separated, in order, until one reports it).  COV: coverage files made with SIM_COV=...
Writes one line per mutant to stdout; survivors are to be looked at by hand."""
import ast, os, random, shutil, subprocess, sys, glob, json, concurrent.futures as cf

REPO = '/repo'
FILE, N, SEED, PROPS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(',')
COV = os.environ.get('COV', '').split()
RUNS = os.environ.get('RUNS', '400')
FLIP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}


def sites(src, covered):
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def add(n, new, what):
        if not covered or any(k in covered for k in range(n.lineno, n.end_lineno + 1)):
            s, e = span(n)
            out.append((n.lineno, what, s, e, new))
    tree = ast.parse(src)
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef,)):
            continue
        for n in ast.walk(f):
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                add(n.test, 'not (%s)' % text(n.test), 'negate')
                if isinstance(n.test, ast.BoolOp):
                    for k in range(len(n.test.values)):
                        rest = [text(v) for j, v in enumerate(n.test.values) if j != k]
                        add(n.test, '(' + (' and ' if isinstance(n.test.op, ast.And) else ' or ').join('(%s)' % r for r in rest) + ')', 'drop operand %d' % k)
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP and type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                add(n, '(%s %s %s)' % (text(n.left), FLIP[type(n.ops[0])], text(n.comparators[0])), 'flip')
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'logger.trace' not in text(n):
                add(n, 'pass', 'delete')
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                add(n, 'pass', 'delete')
            elif isinstance(n, ast.Constant) and n.value in (True, False) and isinstance(n.value, bool):
                add(n, repr(not n.value), 'constant')
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                add(n, repr(n.value + 1), 'constant')
            elif isinstance(n, ast.Return) and n.value is not None:
                pass
            elif isinstance(n, (ast.Break, ast.Continue, ast.Raise)):
                add(n, 'pass', 'delete')
            elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
                k = (n.lineno * 7 + n.col_offset) % len(n.elts)
                add(n, '(' + ', '.join(text(x) for j, x in enumerate(n.elts) if j != k) + ',)', 'drop element %d' % k)
            elif isinstance(n, ast.Call) and n.keywords and all(k.arg for k in n.keywords):
                k = n.keywords[(n.lineno + n.col_offset) % len(n.keywords)]
                args = [text(a) for a in n.args] + ['%s=%s' % (x.arg, text(x.value)) for x in n.keywords if x is not k]
                add(n, '%s(%s)' % (text(n.func), ', '.join(args)), 'drop keyword ' + k.arg)
    return out


def tests(d):
    env = dict(os.environ, PYTHONPATH=d + '/dill/tests:' + d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    for t in sorted(glob.glob(d + '/dill/tests/test_*.py')):
        n = os.path.basename(t)
        if n in BAD:
            continue
        try:
            r = subprocess.run(['/opt/venv/bin/python', t], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=60)
        except subprocess.TimeoutExpired:
            return n
        if r.returncode:
            return n
    return None


base = json.load(open('/opt/vp/BASELINE.json'))
BAD = set()
txt = json.dumps(base)
for t in glob.glob(REPO + '/dill/tests/test_*.py'):
    n = os.path.basename(t)
    if 'script::dill/tests/' + n not in txt:
        BAD.add(n)
covered = set()
for p in COV:
    for l in open(p):
        f, n = l.strip().rsplit(':', 1)
        if f == FILE:
            covered.add(int(n))
src = open('%s/dill/%s' % (REPO, FILE)).read()
S = sites(src, covered)
random.Random(SEED).shuffle(S)


def build(k):
    line, what, s, e, new = S[k]
    b = src.encode()
    m = b[:s] + new.encode() + b[e:]
    try:
        compile(m, FILE, 'exec')
    except SyntaxError:
        return None
    d = '/tmp/w/mut/%s.%d.%d' % (FILE, SEED, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', REPO + '/dill', d])
    open('%s/dill/%s' % (d, FILE), 'wb').write(m)
    bad = tests(d)
    if bad:
        shutil.rmtree(d)
        return None
    return d


done = 0
with cf.ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
    for k, d in zip(range(len(S)), ex.map(build, range(min(len(S), N)))):
        if d is None:
            continue
        line, what, s, e, new = S[k]
        old = src.encode()[s:e].decode().replace('\n', ' ')
        got = 'SURVIVES'
        for p in PROPS:
            env = dict(os.environ, VERIF_REPO=d, SIM_RUNS=RUNS, VERIF_SEED='1', VERIF_TIER='quick')
            r = subprocess.run(['/verif/check', 'check', p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                got = '%s rc=%d' % (p, r.returncode)
                break
        print('%s:%d %s: %s -> %s | %s' % (FILE, line, what, old[:90], new[:90].replace('\n', ' '), got), flush=True)
        shutil.rmtree(d)
