"""cov.py COVFILE...: lines of dill's functions (under /repo) that no simulated run reached"""
import sys, collections, types
hit = collections.defaultdict(set)
for p in sys.argv[1:]:
    for l in open(p):
        f, n = l.strip().rsplit(':', 1)
        hit[f].add(int(n))
for f in ('_dill.py', 'session.py', 'settings.py', 'logger.py', 'temp.py', '_shims.py', 'detect.py', 'source.py', 'objtypes.py', 'pointers.py', '__diff.py', '__init__.py', '_objects.py'):
    path = '/repo/dill/' + f
    try:
        src = open(path).read()
    except OSError:
        continue
    lines = src.split('\n')
    want = {}
    def walk(c, name):
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                body = {n for _, _, n in k.co_lines() if n and n != k.co_firstlineno}
                want[(k.co_firstlineno, name + k.co_name)] = body
                walk(k, name + k.co_name + '.')
    walk(compile(src, path, 'exec'), '')
    tot = set().union(*want.values()) if want else set()
    print('== %s: %d of %d lines in functions reached' % (f, len(tot & hit[f]), len(tot)))
    if f in ('source.py', 'objtypes.py', 'pointers.py', '__diff.py', '_objects.py'):
        continue
    for (n, name), body in sorted(want.items()):
        miss = sorted(body - hit[f])
        if miss:
            print('  %s (%d): %s' % (name, n, 'never' if miss == sorted(body) else ' '.join('%d' % m for m in miss)))
