"""plant.py SPEC.py...: make /verif/seeded/<id>/ from a spec: ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)...], DEMO (python source)
The change is kept only if it builds, the stable tests pass with it, and the demonstration passes without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile

SH = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TMPDIR="$tmp" timeout 200 /opt/venv/bin/python "$here/demo.py" "$tmp"
'''


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    out = '/verif/seeded/%s' % ns['ID']
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    try:
        sh(['cp', '-a', '/repo/.', d], '/')
        for f, old, new in ns['EDITS']:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, '%s: %r occurs %d times' % (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], d).stdout
        work = tempfile.mkdtemp(prefix='demo', dir='/tmp')
        open(work + '/demo.py', 'w').write(ns['DEMO'])
        open(work + '/demo.sh', 'w').write(SH)
        a = sh(['sh', work + '/demo.sh'], '/repo')
        b = sh(['sh', work + '/demo.sh'], d)
        print('%s: demo unchanged %d, changed %d' % (ns['ID'], a.returncode, b.returncode))
        if a.returncode or not b.returncode:
            print(a.stdout.decode()[-800:], '\n---\n', b.stdout.decode()[-800:])
            return False
        print('   ', b.stdout.decode().strip().split('\n')[-1][:200])
        # the stable tests, against the changed copy
        t = open('/opt/vp/test.sh').read().replace('bash /opt/vp/build.sh ||', 'true ||').replace('/repo', d)
        open(work + '/test.sh', 'w').write(t)
        r = sh(['bash', work + '/test.sh', work + '/out.json'], d).stdout.decode()
        last = r.strip().split('\n')[-1]
        print('   ', last)
        if '138 passed' not in last:
            print(r[-1500:])
            return False
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'wb').write(diff)
        shutil.copy(work + '/demo.py', out)
        shutil.copy(work + '/demo.sh', out)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        shutil.rmtree(work)
        return True
    finally:
        shutil.rmtree(d)


for s in sys.argv[1:]:
    plant(s)
