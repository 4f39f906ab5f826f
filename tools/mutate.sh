#!/bin/bash
# mutate.sh FILE 'python expression over s' PROP...  -- copy /repo, rewrite FILE with the expression, run the checks of PROP against the copy
f=$1; e=$2; shift 2
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo/. $d/
python3 - "$d/$f" "$e" <<'P' || { rm -rf "$d"; exit 9; }
import sys
p, e = sys.argv[1:]
s = open(p).read()
t = eval(e)
assert t != s, 'no change'
open(p, 'w').write(t)
P
for p in "$@"; do VERIF_REPO=$d timeout 900 /verif/check check $p 2>&1 | grep -v '^check\|^minimised\|^replay' | cut -c1-330; done
rm -rf "$d"
