#!/bin/sh
# revert one fix commit in a scratch copy of /repo and run a check there: tools/revert.sh COMMIT PROPERTY
d=$(mktemp -d /tmp/revert.XXXXXX)
cp -a /repo "$d/repo"
cd "$d/repo" || exit 2
git revert -n "$1" >/dev/null 2>&1 || echo "conflict $1: $(git diff --name-only --diff-filter=U)"
git checkout -q --ours . 2>/dev/null
cd /verif || exit 2
VERIF_REPO="$d/repo" ./check "$2" 2>&1 | tail -3 | cut -c1-300
rm -rf "$d"
