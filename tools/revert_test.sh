#!/bin/bash
# usage: revert_test.sh COMMIT PROPERTY : reverts one fix in a scratch copy of /repo and runs the check against it
d=$(mktemp -d /tmp/rev.XXXX); cp -a /repo/. $d/; cd $d
git revert -n $1 >/dev/null 2>&1 || { echo "revert conflict"; git status --short | head; }
cd /verif; VT_REPO=$d VT_BUDGET=600 ./run.py $2 quick 2>&1 | grep -E "VIOLATION|quick:|MISMATCH|UNREPRO|KNOWN" | head -3
rm -rf "$d"
