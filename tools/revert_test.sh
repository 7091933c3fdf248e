#!/bin/bash
# usage: revert_test.sh <commit> <PID...>: runs checks against a scratch copy of /repo with one fix commit undone
c=$1; shift
W=/tmp/rv_$c
rm -rf "$W"; git -C /repo worktree add -q --detach "$W" HEAD || exit 3
( cd "$W" && git revert -n $c >/dev/null 2>&1 || { echo "CONFLICT $c"; } )
for p in "$@"; do
  METKU_REPO=$W /opt/venv/bin/python /verif/check.py $p 2>&1 | grep -v "^VIOL" | tail -${LINES_OUT:-2} | cut -c1-220
done
git -C /repo worktree remove --force "$W"
