#!/bin/bash
# tools/pull.sh DEV PROP...: takes DEV's new fix: commits into /repo, one property per commit (oldest first; the last one for the rest)
D=$1; shift
for h in $(git -C $D log --reverse --format=%H $(git -C /repo rev-parse HEAD)..HEAD); do
  git -C /repo fetch -q $D $h && git -C /repo merge -q --ff-only $h || exit 1
  /verif/tools/fixrec.sh $1; [ $# -gt 1 ] && shift
done
git -C /repo log --oneline | head -${2:-8} | cat
