#!/bin/bash
# usage: fixrec.sh PROP : records /repo's last fix: commit in known_findings.txt
h=$(git -C /repo log -1 --format=%h); m=$(git -C /repo log -1 --format=%s | sed 's/^fix: //')
echo "fixed: property=$1 $h $m" >> /verif/known_findings.txt
