#!/bin/bash
# unfix.sh COMMIT CHECK...: takes back one fix commit in /repo's working tree, runs the checks, restores
set -u
c=$1; shift
git -C /repo show $c -- src | git -C /repo apply -R - || { echo "$c: does not reverse"; exit 2; }
for k in "$@"; do
  python3 /verif/check.py $k > /tmp/unfix.$k.log 2>&1; echo "unfix $c $k exit $? $(grep -m1 VIOLATION /tmp/unfix.$k.log | cut -c1-120) :: $(grep -m1 -A3 VIOLATION /tmp/unfix.$k.log | sed -n 2,3p | cut -c1-160 | tr '\n' ' ')"
done
git -C /repo checkout -q -- .
