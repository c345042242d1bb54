#!/bin/bash
# usage: try_patch.sh PATCH CHECK...   applies a patch to /repo, runs checks, restores /repo
p=$1; shift
git -C /repo apply $R "$p" || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
  /verif/bin/check $c ${TIER:-quick} > /tmp/try_$c.log 2>&1; rc=$?
  echo "$c rc=$rc $(grep -m1 -E '^violation' /tmp/try_$c.log | cut -c1-${W:-250})"
done
