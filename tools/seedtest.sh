#!/bin/bash
# usage: seedtest.sh ID [CHECK...]   confirms a planted bug in a scratch copy of /repo that is
# mounted over /repo in a private mount namespace: demo passes, patch applies, tests pass, demo fails;
# then runs the given checks (default: the property in meta.json).
id=$1; shift
S=${SD:-/verif/seeded}/$id
[ -n "$INNER" ] || { exec unshare -m env INNER=1 "$0" "$id" "$@"; }
W=$(mktemp -d /tmp/seed_XXXXXX)
trap '[ -n "$VSNAP" ] && umount -l /verif; umount -l /repo; rm -rf "$W"' EXIT
mount --make-rprivate / 2>/dev/null
cp -a /repo "$W/repo"; mkdir "$W/demo"; cp -a $S/. "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
mount --bind "$W/repo" /repo
[ -n "$VSNAP" ] && mount --bind "$VSNAP" /verif   # run the checks of a snapshot, so that /verif can be edited
cd /repo || exit 9
if [ -n "$TESTS" ]; then   # only the existing tests, no demonstration
  git apply $S/patch.diff || { echo "$id patch does not apply"; exit 1; }
  bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1
  python3 - $W/t.json <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
f=lambda d: set(d.get('stable') or d.get('passed') or [])
bad=f(b)-set(t.get('passed',[]))
if bad: print('TESTS FAIL', len(bad), sorted(bad)[:2]); sys.exit(1)
P
elif [ -z "$SKIP" ]; then
  bash /opt/vp/build.sh > $W/b1 2>&1 || { echo "$id build failed before"; exit 9; }
  timeout 300 bash "$W/demo/demo.sh" > $W/d1 2>&1; r=$?; [ $r = 0 ] || { echo "$id DEMO FAILS ON CLEAN TREE ($r)"; tail -5 $W/d1; exit 1; }
  git apply $S/patch.diff || { echo "$id patch does not apply"; exit 1; }
  bash /opt/vp/build.sh > $W/b2 2>&1 || { echo "$id BUILD FAILS"; tail -3 $W/b2; exit 1; }
  timeout 300 bash "$W/demo/demo.sh" > $W/d2 2>&1; r=$?; [ $r != 0 ] || { echo "$id DEMO PASSES WITH PATCH"; exit 1; }
  bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1
  python3 - $W/t.json <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
f=lambda d: set(d.get('stable') or d.get('passed') or [])
bad=f(b)-set(t.get('passed',[]))
if bad: print('TESTS FAIL', len(bad), sorted(bad)[:3]); sys.exit(1)
P
  echo "$id valid; demo: $(tail -1 $W/d2 | cut -c1-150)"
else
  git apply $S/patch.diff || exit 1
fi
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ "$1" = none ] && exit 0
cd /verif
for c in "$@"; do
  timeout 900 bin/check $c ${TIER:-quick} > $W/c.log 2>&1; rc=$?
  echo "$id $c rc=$rc $(grep -m1 -E '^violation|MACHINERY' $W/c.log | cut -c1-200)"
done
