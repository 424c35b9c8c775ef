#!/bin/bash
# seedcheck.sh [-t] [-c] ID...: confirm planted changes in scratch copies.
# Demo on clean and changed tree; -t also runs the stable tests on the changed
# tree; -c also runs the property's quick check against the changed tree.
tests=; checks=
while [[ $1 == -* ]]; do case $1 in -t) tests=1;; -c) checks=1;; esac; shift; done
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  s=$here/seeded/$id
  prop=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" $s/meta.json)
  w=$(mktemp -d /tmp/seed_XXXXXX)
  cp -a /repo $w/repo; cp -r $s $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json
  (cd $w/repo && sed -i "s#cd /repo#cd $w/repo#" $w/demo/demo.sh && timeout 300 bash $w/demo/demo.sh >$w/d0 2>&1); a=$?
  git -C $w/repo apply $s/patch.diff || { echo "$id: patch does not apply"; rm -rf "$w"; continue; }
  (cd $w/repo && timeout 300 bash $w/demo/demo.sh >$w/d1 2>&1); b=$?
  msg="$id ($prop): demo clean=$a changed=$b"
  [ $a = 0 ] || tail -5 $w/d0; 
  if [ -n "$tests" ]; then
    sed "s#cd /repo #cd $w/repo #" /opt/vp/test.sh > $w/test.sh
    bash $w/test.sh $w/out.json > $w/test.log 2>&1
    msg="$msg tests: $(python3 - $w/out.json <<'P'
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open(sys.argv[1]))
def passed(x):
    for k in ("stable","passed"):
        if k in x and isinstance(x[k], list): return set(x[k])
    return set(k for k,v in x.items() if v in ("passed","PASS",True))
m=passed(b)-passed(r)
print("ok" if not m else "FAILED %s" % sorted(m))
P
)"
  fi
  if [ -n "$checks" ]; then
    VERIF_SEED=1 VTELEM_REPO=$w/repo DST_EVIDENCE=$w/ev timeout 900 python3 $here/dst/runner.py check $prop --tier quick >$w/c 2>&1; c=$?
    msg="$msg check: exit $c $(grep -m1 VIOLATION $w/c) $(grep -m1 -A1 'sig\|violation:' $w/c | cut -c1-300)"
  fi
  echo "$msg"
  rm -rf "$w"
done
