#!/bin/bash
# seedrun.sh ID...: for each planted bug, in a copy of /repo: its demo without and with the patch, the stable tests and its check.
V=$(cd "$(dirname "$0")/.."; pwd); cd $V
for id in "$@"; do
  s=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  w=/tmp/seedrun.$id; rm -rf "$w"; mkdir "$w"; r=$w/repo
  git clone -q /repo $r
  (cd $r && timeout 300 "$s/demo.sh" >/tmp/demo.$id.clean 2>&1); c=$?
  git -C $r apply "$s/patch.diff" || { echo "$id: does not apply"; continue; }
  (cd $r && timeout 300 "$s/demo.sh" >/tmp/demo.$id.bug 2>&1); d=$?
  t=skipped
  if [ -z "$NOTEST" ]; then t=
    cp -r /opt/vp $w/vp; sed -i "s#/repo#$r#g; s#/opt/vp#$w/vp#g" $w/vp/*.sh $w/vp/pyogp/*.sh $w/vp/pyogp/*.py
    bash $w/vp/build.sh >/tmp/demo.$id.build 2>&1 || t=BUILD-FAILS
    bash $w/vp/test.sh $w/t.json >/dev/null 2>&1
    t=$t$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('$w/t.json'))
want=b['stable']
passed=r['passed']
print(' tests-ok' if set(want)<=set(passed) else ' TESTS-FAIL %s'%sorted(set(want)-set(passed))[:3])")
  fi
  o=$(PYOGP_REPO=$r PBT_OUT=$w/out python3-vt check.py ${PROP:-$prop} 2>&1 | cut -c1-400 | tail -3); n=$(echo "$o" | grep -c "^VIOLATION property=${PROP:-$prop}")
  echo "$id $prop demo clean=$c bug=$d tests=$t caught=$n :: $(echo "$o" | head -1 | cut -c1-250)"
  rm -rf "$w"
done
