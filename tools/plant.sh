#!/bin/bash
# development aid: confirm a planted bug in a scratch copy of /repo and run its property's check against that copy
# plant.sh [-t] ID...   (-t: also run the stable tests)
T=0; [ "$1" = -t ] && { T=1; shift; }
S=/tmp/sc/plant; mkdir -p /tmp/sc
[ -d $S ] || cp -a /repo $S
for id in "$@"; do
  d=/verif/seeded/$id; pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
  ns() { unshare -Urm bash -c "mount --bind $S /repo && cd /repo && $1"; }
  [ -n "$built" ] || { bash /opt/vp/build.sh > /tmp/sc/b.log 2>&1 || { echo "clean build fails"; exit 1; }; built=1; }
  (cd /repo && bash $d/demo.sh) > /tmp/sc/d0.log 2>&1; c=$?
  git -C $S apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  ns "bash /opt/vp/build.sh" > /tmp/sc/b.log 2>&1 || { echo "$id: patched build fails"; tail -5 /tmp/sc/b.log; continue; }
  ns "bash $d/demo.sh" > /tmp/sc/d1.log 2>&1; b=$?
  echo "$id ($pid): demo clean=$c ($(tail -1 /tmp/sc/d0.log)) patched=$b ($(tail -1 /tmp/sc/d1.log))"
  VF_NOEVIDENCE=1 VF_REPO=$S timeout 900 python3 /verif/tools/run.py $pid > /tmp/sc/c.log 2>&1; echo "   check exit $? : $(grep -c VIOLATION /tmp/sc/c.log) violation(s); $(tail -1 /tmp/sc/c.log)"
  if [ $T = 1 ]; then ns "bash /opt/vp/test.sh /tmp/sc/t.json" > /tmp/sc/t.log 2>&1
    python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/sc/t.json'))['passed'])
print('   tests:', 'all pass' if b<=p else sorted(b-p)[:5], len(b-p))"; fi
  git -C $S checkout -q -- .
done
