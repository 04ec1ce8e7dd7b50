#!/bin/bash
# seedtest.sh ID...: checks planted changes in a scratch copy mounted over /repo in a private mount namespace.
# prints, per id: clean demo rc, patch applies, build/tests, patched demo rc, check rc.
S=${SCRATCH:-/tmp/seedw}; V=${VERIF:-/verif}
[ -d $S ] || cp -a /repo $S
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  unshare -m bash -c "
    mount --bind $S /repo; cd /repo; git checkout -q -- . 
    rm -rf /tmp/sd_$id; mkdir -p /tmp/sd_$id; cp -a $d/. /tmp/sd_$id; rm -f /tmp/sd_$id/*.diff /tmp/sd_$id/meta.json
    [ -n \"$NOCLEAN\" ] || { timeout 300 bash /tmp/sd_$id/demo.sh > /tmp/sd_$id/clean.log 2>&1; echo \"$id clean demo rc=\$?\"; }
    git apply $d/patch.diff || { echo \"$id patch FAILS\"; exit; }
    if [ -z \"$NOTESTS\" ]; then
      bash /opt/vp/test.sh /tmp/sd_$id/out.json > /tmp/sd_$id/test.log 2>&1
      python3 - <<P
import json
o=json.load(open('/tmp/sd_$id/out.json')); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print('$id stable missing:', sorted(b-set(o['passed']))[:6])
P
    fi
    timeout 300 bash /tmp/sd_$id/demo.sh > /tmp/sd_$id/bug.log 2>&1; echo \"$id patched demo rc=\$?\"
    [ -n \"$NOCHECK\" ] || { cd $V; t0=\$SECONDS; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.py $prop > /tmp/sd_$id/check.log 2>&1; echo \"$id check $prop rc=\$? \$((SECONDS-t0))s: \$(grep -m1 VIOLATION /tmp/sd_$id/check.log)\"; }
    cd /repo; git checkout -q -- .
  "
done
