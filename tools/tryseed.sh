#!/bin/bash
# tryseed.sh ID...: confirm seeds on /repo (build, tests, demo both ways, checks) and restore it
for id in "$@"; do
d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
bash $d/demo.sh >/tmp/ts.out 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
if bash /opt/vp/build.sh >/tmp/ts.build 2>&1; then
bash $d/demo.sh >/tmp/ts.out2 2>&1; b=$?
bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1
t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/ts.json'))
def passed(x):
    for k in ('stable','passed','pass','tests'):
        if k in x: return set(x[k]) if isinstance(x[k],list) else {q for q,v in x[k].items() if v in('pass','passed',True)}
    return {q for q,v in x.items() if v in ('pass','passed',True)}
m=passed(b)-passed(o); print('tests-ok' if not m else 'TESTS-FAIL %s'%sorted(m)[:3])
P
)
(cd /verif; VERIF_SEED=1 timeout 900 python3 check.py $p > /tmp/ts.chk 2>&1); c=$?
echo "$id: demo clean=$a patched=$b $t check($p)=$c $(grep VIOLATION /tmp/ts.chk)"
else echo "$id: does not build"; fi
git checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
done
