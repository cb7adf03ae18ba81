#!/bin/bash
# Development: trybug.sh ID... : confirm a planted bug (build, tests, demo with and without) and run its check. Restores /repo.
for id in "$@"; do
d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 1; }
if [ -z "$NODEMO" ]; then (cd /repo; bash $d/demo.sh >/tmp/plant/$id.clean 2>&1); a=$?; fi
git apply $d/patch.diff || { echo "$id does not apply"; continue; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/plant/$id.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/plant/$id.json >/tmp/plant/$id.test 2>&1; t=$?
n=$(python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant/$id.json'))
def passed(x):
    for k in ('passed','pass','tests','stable'):
        if isinstance(x,dict) and k in x: return set(x[k]) if isinstance(x[k],list) else set(t for t,v in x[k].items() if v in (True,'pass','passed','ok'))
    return set()
print(len(passed(base)-passed(r)))
P
)
(bash $d/demo.sh >/tmp/plant/$id.bug 2>&1); c=$?
fi
timeout 900 python3 /verif/run.py $p ${TIER:-quick} >/tmp/plant/$id.check 2>&1; k=$?
git checkout -q -- .
echo "$id [$p] demo clean=$a bug=$c build=$b test=$t lost=$n check=$k $(grep -c VIOLATION /tmp/plant/$id.check) $(grep -m1 VIOLATION /tmp/plant/$id.check)"
done
