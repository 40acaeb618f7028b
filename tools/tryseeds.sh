#!/bin/bash
# tools/tryseeds.sh [tests] [id...]: run each seeded change against the checks
# of a scratch copy of the repository (MC_REPO), optionally the test suite too.
cd "$(dirname "$0")/.."
T=0; [ "$1" = tests ] && { T=1; shift; }
for d in ${*:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
    bin/check $p quick > /tmp/try.out 2>&1; r=$?
    echo "$d $p exit=$r $(grep -c VIOLATION /tmp/try.out) $(tail -1 /tmp/try.out)"
    if [ $T = 1 ]; then
        bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
        python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('/tmp/t.json'))['passed'])
print('   tests missing:', sorted(b-t))"
    fi
    git -C /repo checkout -- .
done
