#!/bin/bash
# (maintainer) validates one planted bug in a scratch copy bind-mounted over /repo: builds, stable tests, demo, check.
# usage: seedtest.sh DIR(with patch.diff demo.sh meta.json) [nocheck]
D=$(realpath "$1"); id=$(basename "$D"); S=/tmp/seedw/$id; mkdir -p /tmp/seedw
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
rm -rf "/tmp/seedw/$id" "/tmp/seedw/$id.verif"; cp -a /repo "$S"
git clone -q /verif /tmp/seedw/$id.verif && cp -a /verif/build /tmp/seedw/$id.verif/build && rm -rf /tmp/seedw/$id.verif/build/run
(cd /repo && timeout 300 bash "$D/demo.sh" > /tmp/seedw/$id.demo0 2>&1); d0=$?
(cd "$S" && git apply "$D/patch.diff") || { echo "$id PATCH DOES NOT APPLY"; rm -rf "/tmp/seedw/$id"; exit 1; }
unshare -m bash -c "mount --bind $S /repo && mount --bind /tmp/seedw/$id.verif /verif && cd /repo && timeout 300 bash $D/demo.sh > /tmp/seedw/$id.demo1 2>&1; echo \$? > /tmp/seedw/$id.d1
 if [ '$2' != nocheck ]; then python3 /verif/check.py $P quick > /tmp/seedw/$id.check 2>&1; echo \$? > /tmp/seedw/$id.c1; fi
 if [ '$2' != notest ]; then bash /opt/vp/test.sh /tmp/seedw/$id.json > /tmp/seedw/$id.test 2>&1; fi"
echo "$id demo0=$d0 demo1=$(cat /tmp/seedw/$id.d1) check=$(cat /tmp/seedw/$id.c1 2>/dev/null) $(grep -h VIOLATION /tmp/seedw/$id.check 2>/dev/null | head -1) tests: $(python3 - <<X
import json
try:
    d=json.load(open('/tmp/seedw/$id.json')); b=json.load(open('/opt/vp/BASELINE.json')); b=b['stable']
    p=set(d['passed']); m=[t for t in b if t not in p]; print(len(p),'passed; missing',len(m),m[:3])
except Exception as e: print('no result',e)
X
)"
rm -rf "/tmp/seedw/$id" "/tmp/seedw/$id.verif"
