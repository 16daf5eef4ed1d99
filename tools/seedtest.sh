#!/bin/bash
# seedtest.sh [-t] [-c] ID...  : in a private mount namespace with a scratch copy of
# /repo bound over /repo, confirm a planted bug: demo 0 without, nonzero with the
# patch, stable tests pass (-t); run the property's check against it (-c).
T=0; C=0
while [[ $1 == -* ]]; do [[ $1 == -t ]] && T=1; [[ $1 == -c ]] && C=1; shift; done
S=/tmp/seedrepo
if [ ! -d $S ]; then cp -a /repo $S; fi
git -C $S fetch -q /repo HEAD && git -C $S checkout -q -f FETCH_HEAD
export S T C
for id in "$@"; do
unshare -m bash -c '
mount --bind $S /repo; cd /repo; git checkout -q -- .
D=/verif/seeded/'$id'; P=$(python3 -c "import json;print(json.load(open(\"$D/meta.json\"))[\"property\"])")
bash /opt/vp/build.sh > /tmp/sb.log 2>&1 || { echo "BUILD0 FAIL"; exit 1; }
rm -rf /tmp/demo_x; cp -a $D /tmp/demo_x; rm -f /tmp/demo_x/*.diff /tmp/demo_x/meta.json
timeout 300 bash /tmp/demo_x/demo.sh > /tmp/d0.log 2>&1; R0=$?
git apply $D/patch.diff || { echo "APPLY FAIL"; exit 1; }
bash /opt/vp/build.sh > /tmp/sb.log 2>&1 || { echo "BUILD FAIL"; tail -5 /tmp/sb.log; git checkout -q -- .; exit 1; }
timeout 300 bash /tmp/demo_x/demo.sh > /tmp/d1.log 2>&1; R1=$?
TR=-
if [ $T = 1 ]; then bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1; TR=$(python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); s=set(json.load(open("/tmp/st.json"))["passed"])
bl=b.get("stable") or b.get("passed") or b
m=[x for x in bl if x not in s]; print("missing",len(m),m[:4])
P
); fi
CR=-
if [ $C = 1 ]; then cd /verif; python3 check.py $P > /tmp/c_'$id'.log 2>&1; CR="rc $? $(grep -c VIOLATION /tmp/c_'$id'.log) $(grep VIOLATION /tmp/c_'$id'.log | head -1)"; cd /repo; fi
git checkout -q -- .
echo "'$id' prop=$P demo0=$R0 demo1=$R1 tests=$TR check=$CR"
'
done
