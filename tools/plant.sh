#!/bin/bash
# plant.sh ID [notest] [check PROP...]: verifies a planted bug in a scratch copy bound over /repo in a private mount namespace.
exec 9>/tmp/plant.lock; flock 9
ID=$1; shift; S=/verif/seeded/$ID; W=${WT:-/tmp/wt}
if [ ! -d $W ]; then cp -a /repo $W; fi
git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
[ -d $W/_build ] || cp -a /repo/_build $W/_build
git -C $W apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
unshare -m bash -c '
mount --bind '$W' /repo; cd /repo
bash /opt/vp/build.sh > /tmp/plant.build.log 2>&1 || { echo BUILD FAILED; grep -m5 error: /tmp/plant.build.log; exit 1; }
A="'"$*"'"
if [[ " $A " == *" demo "* || "$A" == "" || " $A " == *" test "* ]]; then bash '$S'/demo.sh > /tmp/plant.demo.log 2>&1; echo "demo with patch: rc=$? $(grep -m1 FAIL /tmp/plant.demo.log)"; fi
if [[ " $A " == *" test "* ]]; then bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant.test.log 2>&1; python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t=set(json.load(open("/tmp/plant.json"))["passed"])
print("stable tests failing:",len(b-t),sorted(b-t)[:5])
P
fi
for p in $A; do [[ $p == C* ]] && { SIM_OUT=/tmp/wt_out CCACHE_DIR=/verif/out/ccache VERIF_SEED=1 VERIF_TIER=quick python3 /verif/bin/check.py $p > /tmp/plant.check.$p.log 2>&1; echo "check $p rc=$?"; grep -E "^VIOLATION|^C.. \[|^error" /tmp/plant.check.$p.log | cut -c1-400; }; done
'
