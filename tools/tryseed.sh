#!/bin/bash
# tryseed.sh ID [PROP...]: validates a planted bug in /repo (applied and undone), then runs its check
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); shift
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
if [ -z "$FAST" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/demo.out 2>&1); R0=$?
[ $R0 = 0 ] || { echo "DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/demo.out; }
fi
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
if [ -z "$FAST" ]; then
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.out 2>&1; tail -1 /tmp/test.out | grep -q "7 passed" || grep -E "FAIL|passed,|error" /tmp/test.out
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/demo.out 2>&1); R1=$?
echo "demo clean=$R0 patched=$R1: $(tail -1 /tmp/demo.out)"
fi
cd /verif
for p in $P "$@"; do timeout 900 python3 check.py $p | tail -${N:-4}; echo "check $p exit ${PIPESTATUS[0]}"; done
