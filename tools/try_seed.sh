#!/bin/bash
# try_seed.sh ID [PROP...] : applies seeded/ID/patch.diff to /repo, builds, runs stable tests, demo and checks, undoes.
ID=$1; shift
D=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; }
trap undo EXIT
( cd /repo && bash $D/demo.sh >/tmp/seed_demo.out 2>&1 ); echo "demo on clean tree: $?"
git -C /repo apply $D/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seed_build.out 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/seed_test.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed_test.json'))
st=b.get('stable') or b.get('passed') or b
bad=[x for x in st if x not in t['passed']]
print('stable tests broken:', bad)
P
( cd /repo && timeout 300 bash $D/demo.sh >/tmp/seed_demo.out 2>&1 ); echo "demo with patch: $?"; tail -2 /tmp/seed_demo.out
cd /verif
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
for p in "$@"; do VERIF_SEED=${VERIF_SEED:-1} ./check.sh $p > /tmp/seed_check.out 2>&1; echo "check $p: $?"; grep -E 'VIOLATION|HARNESS|held|^---' /tmp/seed_check.out; sed -n '/^---/{n;p}' /tmp/seed_check.out | cut -c1-300; done
