#!/bin/bash
# tryseed.sh ID [notest]: apply a planted change in /repo, run tests, demo and the property's check, and undo it.
set -u
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo
[ -z "$(git status --short)" ] || { echo "repo dirty"; exit 9; }
. /opt/vp/env.sh
pyx() { grep -q '\.pyx' "$D/patch.diff"; }
if [ "${2:-}" != checkonly ]; then
timeout 300 bash "$D/demo.sh" >/tmp/seed.demo0 2>&1; echo "demo unchanged: $?"
fi
git apply --check "$D/patch.diff" || exit 8
git apply "$D/patch.diff"
trap 'git -C /repo checkout -q -- .; pyx && /verif/tools/build.sh >/dev/null 2>&1' EXIT
if [ "${2:-}" != checkonly ]; then
pyx && /verif/tools/build.sh >/tmp/seed.build 2>&1
timeout 300 bash "$D/demo.sh" >/tmp/seed.demo1 2>&1; echo "demo patched: $?"; tail -2 /tmp/seed.demo1
fi
if [ "${2:-}" != notest ] && [ "${2:-}" != checkonly ]; then bash /opt/vp/test.sh /tmp/seed.json 2>&1 | tail -1
python3 - <<'F'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
bs=set(b['stable'])
ps=set(o.get('passed') or o.get('pass') or [])
print('missing baseline passes:', sorted(bs-ps)[:5], len(bs))
F
fi
cd /verif && python3-vt check.py $P | tail -4
