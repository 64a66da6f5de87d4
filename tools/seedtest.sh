#!/bin/bash
# seedtest.sh ID [PROPS...]: validates a planted bug against /repo and runs the checks of its property (or PROPS) on it
V="$(cd "$(dirname "$0")/.." && pwd)"; S="$V/seeded/$1"; ID=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /repo; git diff --quiet || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then bash "$S/demo.sh" >/dev/null 2>/tmp/demo.err; echo "$ID demo clean rc=$?"; fi
git apply "$S/patch.diff" || exit 2
if [ -z "$NODEMO" ]; then
bash "$S/demo.sh" >/dev/null 2>&1; echo "$ID demo patched rc=$?"
bash /opt/vp/test.sh /tmp/seed-res.json >/tmp/seedtest.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-res.json'))
def names(x):
    return set(x.get('passed') or x.get('stable') or [])
print('missing passes:', sorted(names(b)-names(r))[:5], len(names(b)), len(names(r)))
PY
fi
for p in $P; do (cd "$V" && python3 run.py $p 2>&1 | tail -3 | cut -c1-400; echo "$ID $p rc=${PIPESTATUS[0]}"); done
