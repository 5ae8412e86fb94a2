#!/bin/bash
# seed.sh ID [--notest] [--nocheck]: confirm a planted bug (applies, builds, tests pass, demo flips) and run its check.
id=$1; d=/verif/seeded/$id; cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash $d/demo.sh >/tmp/seed.$id.log 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 /tmp/seed.$id.log; }
git apply $d/patch.diff || exit 1
bash $d/demo.sh >/tmp/seed.$id.log 2>&1 && echo "demo patched: STILL PASSES" || echo "demo patched: fails (good): $(tail -1 /tmp/seed.$id.log | cut -c1-200)"
if [[ " $* " != *" --notest "* ]]; then
  bash /opt/vp/build.sh | tail -1
  bash /opt/vp/test.sh /tmp/seed.$id.json > /tmp/seed.$id.testlog; tail -1 /tmp/seed.$id.testlog
  /opt/venv/bin/python - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(f'/tmp/seed.{sys.argv[1]}.json'))
names=b.get('stable') or b.get('passed') or b.get('tests')
names=[n if isinstance(n,str) else n['name'] for n in names]
ok=set(o.get('passed') or [k for k,v in o.get('tests',{}).items() if v=='passed'])
bad=[n for n in names if n not in ok]
print('stable tests broken:',len(bad),bad[:3])
P
fi
if [[ " $* " != *" --nocheck "* ]]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python harness/run.py $p | grep -E "VIOLATION|clause|traces|error" | cut -c1-160| head -6; )
fi
