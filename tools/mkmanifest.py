"""Write MANIFEST.json from the table of claimed properties (run from /verif)."""
import json, os
CLAIMED = json.load(open("tools/claimed.json"))   # property -> [technique, level_note]
PENDING = json.load(open("tools/pending.json"))   # property -> reason
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for p in props:
    if p in CLAIMED:
        t, note = CLAIMED[p]
        cmd = f"/opt/venv/bin/python harness/run.py {p}"
        checks.append({"property": p, "quick_cmd": cmd, "thorough_cmd": "env VERIF_TIER=thorough " + cmd,
                       "evidence_file": f"evidence/{p}.json", "technique": t,
                       "level": "model_checking", "level_note": note})
na = [{"property": p, "reason": PENDING.get(p, "not claimed yet")} for p in props if p not in CLAIMED]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/setup.py",
     "hooks": {"guard": "QLDPC_VERIF (unused: no hooks are needed)", "enable": "nothing to enable: the checks use the public interface only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Specification language: TLA+, checked with TLC (see DESIGN.md). Every check runs TLC on spec/*.tla, replays the behaviours TLC generates into /repo's working tree, and lets TLC judge the recorded executions."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
