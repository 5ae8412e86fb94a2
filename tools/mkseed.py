"""mkseed.py: make /verif/seeded/<id> from edits.  usage: mkseed.py spec.py  (spec defines SEEDS)"""
import json, os, subprocess, sys, runpy, shutil, tempfile
SEEDS = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
for s in SEEDS:
    if only and s["id"] not in only: continue
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    work = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run(["git", "-C", os.environ.get("WR","/repo"), "worktree", "add", "-q", "--detach", work + "/r"], check=True)
    for f, old, new in s["edits"]:
        p = f"{work}/r/{f}"
        t = open(p).read()
        assert t.count(old) >= 1, (s["id"], f, "not found")
        assert t.count(old) == 1 or s.get("first"), (s["id"], f, t.count(old))
        open(p, "w").write(t.replace(old, new, 1))
    diff = subprocess.run(["git", "-C", work + "/r", "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run(["git", "-C", os.environ.get("WR","/repo"), "worktree", "remove", "--force", work + "/r"], check=True)
    shutil.rmtree(work)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1\nexport PYTHONPATH="$PWD" HOME="$(mktemp -d)"\ntrap \'rm -rf "$HOME"\' EXIT\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"], len(diff))
