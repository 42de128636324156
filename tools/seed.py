#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py: patch.diff (made against /repo's HEAD), demo.sh with its files, meta.json."""
import json, os, shutil, stat, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS

DEMO = '''#!/bin/bash
# Run in the repository, after its build: adds a test to a scratch copy of %(file)s and runs it. Exit 0: it passes.
exec python3 "$(dirname "$0")/demo.py" %(file)s %(pkg)s demo.rs
'''

for s in SEEDS:
    if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]:
        continue
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        for f in {e[0] for e in s["edits"]}:
            for side in "ab":
                os.makedirs(os.path.join(t, side, os.path.dirname(f)), exist_ok=True)
            src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], stdout=subprocess.PIPE, text=True, check=True).stdout
            new = src
            for g, a, b in s["edits"]:
                if g == f:
                    assert new.count(a) == 1, (s["id"], a, new.count(a))
                    new = new.replace(a, b)
            open(os.path.join(t, "a", f), "w").write(src)
            open(os.path.join(t, "b", f), "w").write(new)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, stdout=subprocess.PIPE, text=True)
        open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
    open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(DEMO % dict(file=s["file"], pkg=s["pkg"]))
    os.chmod(p, 0o755)
    shutil.copy(os.path.join(V, "tools", "copy_ws.py"), os.path.join(d, "demo.py"))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")])
    print(s["id"], "ok" if r.returncode == 0 else "DOES NOT APPLY")
