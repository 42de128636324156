#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vlib/properties.py and vlib/registry.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.registry import CHECKS
from vlib.properties import PROPS, NOT_APPLICABLE

log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("verif hook")]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="python3 verify.py setup",
         hooks=dict(guard="--cfg aquascope_verif=\"<module>\" (rustc cfg, off by default)",
                    enable="checks mirror /repo to .build/src and build the crate with `cargo rustc -- --cfg aquascope_verif=\"<module>\"` and AQUASCOPE_VERIF_DIR=/verif/harness, which includes the harness as a child module",
                    source_commits=hooks[::-1]),
         checks=[dict(property=i, quick_cmd=f"python3 verify.py check {i} --tier quick", thorough_cmd=f"python3 verify.py check {i} --tier thorough",
                      technique="symbolic execution of the crate's LLVM bitcode with Z3 deciding branches and assertions, counterexamples replayed natively", level="model_checking",
                      level_note=("Holds for every input within the bounds: " + "; ".join(r.bounds for r in c.runs if "quick" in r.tiers))[:1500] + ". Trusts the bitcode executor in engine/, rustc/LLVM up to bitcode, and Z3; outside: " + (c.outside or "larger inputs") + ".")
                 for i, c in sorted(CHECKS.items())],
         not_applicable=[dict(property=p["id"], reason=NOT_APPLICABLE[p["id"]]) for p in PROPS if p["id"] not in CHECKS])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
extra = set(CHECKS) - {p["id"] for p in PROPS}
assert not extra, extra
