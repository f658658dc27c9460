#!/usr/bin/env python3
"""Writes MANIFEST.json from harnesses.py and properties.jsonl."""
import json, os, subprocess, sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from harnesses import PROPERTIES  # noqa: E402

NOTE = ("Bounded: within the networks, step counts and value ranges listed per harness in the evidence, every assertion on every path is decided by the "
        "SMT solver for all values; nothing is claimed outside them. Floating point is modelled as reals with a proven rounding-error margin on every "
        "comparison (comparisons whose margin could not be bounded are counted as idealised in the evidence), so a pass covers the rounded computation "
        "up to the tolerance stated in DESIGN.md. Trusted: rustc's LLVM IR, the executor (checked against native runs on solver models each time), z3/cvc5.")

hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
commits = [l.split()[0] for l in hooks if "guarded" in l]
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    if p["id"] in PROPERTIES:
        c = {"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p["id"],
             "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
             "technique": "symbolic execution of the compiled crate's LLVM IR with SMT (z3, cvc5)",
             "level": "model_checking", "level_note": PROPERTIES[p["id"]].get("note", NOTE),
             "evidence_file": "evidence/%s.json" % p["id"]}
        checks.append(c)
    else:
        na.append({"property": p["id"], "reason": "not claimed: no harness of this property is decided within the time limits yet"})
json.dump({
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "cargo feature `verif` of the traffic-sim crate", "enable": "the harness crates depend on /repo with features = [\"verif\"]", "source_commits": commits[::-1]},
    "checks": checks, "not_applicable": na,
    "notes": "See DESIGN.md. Each check regenerates the IR from /repo's working tree; known_findings.json lists defects that were found (fixed or open).",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
