#!/usr/bin/env python3
"""Writes MANIFEST.json from vx/props.py."""
import json, os, sys, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "vx"))
from props import PROPS, NOTES, THEOREMS, NOT_APPLICABLE, LEVEL
TECH = "contract-based deductive verification (Verus/Z3) of functions extracted mechanically from /repo on every run; bounded replay engine turns failed obligations into failing inputs"
TECH_B = "contract-based deductive verification (Verus/Z3) of the extracted worker rounds and parsers, plus bounded replay against the real code over loopback UDP (claimed level is the bounded part)"
checks = []
for p in sorted(PROPS):
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --thorough",
                   "technique": TECH if LEVEL.get(p, "proof") == "proof" else TECH_B, "level": LEVEL.get(p, "proof"), "level_note": NOTES[p]})
    if LEVEL.get(p, "proof") == "proof":
        checks[-1]["theorems"] = THEOREMS[p]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "raknet_verif", "enable": "RUSTFLAGS=--cfg raknet_verif (set in engine/.cargo/config.toml)", "source_commits": ["972f82f"]},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE],
     "notes": "see DESIGN.md; a failing engine case is replayed with: python3 check.py --replay <file>"}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
