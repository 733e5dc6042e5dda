#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from nbv import checks  # noqa: E402

props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "TLA+ specification in spec/, checked with TLC; see DESIGN.md. VERIF_SEED chooses the histories.",
}
for p in props:
    if p not in checks.CHECKS:
        m["not_applicable"].append({"property": p, "reason": "no check yet"})
        continue
    c = checks.CHECKS[p]
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "python3 check.py %s --thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c.technique,
        "level": c.level,
        "level_note": c.note,
    })
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
