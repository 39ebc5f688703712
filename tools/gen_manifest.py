#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
TECH = "property-based testing: generated inputs and histories against %s, with shrinking and replay files%s"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "check under construction"})
        continue
    fuzz = any(r.get("variant") == "fuzz" for r in c["runs"])
    checks.append({
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": TECH % (c.get("oracle", "an explicit oracle"), "; coverage-guided fuzzing (libFuzzer)" if fuzz else ""),
        "level": "exploration",
        "level_note": c.get("note") or ("Generated-input search, not exhaustive: " + c["rule"] +
                                        (". Assumes: " + "; ".join(c["assumptions"]) if c.get("assumptions") else ".")),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --self-check",
    "hooks": {
        "guard": "DISTRIBUTED_VECTOR_OLE_VERIF_RESEED_INTERVAL",
        "enable": "the C08 check compiles the repository's sources with -DDISTRIBUTED_VECTOR_OLE_VERIF_RESEED_INTERVAL=<AES calls>; every other check builds without it",
        "source_commits": ["c8dc9754964707ce645579457179c7f29795de13"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check compiles /repo's current sources into /verif/build (ignored by git) against stand-ins for the two missing dependencies (shims/). Findings: KNOWN_FINDINGS.txt; design: DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
