#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the compiler's MIR (own VC generator, Z3 and rational-function identities)"
NOTES = {
    "C01": "Proof for every grid size, point and value, N=1..6 flattened, 1..8 recursive, fma on and off, in exact real arithmetic; trusts the MIR exporter, the VC generator, Z3 and the std contracts.",
    "C02": "Proof for every grid size, point and value inside the grid, N=1..4 flattened, 1..8 recursive, fma on and off, in exact real arithmetic; same trusted base as C01.",
    "C03": "Proof for every grid size, point and value outside the grid, both extrapolation settings, N=1..4 flattened, 1..8 recursive, in exact real arithmetic; same trusted base as C01.",
    "C04": "Proof for every grid size, point and value, N=1..6, ties open, in exact real arithmetic; same trusted base as C01.",
    "C08": "Proof that no overflow, bounds, unwrap or panic obligation can fail on anything the constructors accept, with every float comparison and conversion arbitrary (covers NaN, infinities, roundoff); 64-bit targets.",
}
import sys
sys.path.insert(0, os.path.join(V, "tools"))
try:
    from notes import NOTES as MORE, NA
    NOTES.update(MORE)
except ImportError:
    NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in NOTES:
        checks.append({"property": p, "quick_cmd": "python3-vt checks/run.py %s --tier quick" % p,
                       "thorough_cmd": "python3-vt checks/run.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": TECH, "level": "proof", "level_note": NOTES[p]})
m = {"version": 1, "setup_cmd": "python3 checks/build.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in NOTES]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
