"""Writes MANIFEST.json from the property tables."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "drv"))
from units import PROPS, NA, NOTES
checks = []
for p in sorted(PROPS):
    checks.append({"property": p, "quick_cmd": "python3 drv/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 drv/check.py " + p,
                   "technique": "contract-based deductive verification (Verus) of functions extracted from /repo on every run; failing inputs replayed on the compiled code",
                   "level": PROPS[p]["level"], "level_note": NOTES[p]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
