#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (claimed checks) and NA (not applicable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "C29": "Correct rounding of binary64 decimal conversion needs arithmetic on 1000-bit rationals for each sample; TLC has only 32-bit integers, so a TLA+ specification could state but not usefully decide it here.",
 "C30": "Absence of memory errors in C code is a property of the machine-level execution; an explicit TLA+ state machine does not see it (sanitizers or CBMC would be the right family).",
}
PENDING = "Not claimed: no specification-based check has been built for it (yet)."
T = {}   # property -> (technique, level_note)
exec(open(V + "/tools/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(V + "/checks/" + i.lower() + ".py"):
        t, note = T[i]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+/TLC specifications in spec/, bound to the built system by trace validation and by replaying TLC-enumerated behaviours; no hooks are needed in /repo."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
