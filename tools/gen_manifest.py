#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks_table import CHECKS
NA = {
    "N01": "Pure function of its input: no schedule, fault, history or concurrency takes part in mapping a data type to a format string and back, so simulation has nothing to vary.",
    "N02": "Pure value semantics of nullable: comparison, assignment and value access of two values depend on nothing but their arguments.",
    "N03": "Pure comparators: ordering laws over values with no state, time, fault or schedule.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
na = [dict(property=k, reason=v) for k, v in NA.items()]
for p in props:
    if p not in CHECKS and p not in NA:
        na.append(dict(property=p, reason="No check yet: its simulated world is still being built."))
m = dict(version=1, setup_cmd="make -s -C sim -j8 OUT=/verif/build REPO=/repo",
         checks=[dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                      evidence_file="evidence/%s.json" % p, technique=c["technique"], level=c["level"], level_note=c["note"])
                 for p, c in CHECKS.items()],
         not_applicable=na,
         notes="All checks are seeded simulations in one process per run; see DESIGN.md. KNOWN_FINDINGS.txt lists recorded and repaired defects.")
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
