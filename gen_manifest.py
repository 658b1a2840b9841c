#!/usr/bin/env python3
import json, sys
sys.path.insert(0, "/verif/deduct")
from props import PROPS
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
checks = []
na = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="contract-based deductive verification: functions extracted from /repo on every run, contracts and loop invariants discharged by Verus/Z3; bounded comparison with an executable specification as labelled stand-in and witness search" if p["level"] == "proof" else "bounded comparison with an executable specification (stand-in; labelled bounded)",
            level=p["level"], level_note=p["proof"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="No hooks in /repo: only fix: commits. Deciding step: Verus on mechanically extracted functions (deduct/); see DESIGN.md. known-findings.txt lists findings and fixed defects."), open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
