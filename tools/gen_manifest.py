"""Write MANIFEST.json: one check per property that has a module in mc/props."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOT = {}
NOTES = {
    "level_note": "Exhaustive within the stated bounds: every sequence of choices (operations, queries, representations, masks) is run on the "
                  "real code in /repo, in lock-step with a reference model written in NumPy; numbers are compared at fixed inputs that make "
                  "coincidental equality implausible. Beyond the bounds nothing is claimed.",
}
SPECIAL = {
    "C14": " Samples: the random state is scripted, so each basis vector of draws is one explored execution and affinity makes these decide all draws.",
    "C16": " Run separately on each backend and data type.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "mc", "props", f"{i.lower()}.py")):
        na.append({"property": i, "reason": NOT.get(i, "The check for this property has not been built yet.")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "stateless model checking: exhaustive bounded enumeration of operation histories on the real code in lock-step with a reference model",
        "level": "model_checking",
        "level_note": NOTES["level_note"] + SPECIAL.get(i, ""),
    })
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, lab, matrix, mlkernels'", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
