#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.dont_write_bytecode = True
import special
TECH = {
    "C06": "generated call histories executed by the Miri interpreter (seeded, sharded)",
    "C32": "property-based testing with adversarial generator streams against range predicates",
    "C33": "property-based statistical tests of generated samples, fixed seeds, tiny false-alarm level",
    "C34": "property-based testing with rendered-token oracle and fault injection at every sink write",
    "C36": "property-based differential testing between six builds",
}
MODEL = {"C04": "stateful property-based testing against a drop ledger", "C05": "stateful property-based testing with injected panics against a drop ledger",
         "C01": "model-based property testing against an array model", "C02": "model-based property testing against an array model", "C03": "model-based property testing against a list model",
         "C27": "stateful property-based testing: operation histories against folded reference maps"}
NOTE = ("Random generated-input search with an explicit oracle and shrinking; finds violations with high probability, proves nothing. "
        "Trusts rustc, the scalar operators of the same build, and the reference models in harness/src.")
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(R, "harness/src/bin", i.lower() + ".rs")) or i in special.CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i) or MODEL.get(i) or "property-based testing (choice-sequence generators, shrinking) against a reference model",
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is reached through the public API."}
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
