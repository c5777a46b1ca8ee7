#!/usr/bin/env python3
"""Writes DESIGN.md: design_body.md and the table of planted changes (from seeded/*/meta.json)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = open(os.path.join(root, "tools/design_body.md")).read().rstrip()
ms = []
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    ms.append((os.path.basename(os.path.dirname(f)), json.load(open(f))))
missed = [l.split()[0] for l in open(os.path.join(root, "tools/missed.txt")) if l.strip()] if os.path.exists(os.path.join(root, "tools/missed.txt")) else []
out = [body, "", "## 6. Planted changes", "",
       "Each passes all 218 tests.  `caught` means that the quick check of the property named reported it (at VERIF_SEED=1).", "",
       "| id | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
for i, m in ms:
    c = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], c(m["what_it_breaks"]), c(m["needs"]), "**no**" if i in missed else "yes"))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
