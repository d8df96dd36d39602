"""Records a repaired defect: add_fixed.py PROP COMMIT TEXT."""
import json
import sys
import os
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(F))
p, c, w = sys.argv[1:]
k.append(dict(status="fixed", property=p, commit=c, what=f"fixed: property={p} {c} {w}"))
json.dump(k, open(F, "w"), indent=1)
open(F, "a").write("\n")
