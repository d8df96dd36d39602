"""Writes MANIFEST.json from the check files present."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
NOTE = ("The real functions are run under jax.make_jaxpr (or with solver-backed Python scalars) from /repo's current tree; "
        "the resulting IR is executed over z3 terms, choices/branches/schedules are symbolic and explored exhaustively within the bounds "
        "listed in the evidence file, each obligation is discharged by z3 (polynomial normal form + SMT), and every candidate "
        "counterexample is replayed on the unmodified code before a VIOLATION is printed. Floats are reals; random keys are a free "
        "algebra; transcendental functions are uninterpreted; nothing outside the stated bounds is claimed.")
TECH = "bounded symbolic execution of the real code (jaxpr + Python paths) decided by z3, counterexamples replayed"
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
  i = p["id"]
  if i not in NA and os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
    checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python run.py {i} --tier quick",
                       thorough_cmd=f"/opt/venv/bin/python run.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=TECH, level="model_checking", level_note=NOTE))
  else:
    na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo; fixes are listed in known_findings.json. See DESIGN.md."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
