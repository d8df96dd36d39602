"""Developer tool: mk_seed.py SPEC.py... - writes seeded/<id>/ from a spec (id, prop, needs, breaks, edits, demo)."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
  ns = {}
  exec(open(spec).read(), ns)
  w = "/tmp/mkseed_work"
  shutil.rmtree(w, ignore_errors=True)
  subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
  for f, old, new in ns["edits"]:
    p = os.path.join(w, f)
    s = open(p).read()
    assert s.count(old) == 1, (spec, f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
  d = os.path.join(ROOT, "seeded", ns["id"])
  os.makedirs(d, exist_ok=True)
  diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
  open(d + "/patch.diff", "w").write(diff)
  open(d + "/demo.py", "w").write("import jax, jax.numpy as jnp, numpy as np\nimport haiku as hk\n" + ns["demo"].lstrip("\n"))
  open(d + "/demo.sh", "w").write('#!/bin/bash\n# Run with cwd at the repository root.\nD="$(cd "$(dirname "$0")" && pwd)"\n'
      'JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
  json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(d + "/meta.json", "w"), indent=1)
  shutil.rmtree(w)
  print("wrote", ns["id"])
