"""Developer tool: try_seed.py ID... [--notest] - confirms seeded changes in scratch copies of /repo.

For each: patch applies, build passes, stable tests pass, demo passes without and fails with it,
and what the property's check says (with VERIF_REPO pointing at the scratch copy).
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, **env):
  e = dict(os.environ); e.update(env)
  return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True)


def one(sid, test):
  d = os.path.join(ROOT, "seeded", sid)
  w = f"/tmp/seedwork_{sid}"
  shutil.rmtree(w, ignore_errors=True)
  subprocess.run(["cp", "-a", "/repo", w], check=True)
  out = {"id": sid}
  try:
    demo = f"bash {d}/demo.sh"
    out["demo_clean"] = sh(demo, w).returncode
    r = sh(f"git apply {d}/patch.diff", w)
    if r.returncode:
      out["apply"] = r.stderr
      return out
    b = open("/opt/vp/build.sh").read().replace("/repo", w)
    out["build"] = sh(b, w).returncode
    r = sh(demo, w)
    out["demo_bug"] = r.returncode
    out["demo_out"] = (r.stdout + r.stderr)[-200:]
    if test:
      t = open("/opt/vp/test.sh").read().replace("/repo", w).replace("${1:?usage: test.sh OUT.json}", f"{w}/out.json").replace("-n 8", "-n 4")
      sh(t, w)
      res = json.load(open(f"{w}/out.json"))
      passed = set(res.get("passed", []))
      out["lost"] = sorted(BASE - passed)[:5]
    prop = json.load(open(d + "/meta.json"))["property"]
    r = sh(f"/opt/venv/bin/python run.py {prop} --tier quick", ROOT, VERIF_REPO=w, VERIF_EVIDENCE=f"{w}/ev")
    out["check"] = (prop, r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:1])
  finally:
    shutil.rmtree(w, ignore_errors=True)
  return out


if __name__ == "__main__":
  ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
  with ThreadPoolExecutor(2) as ex:
    for o in ex.map(lambda s: one(s, "--notest" not in sys.argv), ids):
      ok = o.get("demo_clean") == 0 and o.get("demo_bug") and not o.get("lost") and o.get("build") == 0
      print("OK " if ok else "BAD", "CAUGHT" if o.get("check", (0, 0))[1] == 1 else "MISSED", json.dumps(o), flush=True)
