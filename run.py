#!/opt/venv/bin/python
"""Decides one property: run.py PROP [--tier quick|thorough] | run.py --replay FILE."""
import argparse
import json
import os
import queue
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))


def env(plain=True):
  e = dict(os.environ)
  e.update(JAX_PLATFORMS="cpu", PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1",
           PYTHONHASHSEED="0", TF_CPP_MIN_LOG_LEVEL="3", VERIF_REPO=REPO,
           XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
           OMP_NUM_THREADS="1")
  e.pop("JAX_ENABLE_X64", None)
  return e


class Worker:
  def __init__(self, prop):
    self.prop = prop
    self.p = None

  def start(self):
    self.err = open(os.devnull if not os.environ.get("VERIF_DEBUG") else "/dev/stderr", "w")
    self.p = subprocess.Popen([PY, os.path.join(ROOT, "vlib", "worker.py"), self.prop],
                              stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                              stderr=self.err, text=True, env=env(), cwd=ROOT)

  def call(self, task, timeout):
    if self.p is None or self.p.poll() is not None:
      self.start()
    box = []
    def go():
      try:
        self.p.stdin.write(json.dumps(task) + "\n")
        self.p.stdin.flush()
        box.append(self.p.stdout.readline())
      except Exception as e:  # pylint: disable=broad-except
        box.append("")
    th = threading.Thread(target=go, daemon=True)
    th.start()
    th.join(timeout)
    if th.is_alive() or not box or not box[0]:
      dead = self.p.poll()
      self.stop()
      return dict(error="timeout" if th.is_alive() else f"worker died rc={dead}")
    return json.loads(box[0])

  def stop(self):
    if self.p is not None:
      try:
        self.p.kill()
        self.p.wait()
      except Exception:  # pylint: disable=broad-except
        pass
      self.p = None


def load_index(prop):
  code = ("import sys,json;sys.path.insert(0,%r);"
          "sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
          "from vlib import reg;hs=reg.load(%r);"
          "print('@@'+json.dumps({n:dict(nq=len(list(h.configs)),nt=len(h.all_configs('thorough')),"
          "bounds=h.bounds,budget=h.budget,validate=h.validate,"
          "cfg=[repr(c) for c in h.all_configs('thorough')]) for n,h in hs.items()}))" % (ROOT, prop))
  r = subprocess.run([PY, "-c", code], env=env(), cwd=ROOT, capture_output=True, text=True)
  for l in r.stdout.splitlines():
    if l.startswith("@@"):
      return json.loads(l[2:])
  sys.stderr.write(r.stderr[-3000:])
  return None


def known_findings():
  p = os.path.join(ROOT, "known_findings.json")
  if not os.path.exists(p):
    return []
  return [k for k in json.load(open(p)) if k.get("status") == "known"]


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop", nargs="?")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--only", default=None)
  ap.add_argument("--configs", default=None, help="comma-separated indices, for development")
  ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
  ap.add_argument("--replay")
  ap.add_argument("-v", action="store_true")
  a = ap.parse_args()
  seed = int(os.environ.get("VERIF_SEED", "1"))
  if a.replay:
    return replay_file(a.replay)
  prop, tier = a.prop, a.tier
  t0 = time.time()
  idx = load_index(prop)
  if idx is None:
    print(f"ERROR: cannot load harnesses of {prop}")
    return 2
  quick = tier == "quick"
  total_budget = 600 if quick else 3000
  tasks = []
  for n, h in idx.items():
    if a.only and a.only not in n:
      continue
    for c in range(h["nq"] if quick else h["nt"]):
      if a.configs and str(c) not in a.configs.split(","):
        continue
      tasks.append(dict(h=n, c=c, budget=h["budget"] * (1 if quick else 4),
                        query_ms=10000 if quick else 60000,
                        max_paths=20000 if quick else 200000,
                        validate=bool(h["validate"] and c == 0)))
  # spread: longest budgets first
  tasks.sort(key=lambda t: -t["budget"])
  q = queue.Queue()
  for t in tasks:
    q.put(t)
  results, lock = [], threading.Lock()

  def loop():
    w = Worker(prop)
    while True:
      try:
        t = q.get_nowait()
      except queue.Empty:
        break
      if time.time() - t0 > total_budget:
        r = dict(error="overall budget exhausted")
      else:
        r = w.call(t, t["budget"] * 5 + 60)
      r.update(h=t["h"], c=t["c"])
      with lock:
        results.append(r)
        if a.v:
          print({k: v for k, v in r.items() if k not in ("functions", "samples")}, flush=True)
    w.stop()

  ths = [threading.Thread(target=loop) for _ in range(min(a.jobs, len(tasks)))]
  for t in ths:
    t.start()
  for t in ths:
    t.join()

  # ---- replay candidates on unmodified code in fresh processes
  known = known_findings()
  viol, knownhits, unrepro = [], [], []
  cands = []
  for r in sorted(results, key=lambda r: (r["h"], r["c"])):
    for cd in r.get("candidates", []):
      cands.append((r["h"], r["c"], cd))
  cands.sort(key=lambda x: x[2]["why"] == "unsupported")
  if cands:
    cq = queue.Queue()
    for i, x in enumerate(cands[:48]):
      cq.put(x)
    lk = threading.Lock()
    def rloop():
      w = Worker(prop)
      while True:
        try:
          n, c, cd = cq.get_nowait()
        except queue.Empty:
          break
        if len(viol) >= 5 or time.time() - t0 > total_budget + (200 if quick else 1200):
          break
        rr = w.call(dict(op="replay", h=n, c=c, cand=cd, seed=seed, trials=8), 120)
        with lk:
          if rr.get("replay"):
            label, trial, inputs = rr["replay"]
            kf = next((k for k in known if k["property"] == prop and k["harness"] == n
                       and (k.get("config") is None or str(k["config"]) == str(idx[n]["cfg"][c]))
                       and k["label"] in label), None)
            if kf:
              knownhits.append(kf)
              continue
            os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
            path = os.path.join(EVID, "replay", f"{prop}-{n}-{c}-{len(viol)}.json")
            json.dump(dict(property=prop, harness=n, config_index=c, config=idx[n]["cfg"][c],
                           label=label, solver_label=cd["label"], why=cd["why"], trial=trial,
                           seed=seed, cand=cd, failing_inputs=inputs), open(path, "w"), indent=1)
            viol.append((path, n, idx[n]["cfg"][c], label))
          else:
            unrepro.append((n, idx[n]["cfg"][c], cd["label"], cd["why"], rr.get("error")))
      w.stop()
    rt = [threading.Thread(target=rloop) for _ in range(min(a.jobs, len(cands)))]
    for t in rt:
      t.start()
    for t in rt:
      t.join()

  # ---- evidence
  S = lambda k: sum(r.get(k, 0) for r in results)
  fns = sorted({f for r in results for f in r.get("functions", [])})
  errors = [f"{r['h']}[{r['c']}]: {r['error']}" for r in results if r.get("error")]
  inconc = sorted({f"{r['h']}[{r['c']}]: {x}" for r in results for x in r.get("inconclusive", [])})
  vac = [f"{r['h']}[{r['c']}]" for r in results if not r.get("error") and not r.get("reachable")
         and not r.get("candidates") and r.get("paths")]
  samples = [dict(harness=r["h"], **s) for r in results for s in r.get("samples", [])[:1]][:8]
  cov = dict(
      states=S("paths"), transitions=S("eqns") + S("forks"),
      traces_validated_against_impl=S("validated"),
      samples=samples or [dict(note="no path completed")],
      explanation="states: symbolic paths explored to their end; transitions: IR equations executed "
                  "symbolically plus solver-decided forks; traces_validated_against_impl: programs whose "
                  "encoding was compared with real JAX on concrete inputs in this run",
      obligations=S("obligations"), discharged=S("discharged"),
      discharged_by_normal_form=S("folded"),
      normal_form_confirmed_by_smt_core=S("smt_confirmed"), element_equations=S("elements"),
      solver_queries=S("queries"), solver_seconds=round(S("solver_s"), 3),
      harness_instances=len(tasks), instances_complete=sum(1 for r in results if r.get("complete")),
      functions_encoded=fns, functions_encoded_count=len(fns),
      bounds={n: h["bounds"] for n, h in idx.items()},
      inconclusive=inconc[:50], errors=errors[:20], vacuous=vac[:20],
      candidates_not_reproduced=[list(map(str, u)) for u in unrepro[:20]],
      known_findings_hit=[k["what"] for k in knownhits],
      exhaustive=False)
  ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
            assumptions=[
                "float arithmetic is modelled over the reals (no rounding, overflow, NaN)",
                "float constants are read as the shortest decimal/small rational they round from",
                "jax.random splitting is injective and acyclic; samplers are uninterpreted with their documented range",
                "transcendental functions are uninterpreted with sign/range axioms",
                "XLA executes the traced IR as JAX documents it",
                "shapes, trip counts and program lengths are bounded as listed under coverage.bounds"],
            wall_s=round(time.time() - t0, 2), violations=len(viol))
  os.makedirs(EVID, exist_ok=True)
  json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)

  print(f"{prop} [{tier}] instances={len(tasks)} paths={cov['states']} obligations={cov['obligations']} "
        f"discharged={cov['discharged']} queries={cov['solver_queries']} solver={cov['solver_seconds']}s "
        f"validated={cov['traces_validated_against_impl']} functions={len(fns)} wall={ev['wall_s']}s")
  for x in inconc[:12]:
    print("INCONCLUSIVE:", x)
  for x in errors[:12]:
    print("ERROR:", x)
  for x in vac[:12]:
    print("VACUOUS:", x)
  for u in unrepro[:12]:
    print("NOT-REPRODUCED:", *[str(z)[:160] for z in u])
  seen = set()
  for k in knownhits:
    if k["what"] not in seen:
      seen.add(k["what"])
      print(f"KNOWN-FINDING: property={prop} {k['what']}")
  for path, n, c, label in viol:
    print(f"  violated: harness={n} config={c}: {label}"[:500])
    print(f"VIOLATION property={prop} replay={path}")
  if viol:
    return 1
  if cov["discharged"] == 0:
    print("ERROR: nothing could be decided")
    return 2
  return 0


def replay_file(path):
  d = json.load(open(path))
  w = Worker(d["property"])
  rr = w.call(dict(op="replay", h=d["harness"], c=d["config_index"], cand=d["cand"],
                   seed=d["seed"], trials=8), 300)
  w.stop()
  if rr.get("replay"):
    print("REPRODUCED:", rr["replay"][0])
    return 1
  print("not reproduced", rr)
  return 0


sys.exit(main())
