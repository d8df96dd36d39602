"""Developer tool: finds small changes that the stable tests do not notice and asks the checks about them.

mutate.py FILE[:PROP,PROP..] ... [--n N] [--seed S] [--workers W] [--out FILE]
Works in scratch copies under /tmp; prints one JSON line per surviving change.
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, threading, queue, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "+", ast.Pow: "*"}


def mutants(src):
  """(line, description, new source)."""
  tree = ast.parse(src)
  lines = src.splitlines(keepends=True)
  offs = [0]
  for l in lines:
    offs.append(offs[-1] + len(l.encode()))
  raw = src.encode()
  pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
  text = lambda n: raw[slice(*pos(n))].decode()
  skip = set()
  for n in ast.walk(tree):
    if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
      skip.update(map(id, ast.walk(n)))
    if isinstance(n, (ast.FunctionDef,)):
      for a in ast.walk(n.args):
        if isinstance(a, ast.arg) and a.annotation:
          skip.update(map(id, ast.walk(a.annotation)))
      if n.returns:
        skip.update(map(id, ast.walk(n.returns)))
    if isinstance(n, ast.AnnAssign):
      skip.update(map(id, ast.walk(n.annotation)))
  out = []
  def add(n, new, what):
    a, b = pos(n)
    s = (raw[:a] + new.encode() + raw[b:]).decode()
    try:
      ast.parse(s)
    except SyntaxError:
      return
    out.append((n.lineno, f"{what}: {text(n)[:120]!r} -> {new[:120]!r}", s))
  inside = lambda n: any(n in getattr(p, "body", []) for p in ast.walk(tree) if isinstance(p, ast.Module))
  for n in ast.walk(tree):
    if id(n) in skip or not hasattr(n, "lineno"):
      continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
      add(n, f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})", "cmp")
    elif isinstance(n, ast.BoolOp):
      add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(f"({text(v)})" for v in n.values) + ")", "bool")
      for v in n.values[:2]:
        rest = [w for w in n.values if w is not v]
        add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({text(w)})" for w in rest) + ")", "drop operand")
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
      add(n, text(n.operand), "unary")
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) | False:
      if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
        continue
      add(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "arith")
    elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
      if n.value is True or n.value is False:
        add(n, str(not n.value), "const")
      else:
        add(n, repr(n.value + 1), "const")
        if n.value >= 1 and type(n.value) is int:
          add(n, repr(n.value - 1), "const")
    elif isinstance(n, (ast.If, ast.IfExp)):
      add(n.test, f"(({text(n.test)}) and False)", "never")
      add(n.test, f"(({text(n.test)}) or True)", "always")
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
      add(n, "pass", "drop statement")
    elif isinstance(n, (ast.AugAssign,)):
      add(n, "pass", "drop statement")
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript,)):
      add(n, "pass", "drop statement")
    elif isinstance(n, (ast.Continue, ast.Break)):
      add(n, "pass", "drop statement")
    elif isinstance(n, ast.Call):
      for k in n.keywords:
        if k.arg:
          t = text(n)
          kt = raw[pos(k)[0]:pos(k)[1]].decode() if hasattr(k, "lineno") else None
          if kt and t.count(kt) == 1:
            add(n, re.sub(r",?\s*" + re.escape(kt), "", t, count=1).replace("(,", "(", 1), "drop keyword")
      if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
        a, b = n.args[:2]
        t = text(n)
        s0 = pos(a)[0] - pos(n)[0]; e0 = pos(a)[1] - pos(n)[0]; s1 = pos(b)[0] - pos(n)[0]; e1 = pos(b)[1] - pos(n)[0]
        if text(a) != text(b):
          add(n, t[:s0] + t[s1:e1] + t[e0:s1] + t[s0:e0] + t[e1:], "swap arguments")
      if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)) and isinstance(n.func, (ast.Name, ast.Attribute)):
        add(n, text(n.args[0]), "unwrap call")
    elif isinstance(n, ast.Try) and n.finalbody and not n.handlers:
      pass
    elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
      if isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
        add(n.value, f"{text(n.value.elts[1])}, {text(n.value.elts[0])}", "swap results")
  return out


def sh(cmd, cwd, timeout=900, **env):
  e = dict(os.environ); e.update(env)
  try:
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    o, _ = p.communicate(timeout=timeout)
    return p.returncode, o
  except subprocess.TimeoutExpired:
    os.killpg(p.pid, 9); p.communicate()
    return 124, "timeout"


def tests(w, files, jobs):
  """Stable tests lost in the given test files (unordered; stops on the first)."""
  shutil.rmtree(w + "/xml", ignore_errors=True)
  env = dict(PIP_NO_INDEX="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=w, JAX_PLATFORMS="cpu")
  f64 = "haiku/_src/integration/float64_test.py"
  if "haiku" in files:
    cmd = f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --tb=no --timeout=300 -o junit_family=xunit2 {f64} --junitxml=xml/f.xml; " \
          f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --tb=no --timeout=300 --continue-on-collection-errors -n {jobs} -o junit_family=xunit2 haiku --ignore={f64} --ignore=haiku/_src/integration/jax2tf_test.py --junitxml=xml/m.xml"
  else:
    cmd = f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --tb=no --timeout=200 --continue-on-collection-errors -o junit_family=xunit2 {' '.join(files)} --junitxml=xml/m.xml"
  rc, o = sh(cmd, w, **env)
  if rc == 124:
    return ["timeout"]
  sh(f"/usr/bin/python3 /opt/vp/results.py {w}/res.json 'junit:{w}/xml/*.xml'", w)
  passed = set(json.load(open(w + "/res.json")).get("passed", []))
  mods = [f[:-3].replace("/", ".") + "." for f in files] if "haiku" not in files else [""]
  want = {t for t in BASE if any(t.startswith(m) for m in mods)}
  return sorted(want - passed)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("files", nargs="+"); ap.add_argument("--n", type=int, default=30); ap.add_argument("--seed", type=int, default=0)
  ap.add_argument("--workers", type=int, default=4); ap.add_argument("--out", default="/tmp/mut.jsonl"); ap.add_argument("--missed", action="store_true"); ap.add_argument("--full", action="store_true")
  a = ap.parse_args()
  todo = []
  rng = random.Random(a.seed)
  for f in a.files:
    f, _, props = f.partition(":")
    path = f"haiku/_src/{f}.py"
    src = open("/repo/" + path).read()
    ms = mutants(src)
    rng.shuffle(ms)
    print(f, len(ms), file=sys.stderr)
    todo += [(path, props.split(","), m) for m in ms[:a.n]]
  q = queue.Queue()
  for t in todo:
    q.put(t)
  lock, clock = threading.Lock(), threading.Semaphore(2)
  def work(k):
    w = f"/tmp/mutwork_{os.getpid()}_{k}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
      while True:
        try:
          path, props, (line, what, src) = q.get_nowait()
        except queue.Empty:
          return
        orig = open(f"{w}/{path}").read()
        open(f"{w}/{path}", "w").write(src)
        try:
          own = path[:-3] + "_test.py"
          files = [own] if os.path.exists(f"{w}/{own}") else []
          lost = tests(w, files, 1) if files else []
          if not lost and a.full:
            lost = tests(w, ["haiku"], 3)
          if lost:
            continue
          res = {}
          with clock:
            for p in props:
              rc, o = sh(f"/opt/venv/bin/python run.py {p} --tier quick", ROOT, VERIF_REPO=w, VERIF_EVIDENCE=f"{w}/ev")
              res[p] = rc
              if rc == 1:
                res["why"] = ([l for l in o.splitlines() if "violated" in l] or [""])[0][:200]
                break
          lost = tests(w, ["haiku"], 3) if a.missed and 1 not in res.values() else []
          with lock, open(a.out, "a") as f:
            f.write(json.dumps(dict(path=path, line=line, what=what, caught=1 in res.values(), res=res, lost=lost[:3])) + "\n")
        finally:
          open(f"{w}/{path}", "w").write(orig)
    finally:
      shutil.rmtree(w, ignore_errors=True)
  ts = [threading.Thread(target=work, args=(k,)) for k in range(a.workers)]
  [t.start() for t in ts]; [t.join() for t in ts]


if __name__ == "__main__":
  main()
