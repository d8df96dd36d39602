"""Writes DESIGN.md: hand-written prose plus tables read from the checks, the seeds and the known findings."""
import ast, glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
TAIL = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
PROSE = json.load(open(os.path.join(ROOT, "tools", "design_props.json")))


def harnesses(prop):
  for n in ast.parse(open(os.path.join(ROOT, "checks", prop.lower() + ".py")).read()).body:
    if isinstance(n, ast.FunctionDef):
      for d in n.decorator_list:
        if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
          b = [k.value for k in d.keywords if k.arg == "bounds"]
          yield n.name, ast.literal_eval(b[0]) if b else ""


out = [HEAD]
for l in open(os.path.join(ROOT, "properties.jsonl")):
  p = json.loads(l)
  i = p["id"]
  out.append(f"### {i} {p['title']}\n")
  out.append(PROSE.get(i, "") + "\n")
  out.append("Harnesses and bounds:\n")
  out += [f"- `{n}`: {b}" for n, b in harnesses(i)]
  out.append("")
out.append("## Defects found\n")
for e in json.load(open(os.path.join(ROOT, "known_findings.json"))):
  out.append(f"- {e['status']} ({e['property']}" + (f", {e['commit']}" if "commit" in e else "") + "): " + e["what"].split(e.get("commit", "\0"), 1)[-1].strip())
out.append("\n## Planted bugs\n")
res = json.load(open(os.path.join(ROOT, "tools", "seed_results.json")))
out.append("| change | property | caught by its check | needs |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
  m = json.load(open(d)); s = os.path.basename(os.path.dirname(d))
  out.append(f"| {s} | {m['property']} | {res.get(s, 'not run')} | {m['needs'].replace('|', '/')} |")
out.append("\n" + TAIL)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
