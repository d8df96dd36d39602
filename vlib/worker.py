"""Worker process: reads tasks (json lines) on stdin, writes results on stdout."""
import json
import os
import sys
import time
import warnings

warnings.simplefilter("ignore")


def main():
  out = os.fdopen(os.dup(1), "w")
  os.dup2(2, 1)
  root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  sys.path.insert(0, root)
  sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
  prop = sys.argv[1]
  from vlib import reg, core
  hs = reg.load(prop)
  import haiku
  assert os.path.realpath(haiku.__file__).startswith(os.path.realpath(core.REPO) + os.sep), haiku.__file__
  rec = core.FunctionRecorder()
  rec.start()
  for line in sys.stdin:
    t = json.loads(line)
    h = hs[t["h"]]
    cfg = h.all_configs("thorough")[t["c"]]
    t0 = time.time()
    if t.get("op") == "replay":
      r = core.replay_run(h.fn, cfg, t["cand"], t["seed"], t["trials"])
      res = dict(replay=r)
    else:
      rec.seen.clear()
      sys.monitoring.restart_events()
      st = core.explore(h.fn, cfg, t["budget"], t["query_ms"], t["max_paths"], t["validate"])
      res = dict(st)
      res.update(complete=st.complete, inconclusive=st.inconclusive,
                 candidates=st.candidates, samples=st.samples,
                 functions=sorted(rec.seen))
    res.update(h=t["h"], c=t["c"], wall=time.time() - t0)
    out.write(json.dumps(res) + "\n")
    out.flush()


main()
