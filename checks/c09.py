"""C09: when a run returns, all of its samples have been stored completely."""
import vlib
from common import rng
from run_common import scenario

MC = """SPECIFICATION HSpec
CONSTANTS NC = {nc} MaxT = {T} WaitFor = "{w}"
INVARIANTS CompleteAtReturn FileComplete
PROPERTIES {props}
CHECK_DEADLOCK FALSE
"""
COLL = ("memory", "npz", "json", "hdf5", "recorder")


def run(chk):
  q = chk.quick
  chk.model_check("Handshake", MC.format(nc=2, T=2, w="event", props="Returns Refines"),
                  label="2 chains, liveness, refinement of SolverRun")
  if not q:
    chk.model_check("Handshake", MC.format(nc=3, T=3, w="event", props="Returns Refines"),
                    label="3 chains")
    chk.model_check("Handshake", MC.format(nc=1, T=7, w="event", props="Returns Refines"),
                    label="1 chain, 7 iterations")
  for w, what in (("nothing", "main thread does not wait"),
                  ("any", "main thread waits for another chain"),
                  ("early", "signal before the file is written")):
    chk.refute("Handshake", MC.format(nc=2, T=2, w=w, props="Returns"),
               "is violated", label=what)
  chk.refute("Handshake", MC.format(nc=1, T=2, w="nodep", props="Returns"),
             "is violated", label="finalization overtakes the samples")
  r = rng(chk, "c09")
  scns, par = [], []

  def slow():
    s = {}
    for k, v in (("save", (0, 3, 15, 40)), ("file", (0, 40, 120)),
                 ("finalize", (0, 20, 60)), ("step", (0, 0, 0, 5))):
      d = r.choice(v)
      if d:
        s[k] = d
    return s or {"save": 10, "file": 60}

  for coll in COLL:
    # slow storage of each kind alone, and no accepted sample
    for i, sl in enumerate(({"save": 30}, {"file": 150}, {"finalize": 80},
                            {"save": 10, "file": 60, "finalize": 30})):
      scns.append(scenario(r, f"slow-{coll}-{i}", coll, "map", T=5, chains=2, nsched=1,
                           style=(0, 4, 1, 3)[i], slow=sl, report=i % 2))
      scns.append(scenario(r, f"async-{coll}-{i}", coll, "map", T=5, chains=2, nsched=1,
                           style=(0, 4, 1, 0)[i], slow=sl, report=i % 2))
      scns[-1]["async"] = 1
    # much slower than any patience of the main thread
    for mode in ("sync", "async"):
      s = scenario(r, f"{mode}-long-{coll}", coll, "map", T=2, chains=2, nsched=1, style=0,
                   slow={"save": 4500 if q else 40000}, report=1)
      s["async"] = int(mode == "async")
      scns.insert(0, s)
    scns.append(scenario(r, f"zero-{coll}", coll, "map", chains=2, style=2,
                         slow=slow(), report=1))
    for i in range(2 if q else 25):
      scns.append(scenario(r, f"rnd-{coll}-{i}", coll, "map", runs=r.choice((1, 2, 3)),
                           slow=slow()))
      scns.append(scenario(r, f"thr-{coll}-{i}", coll, "map", runs=r.choice((2, 3)),
                           slow=slow(), threads=1, chains=r.choice((1, 2)), nsched=1))
      scns.append(scenario(r, f"vmap-{coll}-{i}", coll, "vmap", runs=1, slow=slow(),
                           chains=2, nsched=1))
      par.append(scenario(r, f"pmap-{coll}-{i}", coll, "pmap", chains=r.choice((2, 3)),
                          slow=slow(), nsched=1))
  for s in scns:
    if s["id"][:3] in ("rnd", "vma") and r.random() < .5:
      s["async"] = 1
  chk.conform("SolverRunTrace", vlib.Driver("d_run", procs=6, timeout=60 if q else 400), scns)
  chk.conform("SolverRunTrace", vlib.Driver("d_run", procs=3, devices=3, timeout=60), par,
              label="pmap")
