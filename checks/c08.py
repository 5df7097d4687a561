"""C08: exactly the accepted post-burn-in samples are collected, in order."""
import vlib
from common import rng
from run_common import scenario, real

MC = """SPECIFICATION MCSpec
CONSTANTS NC = {nc} MaxT = {T}
INVARIANTS ExactlyAccepted AllStored
PROPERTIES AllReturn Monotone
CHECK_DEADLOCK FALSE
"""
COLL = ("none", "memory", "npz", "json", "hdf5", "recorder")


def run(chk):
  q = chk.quick
  chk.model_check("SolverRunMC", MC.format(nc=2, T=3), label="2 chains")
  if not q:
    chk.model_check("SolverRunMC", MC.format(nc=1, T=8), label="1 chain, 8 iterations")
    chk.model_check("SolverRunMC", MC.format(nc=3, T=2), label="3 chains")
  r = rng(chk, "c08")
  scns, par = [], []
  # all patterns of few iterations
  for T in (1, 2, 3) if q else (1, 2, 3, 4):
    for p in range(2 ** T):
      t = [p >> i & 1 for i in range(T)]
      for coll in (("none", "memory", "recorder") if not q else
                   (("none", "memory", "recorder")[p % 3],)):
        s = scenario(r, f"pat-{coll}-{T}-{p}", coll, "map", T=T, nsched=1, chains=1)
        s["runs"][0]["b"], s["runs"][0]["t"] = ([1] * T, t) if p % 2 else (t, [1] * T)
        scns.append(s)
  for rep in range(4 if q else 30):
    for coll in COLL:
      scns.append(scenario(r, f"map-{coll}-{rep}", coll, "map", runs=r.choice((1, 2))))
      scns.append(real(r, f"real-{coll}-{rep}", coll, "map"))
      scns.append(scenario(r, f"vmap-{coll}-{rep}", coll, "vmap", chains=r.choice((1, 2, 3)),
                           style=r.choice((0, 1, 3, 4))))
      par.append(scenario(r, f"pmap-{coll}-{rep}", coll, "pmap", chains=r.choice((2, 3)),
                          style=r.choice((1, 3, 4))))
  # Many chains, many samples
  for i, coll in enumerate(COLL):
    for st in ("map", "vmap") if not q else (("map", "vmap")[i % 2],):
      scns.append(scenario(r, f"many-{st}-{coll}", coll, st, T=3, chains=12, nsched=1, style=3))
    if coll in ("none", "memory", "recorder", "hdf5"):
      scns.append(scenario(r, f"long-{coll}", coll, "map", T=290, chains=1, nsched=1, style=(0, 3)[i % 2]))
  # Long runs of which few samples are kept
  for i, (coll, st) in enumerate((("none", "map"), ("memory", "vmap"), ("recorder", "map"))):
    s = scenario(r, f"verylong-{st}-{coll}", coll, st, T=6000, chains=1 + i % 2, nsched=1, style=0)
    at = {0, 127, 128, 255, 256, 4095, 4096, 5999} | set(r.sample(range(6000), 8))
    s["runs"][0]["b"] = [int(k >= 100 * i) for k in range(6000)]
    s["runs"][0]["t"] = [int(k in at) for k in range(6000)]
    scns.append(s)
  chk.conform("SolverRunTrace", vlib.Driver("d_run", procs=6), scns)
  chk.conform("SolverRunTrace", vlib.Driver("d_run", procs=3, devices=3,
                                            env={"OMP_NUM_THREADS": "2"}), par,
              label="pmap")
