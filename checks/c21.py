"""C21: Progress reports are accurate and do not influence the run."""
import vlib
from common import rng

MC = """SPECIFICATION MSpec
CONSTANTS MaxT = {t} MaxSteps = {s} Variant = "{v}"
INVARIANTS Exact Complete Silent Frequent Honest
CHECK_DEADLOCK FALSE
"""


def run(chk):
  q = chk.quick
  chk.model_check("ProgressMC", MC.format(t=4 if q else 6, s=5 if q else 7, v="none"), label="two reporters")
  chk.refute("ProgressMC", MC.format(t=3, s=3, v="late"), "is violated", label="late")
  r = rng(chk, "c21")
  scns, par = [], []
  for i in range(48 if q else 600):
    T = r.choice((1, 2, 3, 7, 10, 19, 20, 21, 25, 39, 40, 41, 60, 83, 100))
    mode = "scheduler" if i % 4 == 0 else "mcmc"
    ns = 1 if mode == "scheduler" else r.choice((1, 1, 2, 3))
    b = lambda: r.choice((0, 0, 1, T // 2, T - 1, T // 3))
    burn = b()
    sel = r.choice((-1, -1, 0, 1, (T - burn) // 2, T - burn))
    scheds = [{"burn": burn, "on": 1, "steps": 0}]
    for _ in range(ns - 1):
      scheds.append({"burn": b() if sel < 0 else burn, "on": int(r.random() < .7),
                     "steps": r.choice((0, 0, 1, 3))})
    if mode == "scheduler":
      scheds[0].update(on=int(r.random() < .75), steps=r.choice((0, 1, 4, T)))
    st = "map" if mode == "scheduler" else ("map", "vmap", "pmap")[i % 3]
    s = {"mode": mode, "T": T, "scheds": scheds, "sel": sel, "key": r.randrange(100),
         "steps": r.choice((None, None, 1, 2, 5, 7, 30, T, T + 1)), "strategy": st,
         "chains": r.choice((1, 2, 3)), "save": r.randrange(2), "stats": r.randrange(2),
         "jit": r.randrange(2) if T < 30 else 1, "bar": int(r.random() < .85)}
    s["id"] = f"{mode}-{st}-{T}-{i}"
    (par if st == "pmap" else scns).append(s)
  chk.conform("ProgressTrace", vlib.Driver("d_progress", procs=6), scns)
  if par:
    chk.conform("ProgressTrace", vlib.Driver("d_progress", procs=3, devices=3), par, label="pmap")
