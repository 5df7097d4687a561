"""C13: Replica exchange swaps complete chains by the corrected criterion."""
import vlib
from common import rng

MC = """SPECIFICATION MSpec
CONSTANTS L = {l} Bc = {bc} Bh = {bh} MaxLen = {n} Variant = "{v}"
INVARIANTS Stationary NothingLost BothAdvance EstimateOfCold ReportsCold
CHECK_DEADLOCK FALSE
"""


def scenarios(chk, num, mode):
  r = rng(chk, "c13" + mode)
  out = []
  dy = lambda lo, hi, q=8: r.randrange(int(lo * q), int(hi * q) + 1) / q
  for i in range(num):
    real = int(mode == "steps" and i % 3 == 2)
    s = {"id": f"{mode}-{'real' if real else 'scr'}-{i}", "mode": mode, "real": real,
         "tree": r.randrange(4), "sa": ("inv", "half", "inv1", "sq")[r.randrange(4)],
         "F": r.choice((None, 1.0, 2.0, 0.5)), "ssq": r.choice((None, None, 0.5, 2.0)),
         "m0": r.choice((-1, 0, 5)), "obs": r.choice((8, 20)), "n": r.choice((2, 3, 4)),
         "key": r.randrange(1 << 30), "vmap": int(r.random() < .3), "jit": int(r.random() < .7),
         "calls": 12, "start": r.choice((0, 0, 3)), "adapt": r.randrange(2),
         "strategy": r.choice(("map", "map", "vmap")), "save": r.randrange(2)}
    s["xc"] = [dy(-2, 2), dy(-2, 2)]
    s["xh"] = [s["xc"][0] + r.choice((-1, 1)) * dy(.5, 2), dy(-2, 2)]
    L = r.choice((3, 5, 7))
    s["dx"] = [[dy(-1, 1), dy(-1, 1)] for _ in range(L)]
    s["e"] = [dy(-2, 2) for _ in range(r.choice((3, 4)))]
    s["v"] = [dy(0, 1, 16) for _ in range(r.choice((3, 5)))]
    s["vt"] = r.choice((0.0, 0.125))
    s["a"] = [dy(-1, 1, 4) for _ in range(2)]
    s["c"], s["g"] = dy(-2, 2), r.choice((0.0, 0.25, -0.25))
    pool = r.choice(((1.0,), (0.125,), (0.125, 0.25), (0.5, 1.0)))
    s["Tc"] = [r.choice(pool) for _ in range(r.choice((1, 3)))]
    hot = r.choice(((1.0, 2.0, 4.0), (8.0,), (1.0,)))
    s["Th"] = [r.choice(hot) for _ in range(r.choice((1, 2)))]
    s["hc"] = [r.choice((0.125, 0.25, 0.5)) for _ in range(r.choice((1, 2)))]
    s["hh"] = [r.choice((0.125, 0.25, 0.5)) for _ in range(r.choice((1, 3)))]
    if mode == "long":
      # The estimate is an average over many iterations
      s.update(calls=60, Tc=[0.125], Th=[1.0], a=[0.0, 0.0], g=0.0, F=r.choice((None, 2.0)),
               sa=r.choice(("inv", "inv", "inv1", "sq")), vt=0.0, vmap=0, jit=1,
               e=[dy(-50, 50) for _ in range(31)],
               v=[dy(8, 12) if k in range(*r.choice(((0, 30), (20, 60), (30, 60)))) else dy(0, 1)
                  for k in range(60)])
    if mode == "freq":
      # A constant log probability between -2 and 0 (or above)
      Tc, Th = r.choice(((0.5, 1.0), (1.0, 2.0), (1.0, 4.0), (1.0, 0.5), (50.0, 400.0), (20.0, 500.0)))
      d, v, F = 1 / Tc - 1 / Th, r.choice((0.0, 0.5, 1.0) if Tc < 10 else (0.0, 500.0, 900.0)), s["F"] or 1.0
      want = r.choice((-0.25, -0.75, -1.5, 0.5))
      g = (want / d + d * v / F) / (Tc - Th)
      s.update(Tc=[Tc], Th=[Th], a=[0.0, 0.0], e=[0.0], c=0.0, g=g, v=[v], vt=0.0, ssq=v,
               dx=[[0.0, 0.0]], xc=[0.0, 0.0], xh=[100.0, 0.0],
               rootn=100 if chk.quick else 200)
    if real:
      s["hc"] = [r.choice((0.0625, 0.125))]
    out.append(s)
  return out


def run(chk):
  q = chk.quick
  n = 8 if q else 12
  chk.model_check("ReplicaExchangeMC", MC.format(l=3, bc=2, bh=1, n=n, v="none"), label="model")
  chk.model_check("ReplicaExchangeMC", MC.format(l=3, bc=4, bh=1, n=2, v="none"), label="model, large difference")
  for v, inv in (("sign", "Stationary"), ("reject", "Stationary"), ("dup", "NothingLost"),
                 ("idle", "BothAdvance"), ("after", "EstimateOfCold"), ("hot", "EstimateOfCold"),
                 ("report", "ReportsCold")):
    chk.refute("ReplicaExchangeMC", MC.format(l=3, bc=2, bh=1, n=3, v=v),
               f"Invariant {inv} is violated", label=v)
  d = lambda p: vlib.Driver("d_rx", procs=p)
  chk.conform("ReplicaExchangeTrace", d(8), scenarios(chk, 96 if q else 800, "steps"), label="steps")
  chk.conform("ReplicaExchangeTrace", d(8), scenarios(chk, 24 if q else 200, "long"), label="long")
  chk.conform("ReplicaExchangeTrace", d(8), scenarios(chk, 48 if q else 400, "run"), label="runs")
  chk.conform("ReplicaExchangeTrace", d(4), scenarios(chk, 16 if q else 100, "freq"), label="frequencies")
