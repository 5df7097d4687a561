"""C12: Metropolis-Hastings corrections accept and reject atomically."""
import vlib
from common import rng

MC = """SPECIFICATION MSpec
CONSTANTS Q = {q} MaxLen = {n} Weights = {{{w}}} Variant = "{v}"
INVARIANTS Reversible Stationary PotentialOfPosition Fresh
PROPERTY Atomic
CHECK_DEADLOCK FALSE
"""


def scenarios(chk, num, mode):
  r = rng(chk, "c12" + mode)
  out = []
  dy = lambda lo, hi, q=8: r.randrange(int(lo * q), int(hi * q) + 1) / q
  for i in range(num):
    kind = ("amagold", "sggmc")[i % 2]
    real = int(mode == "steps" and i % 4 >= 2)
    s = {"id": f"{mode}-{kind}-{'real' if real else 'scr'}-{i}", "kind": kind, "mode": mode,
         "real": real, "tree": r.randrange(4), "temp": r.choice((1.0, 0.5, 2.0, 0.25, 1.0, 0.0625, 0.015625, 16.0)),
         "h": r.choice((0.5, 0.25, 0.125)), "m0": r.choice((-1, 0, 5, 42)),
         "mass": r.randrange(2), "ini": None, "start": r.choice((0, 0, 2)),
         "jit": r.randrange(2), "vmap": int(r.random() < .3), "calls": 10,
         "steps": r.choice((1, 2, 3)), "fr": r.choice((0.25, 1.0)), "key": r.randrange(1 << 30)}
    if s["mass"] and r.random() < .5:
      s["ini"] = r.choice((0.5, 2.0))
    L = r.choice((3, 5, 7))
    s["dx"] = [[dy(-1, 1), dy(-1, 1)] for _ in range(L)]
    s["dp"] = [[dy(-1, 1), dy(-1, 1)] for _ in range(L)]
    s["e"] = [dy(-2, 2) for _ in range(r.choice((4, 5)))]
    s["pv"] = [dy(-3, 3) for _ in range(3)]
    s["sp"] = [int(v) for v in r.choices((0, 1, 2), (10, 1, 1), k=r.choice((3, 6)))]
    s["k"] = [r.choice((0.0, 0.5, 1.0)) for _ in range(2)]
    s["a"] = [dy(-1, 1, 4) for _ in range(2)]
    s["c"] = dy(-2, 2)
    s["x0"] = [dy(-1, 1), dy(-1, 1)]
    if mode == "freq":
      s.update(dx=[[0.0, 0.0]], dp=[[0.0, 0.0]], k=[0.0, 0.0], a=[0.0, 0.0], sp=[0],
               e=[r.choice((0.125, 0.5, 1.0, 2.0)) * (-1 if kind == "amagold" else 1)],
               mass=0, ini=None, rootn=100 if chk.quick else 200, x0=[0.0, 0.0])
      if r.random() < .2:
        s["e"] = [-s["e"][0]]
    s["jit"] = int(real or r.random() < .7)
    if real:
      s["sp"] = [0]
      s["h"] = r.choice((0.5, 1.0))
    out.append(s)
  return out


def run(chk):
  q = chk.quick
  chk.model_check("MHSolverMC", MC.format(q=3 if q else 4, n=3, w="1, 2, 5" if not q else "1, 3", v="none"),
                  label="stationarity and histories")
  for v, inv in (("noflip", "Stationary"), ("noweight", "Stationary"), ("keepdata", "Fresh"),
                 ("keepkey", "Fresh"), ("newpot", "PotentialOfPosition")):
    chk.refute("MHSolverMC", MC.format(q=3, n=3, w="1, 3", v=v), f"Invariant {inv} is violated", label=v)
  chk.refute("MHSolverMC", MC.format(q=3, n=2, w="1, 3", v="newmst"), "Atomic", label="newmst")
  chk.conform("MHSolverTrace", vlib.Driver("d_mh", procs=8), scenarios(chk, 96 if q else 800, "steps"),
              label="steps")
  chk.conform("MHSolverTrace", vlib.Driver("d_mh", procs=4), scenarios(chk, 16 if q else 100, "freq"),
              label="frequencies")
