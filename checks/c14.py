"""C14: integrators implement their update rule with fresh data and noise."""
import vlib
from common import rng


def scenarios(chk, num, stats):
  r = rng(chk, "c14" + str(stats))
  out = []
  kinds = ("obabo", "amagold", "sghmc", "langevin")
  for i in range(num):
    kind = kinds[i % 4]
    wide = bool(stats) and i % 40 in (4, 13, 22, 31)       # many parameters, small step size, hot
    d = r.choice((2, 3)) if not stats else 2
    tree = r.randrange(5) if d == 3 else r.randrange(4)
    dy = lambda lo, hi, q: r.randrange(int(lo * q), int(hi * q) + 1) / q
    noisy = bool(stats) or i % 3 == 2
    steps = (r.choice((1, 2, 3)) if stats else 1 if noisy and kind != "sghmc"
             else r.choice((1, 2, 3, 5)))
    if kind == "langevin":
      steps = 1
    masskind = "none" if kind == "langevin" else r.choice(("none", "const", "diag", "dense"))
    mass = [r.choice((0.5, 1.0, 2.0, 4.0)) for _ in range(d)]
    dense = [[2.0 if a == b else 0.0 for b in range(d)] for a in range(d)]
    dense[0][1] = dense[1][0] = r.choice((0.5, -1.0))
    dense[1][1] = r.choice((1.0, 3.0))
    f = r.choice((0.25, 0.5, 1.0, 2.0)) if (noisy or kind == "obabo") else 0.0
    fr = [f] * d
    if kind == "sghmc" and noisy and r.random() < .5:
      fr = [r.choice((0.25, 1.0, 2.0)) for _ in range(d)]
    temp = r.choice((0.25, 0.5, 2.0)) if noisy else 0.0
    if kind in ("amagold", "sghmc"):
      # The temperature does not enter
      temp = r.choice((1.0, 1.0, 0.25, 0.0))
    s = {"kind": kind, "tree": tree, "steps": steps, "noisy": int(noisy),
         "h": r.choice((0.5, 0.25, 0.125, 0.0625)), "temp": temp,
         "fr": fr, "frtree": int(kind == "sghmc" and r.random() < .3),
         "masskind": masskind, "mass": mass, "dense": dense,
         "a": [[dy(-3, 3, 4) for _ in range(d)] for _ in range(r.choice((1, 3, 5, 7)))],
         "c": [dy(-2, 2, 4) for _ in range(r.choice((1, 4)))],
         "k": [r.choice((0.0, 0.5, 1.0, 2.0)) for _ in range(d)],
         "N": r.choice((4, 7, 12)), "n": r.choice((1, 2, 4)),
         "x0": [dy(-2, 2, 8) for _ in range(d)],
         "p0": [dy(-2, 2, 8) for _ in range(d)],
         "mst": r.choice((-1, 0, 5, 123)), "start": r.choice((0, 0, 3)),
         "jit": int(r.random() < .5), "key": r.randrange(1 << 30),
         "mode": "stats" if stats else "calls", "calls": r.choice((1, 2)) if stats else 3,
         "rootn": stats}
    if kind == "amagold" and (i // 4) % 3 == 0:
      s["p0"] = None      # momentum drawn by init
      if masskind in ("diag", "dense") and not stats:
        pass
    if kind in ("obabo",) and (i // 4) % 4 == 0 and not noisy:
      s["p0"] = None      # initially at rest
    if kind == "langevin" and r.random() < .5:
      s["adapt"] = [r.choice((0.5, 0.875)), r.choice((0.5, 0.25))]
      if stats:
        s["calls"] = 1
    if kind == "sghmc" and stats and not wide and r.random() < .5:
      s["noise_model"] = 1
    if masskind in ("diag", "dense") and r.random() < .4:
      s["both"] = 1
    if not noisy and steps == 1:
      s["h"] = r.choice((0.25, 1.0, 2.0))
      if s["h"] >= 1.0:
        s.update(calls=1, k=[v / 4 for v in s["k"]])
    if not noisy and steps == 5 and r.random() < .6:
      s.update(steps=r.choice((8, 10, 16)), h=0.0625)
    if wide:
      d = 6
      dense = [[2.0 if a == b else 0.25 * (abs(a - b) == 1) for b in range(d)] for a in range(d)]
      s.update(tree=5, steps=1, calls=1, h=0.0625, temp=128.0 if kind in ("obabo", "langevin") else 1.0, dense=dense,
               mass=[r.choice((0.5, 1.0, 2.0)) for _ in range(d)], fr=[0.25] * d,
               a=[[dy(-3, 3, 4) for _ in range(d)]], k=[r.choice((0.0, 0.5, 1.0)) for _ in range(d)],
               x0=[dy(-2, 2, 8) for _ in range(d)], p0=[dy(-2, 2, 8) for _ in range(d)] if s["p0"] else None)
      s.pop("adapt", None)
    s["id"] = f"{s['mode']}-{kind}-{i}"
    out.append(s)
  return out


MC = """SPECIFICATION Spec
CONSTANTS Q = {q} Steps = {n} Variant = "{v}"
INVARIANTS Reversible EnergyBalance ObaboBalance NoiseReversal
CHECK_DEADLOCK FALSE
"""


def run(chk):
  q = chk.quick
  chk.model_check("IntegratorMC", MC.format(q=5 if q else 7, n=2 if q else 3, v="none"),
                  label="leapfrog identities over a finite field")
  for v in ("fullfirst", "oldgrad", "energyold"):
    chk.refute("IntegratorMC", MC.format(q=5, n=2, v=v), "is violated", label=v)
  chk.conform("IntegratorTrace", vlib.Driver("d_integ", procs=8),
              scenarios(chk, 96 if q else 800, 0), label="motions")
  chk.conform("IntegratorTrace", vlib.Driver("d_integ", procs=8),
              scenarios(chk, 40 if q else 240, 200 if q else 600), label="noise")
