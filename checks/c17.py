"""C17: Step-size adaption follows dual averaging and freezes after burn-in."""
import vlib
from common import rng

MC = """SPECIFICATION MSpec
CONSTANTS N0 = {n0} MaxIt = {n} Ka4 = {ka} T0 = {t0} Variant = "{v}"
INVARIANTS Monotonic Starts Direction
PROPERTY Frozen
CHECK_DEADLOCK FALSE
"""
NAMES = ("initial_step_size", "burn_in", "target_acceptance_rate",
         "stabilization_constant", "decay_constant", "speed_constant")


def params(r):
  return {"initial_step_size": r.choice((0.05, 0.001, 0.5, 2.0, 0.01)),
          "burn_in": r.choice((0, 1, 2, 5, 10, 17)),
          "target_acceptance_rate": r.choice((0.02, 0.25, 0.5, 0.8)),
          "stabilization_constant": r.choice((0, 1, 10, 100)),
          "decay_constant": r.choice((0.5, 0.75, 1.0, 0.9)),
          "speed_constant": r.choice((0.05, 0.1, 0.5, 1.0))}


def scenarios(chk, num, mode):
  r = rng(chk, "c17" + mode)
  out = []
  for i in range(num):
    d, o = params(r), params(r)
    ov = {k: o[k] for k in r.sample(NAMES, r.choice((0, 0, 1, 2, 6)))}
    s = {"id": f"{mode}-{i}", "mode": mode, "defaults": d, "override": ov,
         "its": r.choice((8, 20, 30, 50)), "jit": r.randrange(2), "vmap": int(r.random() < .3),
         "array": r.randrange(2), "gets": r.choice((1, 2)), "other_burn_in": r.choice((0, 4)),
         "strategy": r.choice(("map", "map", "vmap")), "bar": r.randrange(2),
         "chains": r.choice((1, 2, 3)), "key": r.randrange(1 << 20)}
    s["chain"] = r.randrange(s["chains"])
    kind = r.randrange(5)
    n = r.choice((s["its"], 3, 7))
    s["acc"] = [[r.random() for _ in range(n)], [1.0] * n, [0.0] * n,
                [float(r.random() < .5) for _ in range(n)],
                [min(1.0, max(0.0, d["target_acceptance_rate"] + r.uniform(-.1, .1)))
                 for _ in range(n)]][kind]
    burn = {**d, **ov}["burn_in"]
    if mode in ("alone", "sched") and r.random() < .2 and s["its"] > burn:
      # undefined acceptance ratios after the burn-in
      s["acc"] = [s["acc"][k % n] for k in range(s["its"])]
      s["acc"][r.randrange(burn, s["its"])] = None
    if mode == "run":
      extra = [{k: o[k] for k in r.sample(NAMES, r.choice((1, 2)))}
               for _ in range(r.choice((0, 0, 1, 2)))]
      s["extra"], s["which"] = extra, r.randrange(1 + len(extra))
      s["override"] = extra[s["which"] - 1] if s["which"] else {}
    if mode == "real":
      s["solver"] = ("amagold", "sggmc")[i % 2]
      s["override"] = {}
      d.update(initial_step_size=r.choice((0.05, 0.01)), burn_in=r.choice((5, 10)),
               target_acceptance_rate=r.choice((0.25, 0.5, 0.8)),
               speed_constant=r.choice((0.5, 1.0)))
    out.append(s)
  return out


def run(chk):
  q = chk.quick
  n = 4 if q else 5
  for n0, ka, t0 in (((2, 3, 1), (0, 4, 0)) if q else
                     ((0, 3, 1), (2, 3, 1), (3, 4, 0), (5, 2, 10), (4, 3, 100))):
    chk.model_check("DualAveragingMC", MC.format(n0=n0, n=n, ka=ka, t0=t0, v="none"),
                    label=f"burn-in {n0}")
  chk.refute("DualAveragingMC", MC.format(n0=2, n=3, ka=3, t0=1, v="sign"), "is violated", label="sign")
  for v in ("late", "never"):
    chk.refute("DualAveragingMC", MC.format(n0=2, n=4, ka=3, t0=1, v=v), "Frozen", label=v)
  d = lambda p: vlib.Driver("d_dual", procs=p)
  chk.conform("DualAveragingTrace", d(6), scenarios(chk, 120 if q else 1500, "alone"), label="schedule")
  chk.conform("DualAveragingTrace", d(6), scenarios(chk, 60 if q else 800, "sched"), label="scheduler")
  chk.conform("DualAveragingTrace", d(6), scenarios(chk, 48 if q else 500, "run"), label="runs")
  chk.conform("DualAveragingTrace", d(8), scenarios(chk, 12 if q else 80, "real"), label="real solvers")
