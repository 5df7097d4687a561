"""C07: schedules are exact functions of the iteration."""
import vlib
from common import rng

S = 2 ** 20
MC = """SPECIFICATION MCSpec
CONSTANTS MaxT = {T} Broken = {broken}
INVARIANTS Exact NoEarlySample NotStuck Reproducible
CHECK_DEADLOCK FALSE
"""


def F(x):
  return int(round(x * S))


def run(chk):
  q = chk.quick
  chk.model_check("SchedulerMC", MC.format(T=3 if q else 4, broken="FALSE"),
                  label="all runs")
  chk.refute("SchedulerMC", MC.format(T=2, broken="TRUE"),
             "Invariant Exact is violated", label="unconstrained thinning")
  r = rng(chk, "c07")
  scns = []
  big = chk.enumerate("SchedulerMC", MC.format(T=3, broken="FALSE")) if chk.only is None else []

  def step_params(T):
    kind = r.choice(("default", "poly", "poly", "firstlast", "firstlast"))
    b = {"kind": kind}
    if kind == "poly":
      b["a"] = F(r.choice((0.5, 1.0, 2.0, 8.0, 0.05)))
      b["b"] = F(r.choice((1.0, 0.5, 2.0, 10.0)))
      b["gamma"] = F(r.choice((0.0, 0.33, 0.5, 1.0, 0.55)))
    elif kind == "firstlast":
      g = r.choice((0.33, 0.5, 0.55, 1.0, 2.0))
      b["gamma"] = F(g)
      b["first"] = F(r.choice((1.0, 2.0, 5.0, 0.5)))
      b["last"] = F(r.choice((0.5, 0.3, 0.25, b["first"] / S)))
      if b["last"] > b["first"]:
        b["last"] = b["first"]
    return b

  def override(b, T):
    o = {}
    if r.random() < .6:
      return o
    if b["kind"] == "poly":
      for k, vs in (("a", (0.5, 3.0)), ("b", (1.0, 4.0)), ("gamma", (0.25, 0.75))):
        if r.random() < .5:
          o[k] = F(r.choice(vs))
    elif b["kind"] == "firstlast":
      if r.random() < .5:
        o["first"] = F(r.choice((6.0, 8.0)))
      if r.random() < .5:
        o["last"] = F(r.choice((0.25, 0.4)))
        o["last"] = min(o["last"], o.get("first", b["first"]))
      if r.random() < .3:
        o["gamma"] = F(r.choice((0.5, 1.0)))
    if r.random() < .5:
      o["tau"] = F(r.choice((0.25, 3.0, 0.0)))
    if r.random() < .4:
      o["n"] = r.randrange(T + 1)
      if "sel" in b:
        o["tn"] = o["n"]
    if "sel" in b and r.random() < .5:
      o["sel"] = r.randrange(T + 1)
    if "sel" in b and r.random() < .5:
      o["key"] = r.randrange(20)
    return o

  # every small configuration of the model
  def deco(c):
    b = dict(step_params(c["T"]))
    if c["n"] or r.random() < .5:
      b["n"] = c["n"]
    if c["sel"] >= 0:
      b["sel"], b["tn"], b["key"] = c["sel"], c["n"], r.randrange(3)
    return b

  modes = ("eager", "scan", "scan")
  per = 6
  todo = []
  for c in big:
    todo.append({"op": "run", "built": deco(c), "over": {}, "T": c["T"],
                 "mode": r.choice(modes), "bar": r.randrange(2),
                 "twice": r.randrange(2)})
  for i in range(0, len(todo), per):
    scns.append({"id": f"small-{i // per}", "ops": todo[i:i + per]})
  # larger ones with overrides, repeated keys and neighbouring schedulers
  for i in range(16 if q else 150):
    ops = []
    for _ in range(3):
      T = r.choice((1, 2, 5, 7, 12, 19, 21, 40))
      b = step_params(T)
      if r.random() < .7:
        b["n"] = r.choice((0, 1, T // 2, T - 1, T, T + 3))
      if r.random() < .5:
        b["tau"] = F(r.choice((0.0, 0.5, 2.0, 100.0)))
      if r.random() < .6:
        b["tn"] = b.get("n", 0)
        b["sel"] = r.choice((0, 1, max(0, T - b["tn"]), max(0, T - b["tn"]) // 2,
                             T - b["tn"] + 1 if T > b["tn"] else 1))
        if r.random() < .7:
          b["key"] = r.randrange(50)
      o = override(b, T)
      op = {"op": "run", "built": b, "over": o, "T": T,
            "mode": r.choice(("eager", "scan", "vget") if T < 12 else ("scan", "vget")),
            "twice": r.randrange(2)}
      if r.random() < .7:
        op["bar"] = r.randrange(2)
      if r.random() < .3:
        op["steps"] = r.choice((1, 5, 100))
      if r.random() < .4:
        op["stats"] = {"acceptance_ratio": 0.3}
      if op["mode"] == "vget":
        op["others"] = []
        for _ in range(r.choice((1, 2))):
          oo = override(b, T)
          for kk in ("sel", "tn", "n"):
            oo.pop(kk, None)
          if "n" in o:
            oo["n"] = o["n"]
          if "tn" in o:
            oo["tn"] = o["tn"]
          if "sel" in o:
            oo["sel"] = o["sel"]
          op["others"].append(oo)
        op["pos"] = r.randrange(len(op["others"]) + 1)
      ops.append(op)
      # Repetition with another display of the progress: same choice
      op2 = dict(op)
      op2["bar"] = 1 - op.get("bar", 1)
      op2["mode"] = "scan"
      op2.pop("others", None)
      ops.append(op2)
    scns.append({"id": f"run-{i}", "ops": ops})
  for i, T in enumerate((300, 1000)):
    for k in range(2 if q else 6):
      b = step_params(T)
      b["n"] = r.choice((0, 150, 280))
      if k % 2:
        b.update(tn=b["n"], sel=r.choice((T - b["n"], 135, 1)), key=r.randrange(50))
      scns.append({"id": f"long-{T}-{k}", "ops": [
        {"op": "run", "built": b, "over": {}, "T": T, "mode": "scan", "twice": 0, "bar": r.randrange(2)}]})
  num = 400 if q else 3000
  for i, (T, tn, sel, g) in enumerate([(5, 0, 1, 1.0), (8, 3, 1, 0.7), (6, 0, 2, 1.5),
                                       (10, 4, 3, 1.0), (4, 0, 4, 1.0)]):
    for rep in range(1 if q else 4):
      b = {"kind": "poly", "a": F(1.0), "b": F(1.0 if tn == 0 else 0.5),
           "gamma": F(g), "tn": tn, "n": tn, "sel": sel}
      if i == 1:
        b = {"kind": "firstlast", "first": F(8.0), "last": F(0.25), "gamma": F(0.5),
             "tn": tn, "n": tn, "sel": sel}
      scns.append({"id": f"freq-{i}-{rep}", "ops": [
        {"op": "freq", "built": b, "over": {}, "T": T, "num": num,
         "seed": chk.seed * 10 + rep}]})
  chk.assumptions.append("Random thinning is given the burn-in schedule that the "
                         "scheduler uses (also after overriding it).")
  chk.conform("SchedulerTrace", vlib.Driver("d_sched", procs=8), scns)
