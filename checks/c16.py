"""C16: adaption strategies act on the flattened parameters."""
import itertools
import math

import vlib
from common import rng

MC = """SPECIFICATION ASpec
CONSTANTS Q = {q} MaxLen = {n} Vals = {{{vals}}} Variant = "{v}"
INVARIANTS MeanOk SsqOk MassOk Once
CHECK_DEADLOCK FALSE
"""


def tree(r, dim, depth=2):
  """Description of a random tree with dim entries in total."""
  if depth == 0 or dim == 1 and r.random() < .5 or r.random() < .25:
    shapes = [[dim], [1, dim], [dim, 1]]
    if dim == 1:
      shapes += [[]] * 3
    if dim == 4:
      shapes += [[2, 2]] * 2
    if dim == 6:
      shapes += [[2, 3], [3, 2]]
    return {"t": "leaf", "shape": r.choice(shapes)}
  k = min(dim, r.choice((1, 2, 2, 3)))
  cuts = sorted(r.sample(range(1, dim), k - 1)) if k > 1 else []
  parts = [b - a for a, b in zip([0] + cuts, cuts + [dim])]
  t = r.choice(("dict", "dict", "list", "tuple", "nt"))
  if t == "nt" and k != 2:
    t = "dict"
  d = {"t": t, "c": [tree(r, p, depth - 1) for p in parts]}
  if t == "dict":
    d["keys"] = r.sample(["w", "a", "z", "b1", "B"], k)
  return d


def leaves(d):
  return [d] if d["t"] == "leaf" else [x for c in d["c"] for x in leaves(c)]


def det(m):
  if len(m) == 1:
    return m[0][0]
  return sum((-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]])
             for j in range(len(m)))


def cov(xs):
  n, d = len(xs), len(xs[0])
  mu = [sum(x[i] for x in xs) / n for i in range(d)]
  return [[sum((x[i] - mu[i]) * (x[j] - mu[j]) for x in xs) / n for j in range(d)]
          for i in range(d)]


def scenarios(chk, num):
  r = rng(chk, "c16")
  dy = lambda lo, hi, q=4: r.randrange(lo * q, hi * q + 1) / q
  out = []
  for i in range(num):
    kind = ("rms", "mass", "mass", "noise")[i % 4]
    dim = r.choice((1, 2, 3, 4, 5, 6) if kind != "noise" else (1, 2, 3, 4))
    s = {"id": f"{kind}-{i}", "kind": kind, "dim": dim, "jit": r.randrange(2),
         "vmap": int(kind != "noise" and r.random() < .25), "ops": []}
    vec = lambda lo=-3, hi=3: [dy(lo, hi) for _ in range(dim)]
    s["x0"] = vec()
    s["desc"] = tree(r, dim)
    if kind == "rms":
      if r.random() < .8:
        s["alpha"], s["lmbd"] = r.choice((0.5, 0.75, 0.9, 0.99)), r.choice((0.25, 1.0, 1e-3))
      for _ in range(r.randrange(1, 9)):
        s["ops"].append({"op": "update", "x": vec(), "grad": vec(-4, 4)})
        if r.random() < .6:
          s["ops"].append({"op": "get", "x": vec(), "grad": vec(), "vec": vec()})
      s["ops"].append({"op": "get", "x": vec(), "grad": vec(), "vec": vec()})
    elif kind == "mass":
      s["diagonal"] = r.randrange(2)
      if not s["diagonal"]:
        dim = s["dim"] = min(dim, 3)
        s["x0"], s["desc"] = vec(), tree(r, dim)
      s["extra"] = r.randrange(2)
      if r.random() < .6:
        s["ini"] = [r.choice((0.25, 0.5, 1.0, 2.0, 4.0)) for _ in range(dim)]
      while True:
        b = r.randrange(2, 9) if s["diagonal"] else r.randrange(dim + 1, 9)
        xs = [vec() for _ in range(b + r.choice((0, 1, 3)))]
        c = cov(xs[:b])
        if s["diagonal"] and min(c[k][k] for k in range(dim)) > .3:
          break
        if not s["diagonal"] and det(c) > .3 ** dim:
          break
      s["burnin"] = b
      s["ops"].append({"op": "get", "vec": vec()})
      if r.random() < .2:
        xs = xs[:b - 1]
      for x in xs:
        s["ops"].append({"op": "update", "x": x})
        s["ops"].append({"op": "get", "vec": vec()})
    else:
      s["diagonal"] = r.randrange(2)
      n = s["n"] = r.choice((2, 3, 4, 5))
      s["N"] = n + r.choice((0, 1, 5, 20))
      same = r.random() < .2
      a = [vec(-2, 2) for _ in range(n)]
      k = [[r.choice((0.0, 0.5, 1.0)) for _ in range(dim)] for _ in range(n)]
      s["a"] = [a[0]] * n if same else a
      s["k"] = [k[0]] * n if same else k
      s["perm"] = r.sample(range(n), n)
      s["stateful"] = r.randrange(2)
      for _ in range(4):
        s["ops"].append({"op": "noise", "x": vec(-2, 2),
                         "fr": [r.choice((0.25, 1.0, 2.0, 4.0, 8.0)) for _ in range(dim)],
                         "h": r.choice((0.125, 0.25, 1.0)), "ms": r.choice((0.0, 1.0, -2.0))})
    ls = leaves(s["desc"])
    if kind != "noise" and s.get("diagonal", 1) and len(ls) > 1 and r.random() < .5:
      # Parameters of different precision
      for x in r.sample(ls, r.randrange(1, len(ls))):
        x["dt"] = "bfloat16"
    out.append(s)
  return out


def run(chk):
  q = chk.quick
  chk.model_check("AdaptionMC", MC.format(q=7, n=3 if q else 4, vals="0, 1, 4" if q else "0, 1, 3", v="none"),
                  label="recursion of the covariance")
  if not q:
    chk.model_check("AdaptionMC", MC.format(q=11, n=6, vals="0, 1", v="none"),
                    label="longer sequences")
  for v, inv in (("newmean", "SsqOk"), ("oldmean", "SsqOk"), ("late", "MassOk"), ("keep", "MassOk")):
    chk.refute("AdaptionMC", MC.format(q=7, n=3, vals="0, 1", v=v), "is violated", label=v)
  chk.conform("AdaptionTrace", vlib.Driver("d_adapt", procs=8),
              scenarios(chk, 160 if q else 1200), label="strategies")
