"""C22: pytree arithmetic agrees with vector arithmetic."""
import vlib
from common import rng
from c10 import rand_tree

MC = """SPECIFICATION Spec
CONSTANTS Depth = {d} Variant = "{v}"
INVARIANTS Homomorphic Structured Symmetric Linear
CHECK_DEADLOCK FALSE
"""


LARGE = ([1300], [1100], [40, 40], [40, 2], [2, 2, 1, 2, 2], [1, 2, 1, 3], [65, 1, 3], [300])


def shapes(r, t, types, large=False):
  """Gives every leaf a shape and a type."""
  if t["k"] == "leaf":
    sh = r.choice(LARGE) if large else r.choice(([], [], [1], [2], [3], [2, 2], [1, 3], [0], [2, 1, 2]))
    return dict(t, v={"sh": sh, "dt": r.choice(types), "d": []})
  return dict(t, c=[shapes(r, c, types, large) for c in t["c"]])


def size(t):
  if t["k"] == "leaf":
    n = 1
    for s in t["v"]["sh"]:
      n *= s
    return n
  return sum(size(c) for c in t["c"])


def fill(r, t, lo=-4, hi=5):
  """Random values; dictionaries are written in a random order."""
  if t["k"] == "leaf":
    return dict(t, v=dict(t["v"], d=[r.randint(lo, hi) for _ in range(size(t))]))
  c = [fill(r, x, lo, hi) for x in t["c"]]
  if t["k"] == "dict":
    o = list(range(len(c)))
    r.shuffle(o)
    return dict(t, n=[t["n"][i] for i in o], c=[c[i] for i in o])
  return dict(t, c=c)


def run(chk):
  q = chk.quick
  chk.model_check("TreeAlgebraMC", MC.format(d=3 if q else 4, v="none"), label="register machine")
  chk.refute("TreeAlgebraMC", MC.format(d=2, v="insertion"), "is violated", label="insertion")
  r = rng(chk, "c22")
  scns = []
  while len(scns) < (150 if q else 2500):
    i = len(scns)
    large = i % 10 == 6
    t = shapes(r, rand_tree(r, r.choice((1, 2, 2, 3)), [0]), (["f"], ["f"], ["i"], ["f", "i"], ["f", "h"])[i % 5],
               large)
    n = size(t)
    if n > (4000 if large else 14):
      continue
    ops = [{"op": "set", "arg": fill(r, t)}]
    if large:
      ops += [{"op": "dot", "arg": fill(r, t), "how": h} for h in ("plain", "jit")]
    for _ in range(r.choice((4, 6, 8))):
      op = r.choice(("add", "radd", "mul", "tmul1", "scale", "tmul0", "matmul", "tmul2", "dot", "rdot", "grad",
                     "norm", "set", "half"))
      if op in ("scale", "tmul0", "half"):
        a = r.choice((-3, -1, 0, 1, 2))
      elif op in ("matmul", "tmul2"):
        if n == 0 or n > 70:
          continue
        a = [[r.choice((-2, -1, 0, 0, 1, 3)) for _ in range(n)] for _ in range(n)]
      else:
        a = fill(r, t)
      ops.append({"op": op, "arg": a, "how": r.choice(("plain", "jit", "vmap"))})
    unit = 4 if i % 5 in (0, 4) and i % 3 else 1    # fractions
    scns.append({"id": f"algebra-{i}", "n": n, "unit": unit, "ops": ops})
  chk.conform("TreeAlgebraTrace", vlib.Driver("d_algebra", procs=8), scns)
