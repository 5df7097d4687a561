"""Driver for the arithmetic of pytrees (C22)."""
import numpy as onp
import jax
import jax.numpy as jnp
from jax import tree_util

import drv
import trees

DT = {"f": jnp.float32, "i": jnp.int32, "h": jnp.float16}
NAME = {"float32": "f", "int32": "i", "float16": "h"}


def leaf(v, unit=1):
  return jnp.array(onp.array(v["d"]).reshape(v["sh"]) / unit, dtype=DT[v["dt"]])


def unleaf(x, unit=1):
  a = onp.asarray(x, dtype=onp.float64) * unit
  if not onp.all(onp.isfinite(a)) or onp.any(a != onp.round(a)):
    return {"sh": list(a.shape), "dt": "noninteger", "d": []}
  return {"sh": list(a.shape), "dt": NAME.get(str(jnp.asarray(x).dtype), str(jnp.asarray(x).dtype)),
          "d": [int(y) for y in a.reshape(-1)]}


def types(t):
  """Types of the leaves."""
  return {t["v"]["dt"]} if t["k"] == "leaf" else set().union(*[types(c) for c in t["c"]])


def handler(scn, tr, tmp):
  from jax_sgmc import util
  cur, like, ts, u = None, None, set(), scn.get("unit", 1)
  leafu = lambda v: leaf(v, u)
  unleafu = lambda v: unleaf(v, u)
  lim = 1500 if "h" in str(scn) else 200000

  def run(how, f, *args):
    if how == "jit":
      return jax.jit(f)(*args)
    if how == "vmap":     # the second entry of the batch
      both = tree_util.tree_map(lambda x: jnp.stack([jnp.zeros_like(x), jnp.asarray(x), jnp.ones_like(x)]), args)
      return tree_util.tree_map(lambda x: x[1], jax.vmap(f)(*both))
    return f(*args)

  for o in scn["ops"]:
    op, how = o["op"], o.get("how", "plain")
    if op == "set":
      like, ts = o["arg"], types(o["arg"])
      cur = trees.build(like, leafu)
      tr("set", arg=like)
      continue
    if op in ("scale", "tmul0", "half"):
      a = o["arg"]
      if op == "half":
        if any(onp.any(onp.round(onp.asarray(x) * u) % 2) for x in tree_util.tree_leaves(cur)) or ts - {"f", "h"}:
          continue
        a = a / 2
      v = a
      if how != "plain":                 # arrays need a type of their own
        if len(ts) != 1:
          how = "plain"
        else:
          v = jnp.asarray(a, dtype=DT[list(ts)[0]])
    elif op in ("matmul", "tmul2"):
      v = jnp.array(o["arg"], dtype=DT[list(ts)[0]] if len(ts) == 1 else jnp.float32)
    else:
      v = trees.build(o["arg"], leaf if op in ("mul", "tmul1") else leafu)
    f = {"add": lambda x, y: util.tree_add(x, y), "radd": lambda x, y: util.tree_add(y, x),
         "mul": lambda x, y: util.tree_multiply(x, y),
         "tmul1": lambda x, y: util.tensor_matmul(util.Tensor(1, y), x),
         "scale": lambda x, y: util.tree_scale(y, x), "half": lambda x, y: util.tree_scale(y, x),
         "tmul0": lambda x, y: util.tensor_matmul(util.Tensor(0, y), x),
         "matmul": lambda x, y: util.tree_matmul(y, x),
         "tmul2": lambda x, y: util.tensor_matmul(util.Tensor(2, y), x),
         "dot": lambda x, y: util.tree_dot(x, y), "rdot": lambda x, y: util.tree_dot(y, x),
         "norm": lambda x, y: util.tree_dot(x, x),
         "grad": lambda x, y: jax.grad(util.tree_dot)(x, y)}[op]
    if op == "grad" and ts != {"f"}:
      continue
    if not ts and how == "vmap":         # nothing to batch
      how = "plain"
    if op in ("dot", "rdot", "norm") and "h" in ts:
      continue
    if op in ("dot", "rdot", "norm", "grad") and how == "vmap" and scn["n"] == 0:
      how = "plain"
    got = run(how, f, cur, v)
    if op in ("dot", "rdot", "norm"):
      x = onp.asarray(got, dtype=onp.float64) * u * u
      if x.shape != () or x != onp.round(x):
        raise ValueError(f"no integer scalar {got}")
      if abs(x) > 2 ** 23:
        continue
      tr(op, arg=o["arg"], got=int(x), how=how)
      continue
    enc = trees.encode(got, unleafu, like if op != "radd" else o["arg"])
    tr(op, arg=o["arg"], got=enc, how=how)
    if op == "grad":
      continue
    cur = got
    m = max([0.] + [float(jnp.max(jnp.abs(x))) for x in tree_util.tree_leaves(got) if jnp.size(x)])
    if m > lim / 50:
      cur = trees.build(like, leafu)
      tr("set", arg=like)
  tr("fin")
  return {}


if __name__ == "__main__":
  drv.main(handler)
