"""Driver for the conversion of pytrees to dictionaries (C10)."""
import numpy as onp
import jax.numpy as jnp
from jax import tree_util

import drv
import trees


class Opaque:
  """An arbitrary python object is a leaf, too."""
  def __init__(self, v):
    self.v = v


def make_leaf(mode):
  def leaf(v):
    m = mode if mode < 5 else v % 5
    if m == 0:
      return float(v)
    if m == 1:
      return onp.full((2, v % 3), v)
    if m == 2:
      return jnp.full((v % 2, 3), v) if v % 2 == 0 else jnp.array(v)
    if m == 3:
      return Opaque(v)
    return str(v)
  table = {}
  def new(v):
    table[v] = leaf(v)
    return table[v]
  def un(x):
    for v, y in table.items():
      if x is y:
        return v
    return -1
  return new, un


def walk(d, un, path=()):
  if isinstance(d, dict):
    out = []
    for k, v in d.items():
      out += walk(v, un, path + (trees.unkey(k),))
    return out
  if d is None or (isinstance(d, (list, tuple)) and len(tree_util.tree_leaves(d)) == 0):
    return []
  return [[list(path), un(d)]]


def handler(scn, tr, tmp):
  from jax_sgmc import io
  trees.register_rules()
  for t in scn["trees"]:
    leaf, un = make_leaf(scn["mode"])
    x = trees.build(t, leaf)
    tr("leaves", tree=t, leaves=[un(v) for v in tree_util.tree_leaves(x)])
    keys = io.pytree_dict_keys(x)
    tr("keys", tree=t, keys=[[trees.unkey(k) for k in p] for p in keys])
    d = io.pytree_to_dict(x)
    tr("dict", tree=t, items=walk(d, un))
    back = io.dict_to_pytree(d, x)
    tr("restore", tree=t, got=trees.encode(back, un, t))
    # from a dictionary whose entries have another order
    def reverse(e):
      return {k: reverse(e[k]) for k in reversed(list(e))} if isinstance(e, dict) else e
    # into a target that has other leaves
    other = tree_util.tree_map(lambda _: 0.0, x)
    tr("restore", tree=t, got=trees.encode(io.dict_to_pytree(reverse(d), other), un, t))
    # Subtrees below nodes with rules
    if t["k"] not in ("unk", "leaf", "none"):
      for i, c in enumerate(t["c"]):
        if c["k"] in ("leaf", "none") or not tree_util.tree_leaves(trees.build(c, leaf)):
          continue
        leaf2, un2 = make_leaf(scn["mode"])
        y = trees.build(t, leaf2)
        dy = io.pytree_to_dict(y)
        name = (f"list_element_{i}" if t["k"] in ("list", "tuple") else trees.key(t["n"][i]))
        sub = trees.build(c, make_leaf(0)[0])
        tr("sub", tree=t, i=i + 1, got=trees.encode(io.dict_to_pytree(dy[name], sub), un2, c))
  tr("fin")
  return {}


if __name__ == "__main__":
  drv.main(handler)
