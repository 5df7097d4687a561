"""Real pytrees from the trees of PytreeIO.tla and back."""
from collections import OrderedDict, namedtuple

import numpy as onp
import jax
from jax import tree_util

_nt = {}


def nt_type(names):
  names = tuple(names)
  if names not in _nt:
    _nt[names] = namedtuple("NT_" + "_".join(names), names)
  return _nt[names]


class Reg:
  """Custom node with a registered rule; names are static."""
  def __init__(self, names, children):
    self.names, self.children = tuple(names), tuple(children)


class Unk:
  """Custom node without a rule."""
  def __init__(self, *children):
    self.children = tuple(children)


tree_util.register_pytree_node(
  Reg, lambda r: (r.children, r.names), lambda n, c: Reg(n, c))
tree_util.register_pytree_node(
  Unk, lambda r: (r.children, None), lambda _, c: Unk(*c))


def register_rules():
  from jax_sgmc import io
  try:
    @io.register_dictionize_rule(Reg)
    def rule(node):
      return list(zip(node.names, node.children))
  except AssertionError:
    pass


def key(s):
  return int(s[1:]) if s.startswith("#") else s


def unkey(k):
  return f"#{k}" if isinstance(k, int) else k


def build(t, leaf):
  c = [build(x, leaf) for x in t["c"]]
  k = t["k"]
  if k == "leaf":
    return leaf(t["v"])
  if k == "none":
    return None
  if k == "list":
    return c
  if k == "tuple":
    return tuple(c)
  if k == "dict":
    return {key(n): x for n, x in zip(t["n"], c)}
  if k == "odict":
    return OrderedDict((key(n), x) for n, x in zip(t["n"], c))
  if k == "nt":
    return nt_type(t["n"])(*c)
  if k == "reg":
    return Reg(t["n"], c)
  return Unk(*c)


def encode(x, unleaf, like=None):
  """Tree record of a real tree; the order of insertion of dictionaries is not
  part of a pytree, so names of like are used if they agree."""
  node = lambda k, n, c: {"k": k, "n": list(n), "c": c, "v": 0}
  sub = lambda xs: [encode(y, unleaf, like["c"][i] if like is not None and i < len(like["c"]) else None)
                    for i, y in enumerate(xs)]
  if x is None:
    return node("none", [], [])
  if isinstance(x, Reg):
    return node("reg", x.names, sub(x.children))
  if isinstance(x, Unk):
    return node("unk", [""] * len(x.children), sub(x.children))
  if isinstance(x, list):
    return node("list", [""] * len(x), sub(x))
  if isinstance(x, tuple):
    if hasattr(x, "_fields"):
      return node("nt", x._fields, sub(x))
    return node("tuple", [""] * len(x), sub(x))
  if isinstance(x, OrderedDict):
    return node("odict", [unkey(k) for k in x], sub(x.values()))
  if isinstance(x, dict):
    names = [unkey(k) for k in x]
    if like is not None and like["k"] == "dict" and sorted(like["n"]) == sorted(names):
      names = like["n"]
    return node("dict", names, sub([x[key(n)] for n in names]))
  return {"k": "leaf", "n": [], "c": [], "v": unleaf(x)}
