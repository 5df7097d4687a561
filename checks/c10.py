"""C10: conversion between pytrees and dictionaries preserves every leaf."""
import vlib
from common import rng

MC = """SPECIFICATION Spec
CONSTANTS Deep = {deep} Emit = {emit} Rename = {rename}
INVARIANTS {inv}
CHECK_DEADLOCK FALSE
"""


def rand_tree(r, depth, cnt):
  k = r.choice(("leaf", "none", "list", "tuple", "dict", "odict", "nt", "reg", "unk",
                "dict", "list", "nt")) if depth else r.choice(("leaf", "leaf", "none"))
  node = {"k": k, "n": [], "c": [], "v": 0}
  if k == "leaf":
    cnt[0] += 1
    node["v"] = cnt[0]
    return node
  if k == "none":
    return node
  w = r.choice((0, 1, 2, 3, 3, 4, 12)) if k in ("list", "tuple") else r.choice((1, 2, 3))
  if k in ("list", "tuple", "unk"):
    node["n"] = [""] * w
  elif k == "nt":
    node["n"] = r.sample(["z1", "A", "a", "w", "z10", "z9"], w)
  elif k in ("dict", "odict"):
    node["n"] = r.sample(["#2", "#9", "#10"] if r.random() < .2 else
                         ["A", "a", "b", "b/c", "c", "list_element_0",
                          "list_element_1", "w", "z1", "z10", "z9", "~"], w)
  else:
    node["n"] = r.sample(["A", "c", "w", "z10", "z9"], w)
  node["c"] = [rand_tree(r, depth - 1, cnt) for _ in range(w)]
  return node


def renumber(t, cnt):
  """Distinct leaf values, in the order of construction."""
  if t["k"] == "leaf":
    cnt[0] += 1
    return dict(t, v=cnt[0])
  return dict(t, c=[renumber(c, cnt) for c in t["c"]])


def run(chk):
  q = chk.quick
  chk.model_check("PytreeIOMC", MC.format(deep="FALSE" if q else "TRUE", emit="FALSE",
                                          rename="FALSE", inv="Laws"), label="all small trees")
  chk.refute("PytreeIOMC", MC.format(deep="FALSE", emit="FALSE", rename="TRUE", inv="BadLaw"),
             "Invariant BadLaw is violated", label="list elements sorted by name")
  ts = chk.enumerate("PytreeIOMC", MC.format(
    deep="FALSE" if q else "TRUE", emit="TRUE", rename="FALSE", inv="Laws"))
  r = rng(chk, "c10")
  for _ in range(150 if q else 4000):
    ts.append(renumber(rand_tree(r, r.choice((2, 3, 4)), [0]), [0]))
  scns = [{"id": f"trees-{i // 40}", "mode": (i // 40) % 6, "trees": ts[i:i + 40]}
          for i in range(0, len(ts), 40)]
  leaf = {"k": "leaf", "n": [], "c": [], "v": 0}
  for w in (100, 101, 112, 130) if q else (99, 100, 101, 110, 112, 130, 256, 300):
    for k in ("list", "tuple", "unk"):
      wide = {"k": k, "n": [""] * w, "c": [leaf] * w, "v": 0}
      both = {"k": "dict", "n": ["z1", "A"], "v": 0,
              "c": [wide, {"k": "list", "n": ["", ""], "c": [leaf, wide], "v": 0}]}
      ts += [renumber(wide, [0]), renumber(both, [0])]
  chk.notes["trees"] = len(ts)
  chk.conform("PytreeIOTrace", vlib.Driver("d_tree", procs=8), scns)
