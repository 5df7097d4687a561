"""C11: stored samples are complete, correctly named and can be read back."""
import vlib
from c10 import rand_tree, renumber
from common import rng

MC = """SPECIFICATION MSpec
CONSTANTS Variant = "{v}" MaxCap = {cap} MaxChains = 2
INVARIANTS StoreInv
PROPERTIES Append1
CHECK_DEADLOCK FALSE
"""
KEYS = ["#2", "#9", "#10", "A", "a", "b", "b/c", "c", "list_element_0",
        "list_element_1", "w", "z1", "z10", "z9", "~"]


def paths(t):
  """Paths of the leaves; used to select inputs and to look up leaves only."""
  if t["k"] == "leaf":
    return [[]]
  if t["k"] == "unk":
    return [[f"unknown~pytree~leaf~{i}"] for i in range(sum(len(paths(c)) for c in t["c"]))]
  o = range(len(t["c"]))
  if t["k"] == "dict":
    o = sorted(o, key=lambda i: KEYS.index(t["n"][i]))
  nm = lambda i: f"list_element_{i}" if t["k"] in ("list", "tuple") else t["n"][i]
  return [[nm(i)] + p for i in o for p in paths(t["c"][i])]


def names(t):
  return ["/".join(k[1:] if k.startswith("#") else k for k in p) for p in paths(t)]


def usable(t, root=True):
  """Names of the leaves are unambiguous after joining."""
  n = names(t)
  return (0 < len(n) < 40 and (root or n != [""]) and len(set(n)) == len(n)
          and not any(b.startswith(a + "/") for a in n for b in n))


def run(chk):
  q = chk.quick
  chk.model_check("StoreMC", MC.format(v="none", cap=2 if q else 4), label="cells and counters")
  for v in ("shared", "dropped", "early"):
    chk.refute("StoreMC", MC.format(v=v, cap=2), "Invariant StoreInv is violated", label=v)
  r = rng(chk, "c11")
  enum = [t for t in chk.enumerate("PytreeIOMC", """SPECIFICATION Spec
CONSTANTS Deep = FALSE Emit = TRUE Rename = FALSE
INVARIANTS Laws
CHECK_DEADLOCK FALSE
""") if usable(t)]
  def tree(root):
    while True:
      t = (r.choice(enum) if r.random() < .5 else
           renumber(rand_tree(r, r.choice((1, 2, 3)), [0]), [0]))
      if usable(t, root):
        return t
  hist = chk.generate("StoreGen", "SPECIFICATION GSpec\nCONSTANTS D = 14\nCHECK_DEADLOCK FALSE\n",
                      num=60 if q else 600, depth=16, salt=11)
  hist += chk.generate("StoreGen", "SPECIFICATION GSpec\nCONSTANTS D = 24\nCHECK_DEADLOCK FALSE\n",
                       num=30 if q else 400, depth=26, salt=12)
  scns = []
  for i, h in enumerate(hist):
    coll = ("memory", "npz", "json", "hdf5", "json", "hdf5", "none")[i % 7]
    pipe = int(coll == "none" or i % 3 == 0)
    num = sum(o["op"] == "reg" for o in h)
    kept = [sum(o["op"] == "save" and o["c"] == c + 1 and (o["keep"] or 0) for o in h)
            for c in range(num)]
    ops, v, c = [], {}, 0
    extra = r.choice((0, 0, 0, 1, 3))
    for o in h:
      o = dict(o)
      if o["op"] == "reg":
        t = tree(coll != "npz")
        o.update(tree=t, names=names(t), cap=kept[c] + extra)
        c += 1
      elif o["op"] == "save":
        if not o["keep"] and not pipe:
          continue
        v[o["c"]] = v.get(o["c"], 0) + 1
        o["v"] = r.randrange(1, 28)
      ops.append(o)
    # The chains which have not been finalized yet
    for k in range(num):
      if not any(o["op"] == "fin" and o["c"] == k + 1 for o in ops):
        ops.append({"op": "fin", "c": k + 1})
    scns.append({"id": f"hist-{coll}-{i}", "cfg": {"coll": coll, "wf": 0}, "coll": coll, "pipe": pipe, "mode": i,
                 "wf": r.choice((0, 1, 2, 3, 5)) if coll == "json" else 0, "ops": ops})
  # Many chains, many samples
  for i, coll in enumerate(("memory", "npz", "json", "hdf5", "none")):
    for num, reps in ((13, 2), (2, 270 if coll != "json" else 140)):
      ops, c = [], 0
      for c in range(num):
        t = tree(coll != "npz")
        ops.append({"op": "reg", "tree": t, "names": names(t), "cap": reps + 1})
      sv = [{"op": "save", "c": c + 1, "keep": 1} for c in range(num) for _ in range(reps)]
      r.shuffle(sv)
      for o in sv:
        ops.append(dict(o, v=r.randrange(1, 28)))
      ops += [{"op": "fin", "c": c + 1} for c in r.sample(range(num), num)]
      scns.append({"id": f"many-{coll}-{num}", "cfg": {"coll": coll, "wf": 0}, "coll": coll,
                   "pipe": int(coll == "none"), "mode": i, "wf": 0, "ops": ops})
  chk.conform("StoreTrace", vlib.Driver("d_store", procs=8), scns)
  # Reading of the stored samples as reference data
  scns = []
  for i in range(40 if q else 500):
    kind = ("draw", "shuffle", "epoch", "ordered")[i % 4]
    n = r.choice((1, 2, 3, 5, 7, 10))
    t = tree(True)
    sub = r.random() < .3
    ops = []
    for h in range(r.choice((1, 2, 3))):
      ops.append({"op": "reg", "h": h, "ld": 0, "kind": kind if h != 1 else
                  r.choice(("ordered", "draw")), "mb": r.randrange(1, n + 1),
                  "cache": r.choice((1, 2, 3)), "seed": r.choice((-1, 0, 5))})
    for _ in range(r.choice((3, 6, 9))):
      ops.append({"op": "get", "h": r.randrange(len([o for o in ops if o["op"] == "reg"]))})
    scns.append({"id": f"read-{kind}-{i}", "cfg": {"n": n}, "type": "hdf5", "n": n, "tree": t, "names": names(t),
                 "mode": i, "sub": int(sub), "chain": r.choice((0, 0, 1)), "ops": ops,
                 "byname": i % 2, "full": int(i % 5 == 0)})
  chk.conform("DataLoaderTrace", vlib.Driver("d_loader", procs=8), scns, label="HDF5Loader")
