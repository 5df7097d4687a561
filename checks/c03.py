"""C03: chains are independent, reproducible and restorable."""
import vlib
from loader_common import MC, gen_ops
from common import rng


def run(chk):
  q = chk.quick
  H2, one = "{0, 1}", '{"a"}'
  chk.model_check("DataLoaderMC", MC.format(
    n=3, mbs="{2}", caches="{1}", kind="shuffle", seeds="{99, 0}",
    pos=2 if q else 3, handles=H2, names=one), label="shuffle, 2 chains")
  chk.model_check("DataLoaderMC", MC.format(
    n=3, mbs="{2}", caches="{1, 2}", kind="ordered", seeds="{0}",
    pos=4, handles=H2, names='{"a", "b"}' if not q else one),
    label="ordered, 2 chains")
  chk.model_check("DataLoaderMC", MC.format(
    n=2, mbs="{1}", caches="{1}", kind="draw", seeds="{99, 0, 1}" if not q else "{99, 0}",
    pos=3, handles=H2, names=one), label="draw, 2 chains")
  scns = []
  for i, (depth, num) in enumerate([(16, 40), (30, 25)] if q else
                                   [(16, 150), (30, 150), (60, 80), (150, 20)]):
    scns += gen_ops(chk, num, depth, ("draw", "shuffle", "epoch", "ordered"), 10 + i)
  # Every scheme: a long history around each checkpoint position
  r = rng(chk, "ck")
  for kind in ("draw", "shuffle", "epoch", "ordered"):
    for n, mb in [(5, 2), (6, 3), (7, 7), (4, 3), (9, 4)]:
      for at in ([0, 1, 2, 3] if q else range(0, 9)):
        ops = [{"op": "reg", "h": h, "ld": ld, "kind": kind, "mb": mb,
                "cache": 1 + (at % 2), "seed": s}
               for h, ld, s in ((0, 0, -1), (1, 0, -1), (2, 1, 0), (3, 1, 5))]
        ops += [{"op": "get", "h": 0}] * at + [{"op": "save", "h": 0, "k": "k1"}]
        ops += [{"op": "get", "h": 0}] * 5 + [{"op": "load", "h": 1, "k": "k1"}]
        ops += [{"op": "get", "h": r.choice((0, 1, 2))} for _ in range(9)]
        # The checkpoint remains usable at any later point, and its target
        # continues independently of the source
        ops += [{"op": "load", "h": 3, "k": "k1"}]
        ops += [{"op": "get", "h": h} for h in (3, 3, 1, 0, 3, 2, 3)]
        ops += [{"op": "load", "h": 0, "k": "k1"}, {"op": "save", "h": 3, "k": "k2"}]
        ops += [{"op": "get", "h": h} for h in (0, 3, 0, 3, 0)]
        ops += [{"op": "load", "h": 2, "k": "k2"}, {"op": "get", "h": 2},
                {"op": "load", "h": 2, "k": "k1"}, {"op": "get", "h": 2},
                {"op": "get", "h": 2}]
        scns.append({"id": f"ck-{kind}-{n}-{mb}-{at}", "type": "ops", "n": n,
                     "ops": ops})
  # Registrations in a different order, or next to other chains
  for kind in ("draw", "shuffle", "epoch"):
    for n, mb in [(6, 4), (10, 3)]:
      ops = []
      h = 0
      for ld, order in enumerate([(0, 1, 2), (2, 0, 1), (1,), (2, 2, 0)]):
        for s in order:
          ops.append({"op": "reg", "h": h, "ld": ld, "kind": kind, "mb": mb,
                      "cache": 2, "seed": s})
          h += 1
      ops += [{"op": "get", "h": r.randrange(h)} for _ in range(60)]
      scns.append({"id": f"perm-{kind}-{n}", "type": "ops", "n": n, "ops": ops})
  # Many chains draw different observations (the default seed is the number of the chain)
  for kind in ("draw", "shuffle", "epoch"):
    seeds = [-1] * 150 + list(range(450, 600)) + [7 * 10 ** k for k in range(3, 18)] + [2 ** k for k in range(10, 70)]
    scns.append({"id": f"streams-{kind}", "type": "streams", "kind": kind, "n": 60, "mb": 20,
                 "seeds": seeds if kind == "draw" else seeds[::3]})
  chk.conform("DataLoaderTrace", vlib.Driver("d_loader", procs=4), scns)
  chk.assumptions += ["single-threaded use of one NumpyDataLoader"]
