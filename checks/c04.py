"""C04: device caching never loses, repeats, reorders or mislabels batches."""
import vlib
from common import rng

MC = """SPECIFICATION MSpec
CONSTANTS Chains = {chains} Caches = {caches} Stricts = {stricts} Devs={devs} MaxStates = {ms}
INVARIANTS StrictOnce Replicas LaxOnce Consecutive Lazy KeptInv
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION GSpec
CONSTANTS NChains = {nch} Devs={devs} D = {d} Caches={caches} Stricts = {stricts}
CHECK_DEADLOCK FALSE
"""
LOADERS = [{"type": "count"}, {"type": "count", "mask": 1},
           {"type": "count", "mask": 1, "host_arrays": 1}]


def newest_only(ops):
  """Keeps the accesses from the newest state of each chain: one thread of
  states per chain."""
  out, last, ren, ch_of = [], {}, {}, {}
  for o in ops:
    if o["op"] == "open":
      last[o["ch"]] = o["s"]
      ch_of[o["s"]] = o["ch"]
      out.append(o)
    elif o["r"] >= 0:
      ch_of[o["r"]] = ch_of[o["s"]]
      ch = ch_of[o["s"]]
      out.append({"op": "acc", "s": last[ch], "r": o["r"], "dev": 1})
      last[ch] = o["r"]
  return out


def released(r, ops):
  """Ends one chain early; the others go on."""
  ch, out, gone = {}, [], None
  opens = [i for i, o in enumerate(ops) if o["op"] == "open"]
  if len(opens) < 2 or r.random() < .3:
    return ops
  first = ops[r.choice(opens)]
  at = r.randrange(ops.index(first) + 1, len(ops) + 1)
  for i, o in enumerate(ops):
    if i == at:
      out.append({"op": "release", "s": first["s"]})
      gone = first["s"]
    if o["op"] == "open":
      ch[o["s"]] = o["s"]
    elif o["op"] in ("acc", "scan"):
      ch[o["r"]] = ch[o["s"]]
    if gone is None or ch.get(o["s"]) != gone:
      out.append(o)
  return out


def run(chk):
  q = chk.quick
  chk.model_check("BatchAccessMC", MC.format(
    chains="{0, 1}", caches="{1, 2}", stricts="{TRUE, FALSE}", devs="{1}",
    ms=6 if q else 7), label="2 chains")
  chk.model_check("BatchAccessMC", MC.format(
    chains="{0}", caches="{1, 2, 3}", stricts="{TRUE, FALSE}", devs="{1}",
    ms=7 if q else 9), label="1 chain")
  r = rng(chk, "c04")
  scns = []
  # Interleavings of up to three chains generated from the specification
  beh = chk.generate("BatchAccessGen", GEN.format(
    nch=3, devs="{1}", d=26, caches="{1, 2, 3, 5}", stricts="{TRUE, FALSE}"),
    num=14 if q else 80, depth=30, salt=4)
  for i, ops in enumerate(beh[:14 if q else 80]):
    ops = newest_only(ops)
    lds = r.choice([[0], [0, 1]])
    ops = [dict(o, ld=r.choice(lds)) if o["op"] == "open" else o for o in ops]
    scns.append({"id": f"gen-{i}", "n": r.choice((7, 23)), "mb": r.choice((1, 2, 3)),
                 "loaders": [dict(r.choice(LOADERS)) for _ in lds],
                 "mode": r.choice(("jit", "jit", "eager")),
                 "info": r.choice((0, 1, 1)), "ops": released(r, ops)})
    share = [dict(o, share=1, cache=2, strict=1) if o["op"] == "open" else o for o in ops]
    scns.append(dict(scns[-1], id=f"share-{i}", ops=share))
  # Every cache size with single accesses and loops of all lengths
  for cache in (1, 2, 3, 4, 7) if q else range(1, 13):
    ops = [{"op": "open", "s": 0, "cache": cache, "strict": cache % 2}]
    s = 0
    for i, steps in enumerate((1, cache, 1, 2 * cache + 1, 3, 1)):
      ops.append({"op": "scan", "s": s, "r": i + 1, "steps": steps,
                  "how": "loop" if i % 3 == 2 else "scan"})
      s = i + 1
      if i % 2:
        ops.append({"op": "acc", "s": s, "r": 100 + i, "dev": 1})
        s = 100 + i
    scns.append({"id": f"scan-{cache}", "n": 9, "mb": 2,
                 "loaders": [dict(LOADERS[cache % 3])], "mode": "jit", "ops": ops})
    ops = [{"op": "open", "s": 0, "cache": cache, "strict": 0}]
    ops += [{"op": "acc", "s": i, "r": i + 1, "dev": 1}
            for i in range(3 * cache + 2)]
    scns.append({"id": f"single-{cache}", "n": 9, "mb": 3, "mode": "jit",
                 "loaders": [dict(LOADERS[(cache + 1) % 3])], "ops": ops})
  # Many batches
  for cache, steps in ((3, 290), (130, 150), (1, 270), (300, 310)):
    scns.append({"id": f"many-{cache}", "n": 9, "mb": 2, "loaders": [dict(LOADERS[0])], "mode": "jit", "ops": [
      {"op": "open", "s": 0, "cache": cache, "strict": 1},
      {"op": "scan", "s": 0, "r": 1, "steps": steps, "how": "scan"},
      {"op": "acc", "s": 1, "r": 2, "dev": 1},
      {"op": "scan", "s": 2, "r": 3, "steps": steps, "how": "loop"}]})
  # Many chains of one source
  for cache, chains in ((1, 70), (2, 300)):
    ops = [{"op": "open", "s": i, "cache": cache, "strict": 1, "share": 1} for i in range(chains)]
    last = list(range(chains))
    for k in range(chains * 3):
      h = k % chains if k < chains else r.choice((r.randrange(chains), k % 3, 64 + k % 3, chains - 1 - k % 3))
      ops.append({"op": "acc", "s": last[h], "r": 1000 + k, "dev": 1})
      last[h] = 1000 + k
    scns.append({"id": f"chains-{chains}", "n": 9, "mb": 1, "loaders": [dict(LOADERS[cache % 2])],
                 "mode": "jit", "ops": ops})
  # The numpy loader with all of its schemes, two interleaved chains and a
  # second access function of the same loader
  for kind in ("draw", "shuffle", "epoch"):
    for cache in (1, 3) if q else (1, 2, 3, 6):
      for n, mb in ((7, 3), (4, 4)) if q else ((7, 3), (4, 4), (9, 2), (5, 1)):
        ops = [{"op": "open", "s": h, "cache": cache + h % 2, "kind": kind,
                "strict": h % 2} for h in range(3)]
        last = {0: 0, 1: 1, 2: 2}
        nid = 10
        for _ in range(14):
          h = r.randrange(3)
          if r.random() < .2:
            ops.append({"op": "scan", "s": last[h], "r": nid,
                        "steps": r.randint(1, 6)})
          else:
            ops.append({"op": "acc", "s": last[h], "r": nid, "dev": 1})
          last[h] = nid
          nid += 1
        scns.append({"id": f"numpy-{kind}-{cache}-{n}-{mb}", "n": n, "mb": mb,
                     "loaders": [{"type": "numpy"}], "mode": "jit", "ops": released(r, ops)})
        if q or cache == 3:
          scns.append(dict(scns[-1], id=f"hdf5-{kind}-{cache}-{n}-{mb}",
                           loaders=[{"type": "hdf5"}]))
  # Sweeps over ordered data with caches that do not fit the sweeps
  for cache in (1, 2, 3, 5):
    for n, mb in ((7, 3), (8, 2)):
      ops = [{"op": "open", "s": 0, "cache": cache, "strict": 1, "full": 1}]
      ops += [{"op": "map", "s": i, "r": i + 1} for i in range(4)]
      scns.append({"id": f"map-{cache}-{n}", "n": n, "mb": mb, "mode": "jit",
                   "loaders": [{"type": "numpy"} if cache % 2 else
                               dict(LOADERS[1])], "ops": ops})
  chk.conform("BatchAccessTrace", vlib.Driver("d_access", procs=6), scns)
