"""C05: outdated states are detected or served safely, replicas get equal data."""
import vlib
from common import rng
from c04 import MC, GEN, LOADERS


def run(chk):
  q = chk.quick
  chk.model_check("BatchAccessMC", MC.format(
    chains="{0}", caches="{1, 2}", stricts="{TRUE, FALSE}", devs="{1, 2}",
    ms=7 if q else 8), label="1 chain, replicas")
  chk.model_check("BatchAccessMC", MC.format(
    chains="{0}", caches="{1}", stricts="{TRUE, FALSE}", devs="{1, 2, 3}",
    ms=6 if q else 7), label="3 replicas")
  if not q:
    chk.model_check("BatchAccessMC", MC.format(
      chains="{0, 1}", caches="{1}", stricts="{TRUE, FALSE}", devs="{1, 2}",
      ms=7), label="2 chains, replicas")
  r = rng(chk, "c05")
  scns = []
  for j, (devs, nch, d) in enumerate([("{1}", 1, 14), ("{1, 2}", 1, 16),
                                      ("{1, 2, 3}", 2, 24), ("{2}", 1, 14)]):
    num = 14 if q else 100
    beh = chk.generate("BatchAccessGen", GEN.format(
      nch=nch, devs=devs, d=d, caches="{1, 2}", stricts="{TRUE, FALSE}"),
      num=num, depth=d + 3, salt=50 + j)
    for i, ops in enumerate(beh[:num]):
      scns.append({"id": f"gen{j}-{i}", "n": 23, "mb": r.choice((1, 2)),
                   "loaders": [dict(r.choice(LOADERS))],
                   "mode": r.choice(("jit", "jit", "eager")), "ops": ops})
  # A state kept for a long time
  for strict in (0, 1):
    for cache in (1, 2):
      ops = [{"op": "open", "s": 0, "cache": cache, "strict": strict}]
      ops += [{"op": "acc", "s": i, "r": i + 1, "dev": 1} for i in range(6)]
      for old in (0, 2, 4):
        ops += [{"op": "acc", "s": old, "r": 10 + old, "dev": 1}]
        if strict == 0 or cache > old % 2:
          pass
      ops += [{"op": "acc", "s": 6, "r": 30, "dev": 1},
              {"op": "acc", "s": 30, "r": 31, "dev": 1},
              {"op": "acc", "s": 31, "r": 32, "dev": 1}]
      scns.append({"id": f"old-{strict}-{cache}", "n": 23, "mb": 2,
                   "loaders": [dict(LOADERS[1])], "mode": "jit", "ops": ops})
  # Outdated states in the middle of loops
  for cache in (1, 3):
    ops = [{"op": "open", "s": 0, "cache": cache, "strict": 1},
           {"op": "scan", "s": 0, "r": 1, "steps": cache + 1},
           {"op": "scan", "s": 0, "r": 2, "steps": cache + 2},
           {"op": "scan", "s": 1, "r": 3, "steps": cache + 2},
           {"op": "scan", "s": 1, "r": 4, "steps": cache + 2},
           {"op": "scan", "s": 3, "r": 5, "steps": 2}]
    scns.append({"id": f"scan-{cache}", "n": 23, "mb": 2, "mode": "jit",
                 "loaders": [dict(LOADERS[1])], "ops": ops})
  # Full sweeps are always verified
  for cache in (1, 2, 4):
    for kind in ("numpy", "count"):
      ops = [{"op": "open", "s": 0, "cache": cache, "strict": 1, "full": 1},
             {"op": "map", "s": 0, "r": 1}, {"op": "map", "s": 0, "r": 2},
             {"op": "map", "s": 1, "r": 3}, {"op": "map", "s": 0, "r": 4},
             {"op": "map", "s": 1, "r": 5}, {"op": "map", "s": 3, "r": 6},
             {"op": "map", "s": 6, "r": 7}]
      for how in ("jit", "eager"):
        scns.append({"id": f"map-{kind}-{cache}-{how}", "n": 9, "mb": 2,
                     "loaders": [{"type": kind}], "mode": how, "ops": ops})
  # Devices and threads working on replicas of a state
  for k in (2, 3):
    for strict in (0, 1):
      for cache in (1, 2):
        ops = [{"op": "open", "s": 0, "cache": cache, "strict": strict},
               {"op": "open", "s": 1, "cache": 1, "strict": strict}]
        ids = [0] * k
        for i in range(4):
          rs = [100 * (i + 1) + j for j in range(k)]
          ops.append({"op": "pmap", "ss": ids, "rs": rs})
          ids = rs
        ops += [{"op": "devcount", "s": 0, "k": kk} for kk in (1, 2, 3, 4, 5)]
        # one replica runs ahead of the others
        ops.append({"op": "scan", "s": 1, "r": 2, "steps": 3})
        # afterwards a state which has been refreshed by all replicas
        ops.append({"op": "acc", "s": 100, "r": 900, "dev": 1})
        ops.append({"op": "acc", "s": 100, "r": 901, "dev": 1})
        scns.append({"id": f"pmap-{k}-{strict}-{cache}", "n": 23, "mb": 2,
                     "loaders": [dict(LOADERS[1])], "mode": "jit", "ops": ops})
  for how in ("jit", "eager"):
    for strict in (0, 1):
      for dev, users in ((1, 2), (2, 2), (3, 3), (1, 4)):
        ops = [{"op": "open", "s": 0, "cache": 1, "strict": strict},
               {"op": "acc", "s": 0, "r": 1, "dev": 1}]
        s = 1
        for i in range(3 if q else 8):
          rs = [100 * (i + 1) + j for j in range(users)]
          ops.append({"op": "threads", "ss": [s] * users, "rs": rs, "dev": dev})
          # continue with a state known to be the newest
          ops.append({"op": "open", "s": 1000 + i, "cache": 1, "strict": strict})
          ops.append({"op": "acc", "s": 1000 + i, "r": 2000 + i, "dev": 1})
          s = 2000 + i
        scns.append({"id": f"thr-{how}-{strict}-{dev}-{users}", "n": 23,
                     "mb": 2, "mode": how,
                     "loaders": [dict(LOADERS[1], delay=0.02)], "ops": ops})
  chk.conform("BatchAccessTrace", vlib.Driver("d_access", procs=6, devices=4),
              scns)
