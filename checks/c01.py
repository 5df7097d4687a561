"""C01: a full-data sweep visits every observation exactly once, in order."""
import vlib
from common import rng

MC = """SPECIFICATION MSpec
CONSTANTS MaxN = {n} MaxCache = {c} NLanes = {l}
INVARIANTS InOrder Complete
CHECK_DEADLOCK FALSE
"""


def run(chk):
  q = chk.quick
  chk.model_check("FullMapMC", MC.format(n=8 if q else 12, c=6 if q else 10, l=1),
                  label="1 state")
  chk.model_check("FullMapMC", MC.format(n=4 if q else 6, c=3, l=2),
                  label="2 states")
  r = rng(chk, "c01")
  scns = []
  combos = [(n, mb) for n in range(1, 9 if q else 15) for mb in range(1, n + 1)]
  if not q:
    combos += [(23, 5), (30, 7), (31, 31), (32, 6), (19, 18)]
  for n, mb in combos:
    K = -(-n // mb)
    for host in (1, 0):
      for api in ("map", "mapper"):
        if q and r.random() < (.35 if api == "map" else .6):
          continue
        ops = []
        nl = 1
        if api == "map":
          nl = r.choice((1, 2, 3))
          for a in range(nl):
            off = 0 if host or a == 0 and r.random() < .3 else r.randrange(n)
            ops.append({"op": "lane", "a": a, "off": off})
        # a few kinds of functions, to limit the number of compilations
        kinds = [dict(masking=r.randrange(2), info=r.randrange(2),
                      style=r.randrange(2), jit=r.choice((0, 1, 1)))
                 for _ in range(2)]
        kinds[1]["masking"] = 1 - kinds[0]["masking"]
        for _ in range(5 if q else 9):
          ops.append(dict(op="sweep", a=r.randrange(nl), **r.choice(kinds)))
        cache = r.choice([1, 2, 3, K, K + 1, max(1, K - 1), 2 * K + 1])
        scns.append({"id": f"{api}-{n}-{mb}-{'host' if host else 'dev'}-{cache}",
                     "api": api, "n": n, "mb": mb, "cache": cache,
                     "host": host, "ops": ops})
  # Every cache size for some sweeps
  for n, mb in ((7, 3), (10, 4), (6, 2)):
    for cache in range(1, 9 if q else 16):
      kinds = [dict(masking=1, info=1, style=0, jit=1),
               dict(masking=0, info=1, style=1, jit=1)]
      ops = [{"op": "lane", "a": 0}] + [
        dict(op="sweep", a=0, **kinds[i % 2]) for i in range(6)]
      scns.append({"id": f"cache-{n}-{mb}-{cache}", "api": "map", "n": n,
                   "mb": mb, "cache": cache, "host": 1, "ops": ops})
  for n, mb in ((7, 3), (5, 5), (10, 4), (6, 2), (9, 1)):
    for off in sorted({0, 1, n // 2, n - 1}):
      ops = [{"op": "lane", "a": 0, "off": off}] + [
        dict(op="sweep", a=0, masking=i % 2, info=1, style=0, jit=1)
        for i in range(5)]
      scns.append({"id": f"offset-{n}-{mb}-{off}", "api": "map", "n": n,
                   "mb": mb, "cache": 1, "host": 0, "ops": ops})
  # Large datasets
  for host in (1, 0):
    for n, mb, cache in ((300, 70, 3), (270, 128, 2)):
      for api in ("map", "mapper"):
        scns.append({"id": f"large-{api}-{n}-{host}", "api": api, "n": n, "mb": mb, "cache": cache if host else 1,
                     "host": host, "ops": ([{"op": "lane", "a": 0, "off": 0}] if api == "map" else []) + [
                       dict(op="sweep", a=0, masking=i % 2, info=1, style=0, jit=1) for i in range(2)]})
  # Many states of one source
  ops = [{"op": "lane", "a": a, "off": 0} for a in range(140)] + [
    dict(op="sweep", a=a, masking=1, info=1, style=0, jit=1) for a in (139, 128, 0, 64, 11, 127, 139, 63, 75, 0)]
  scns.append({"id": "states-140", "api": "map", "n": 5, "mb": 2, "cache": 2, "host": 1, "ops": ops})
  # Data read from HDF5 files
  for n, mb in ((7, 3), (1, 1), (5, 2), (8, 3), (10, 7), (6, 2)) if q else combos:
    for cache in (1, 3, 5) if q else (1, 2, 3, 5, 8):
      ops = [{"op": "lane", "a": a} for a in range(2)] + [
        dict(op="sweep", a=r.randrange(2), masking=i % 2, info=1, style=0, jit=i // 2 % 2)
        for i in range(5)]
      for api in ("map", "mapper"):
        if r.random() < .5:
          continue
        scns.append({"id": f"hdf5-{api}-{n}-{mb}-{cache}", "api": api, "n": n, "mb": mb,
                     "cache": cache, "host": 1, "loader": "hdf5",
                     "ops": ops if api == "map" else [dict(o, a=0) for o in ops[2:]]})
  chk.conform("FullMapTrace", vlib.Driver("d_fullmap", procs=8), scns)
  big = [{"id": f"windows-{ld}-{n}", "type": "windows", "kind": "ordered", "loader": ld, "n": n, "mb": mb, "cache": c}
         for ld in ("host", "device") for n, mb, c in ((300, 70, 2), (33000, 11500, 2), (70000, 30000, 1), (66000, 512, 100))]
  big.append({"id": "windows-hdf5", "type": "windows", "kind": "ordered", "loader": "hdf5", "n": 700, "mb": 300, "cache": 2})
  big += [{"id": f"sweeps-{ld}-{api}-{n}", "type": "sweeps", "loader": ld, "api": api, "n": n, "mb": mb,
           "cache": c if ld == "host" else 1}
          for ld in ("host", "device") for api in ("map", "mapper")
          for n, mb, c in ((5000, 130, 7), (33000, 6500, 2), (70000, 512, 40), (310, 1, 300))]
  chk.conform("DataLoaderTrace", vlib.Driver("d_loader", procs=4), big, label="large")
