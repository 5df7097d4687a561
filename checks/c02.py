"""C02: random mini-batches obey their sampling scheme."""
import vlib
from loader_common import MC, gen_ops
from common import rng


def run(chk):
  q = chk.quick
  for kind, n, mbs, pos in [("shuffle", 3, "{2}", 3), ("epoch", 3, "{2}", 2),
                            ("draw", 3, "{2}", 2)] if q else \
      [("shuffle", 3, "{1, 2, 3}", 5), ("shuffle", 4, "{2, 3}", 3),
       ("epoch", 3, "{1, 2, 3}", 3), ("epoch", 4, "{3}", 2),
       ("draw", 3, "{1, 2}", 3)]:
    chk.model_check("DataLoaderMC", MC.format(
      n=n, mbs=mbs, caches="{1}", kind=kind, seeds="{0}", pos=pos,
      handles="{0}", names="{}"), label=f"{kind} n={n}")
  scns = []
  # All small combinations of dataset and batch size
  for kind in ("draw", "shuffle", "epoch"):
    for n in (1, 2, 3, 4, 5, 7, 8, 10, 13) if q else range(1, 18):
      for mb in range(1, n + 1):
        cache = 1 + (n * mb) % 4
        draws = (3 * ((n + mb - 1) // mb) + 4 + cache) // cache
        ops = [{"op": "reg", "h": 0, "ld": 0, "kind": kind, "mb": mb,
                "cache": cache, "seed": -1}]
        ops += [{"op": "get", "h": 0}] * (draws * (1 if q else 4))
        scns.append({"id": f"{kind}-{n}-{mb}", "type": "ops", "n": n, "ops": ops})
  scns += gen_ops(chk, 15 if q else 100, 40, ("shuffle", "epoch", "draw"), 2)
  # Access under jit and on the device
  for kind, host, n, mb, cache, jit in [
      ("draw", 1, 7, 3, 2, 1), ("shuffle", 1, 7, 3, 4, 1),
      ("epoch", 1, 7, 3, 2, 1), ("epoch", 1, 10, 4, 5, 0),
      ("draw", 0, 7, 3, 1, 1), ("draw", 0, 5, 5, 1, 0), ("draw", 0, 9, 1, 1, 1)]:
    scns.append({"id": f"access-{kind}-{host}-{n}-{mb}-{cache}-{jit}",
                 "type": "access", "kind": kind, "host": host, "n": n,
                 "mb": mb, "cache": cache, "jit": jit,
                 "seeds": [3, -1, 3, 0], "draws": 14})
  for kind in ("draw", "shuffle", "epoch"):
    for n, mb, cache in ((7, 3, 4), (4, 4, 1), (9, 2, 3), (5, 1, 6)):
      scns.append({"id": f"hdf5-{kind}-{n}-{mb}-{cache}", "type": "access", "kind": kind,
                   "host": 1, "loader": "hdf5", "n": n, "mb": mb, "cache": cache,
                   "jit": 1, "seeds": [3, -1, 3, 0], "draws": 12})
  # Large datasets (positions beyond the range of small integer types)
  for kind, host in (("draw", 1), ("shuffle", 1), ("epoch", 1), ("draw", 0)):
    scns.append({"id": f"large-{kind}-{host}", "type": "access", "kind": kind, "host": host, "n": 300,
                 "mb": 130, "cache": 2 if host else 1, "jit": 1, "seeds": [3], "draws": 5})
    for n, mb, loader in ((700, 90, "numpy"), (33000, 11500, "numpy"), (70000, 30000, "numpy"), (500, 300, "hdf5"), (1500, 700, "hdf5")):
      ld = ("host" if loader == "numpy" else "hdf5") if host else "device"
      scns.append({"id": f"windows-{kind}-{ld}-{n}", "type": "windows", "kind": kind, "loader": ld, "n": n, "mb": mb,
                   "cache": 2})
  for i, what in enumerate(("draw", "device", "shuffle", "epoch")):
    for n, mb, cache, seed in [(6, 2, 4, 1), (9, 9, 2, 2), (5, 3, 1, 12)]:
      scns.append({"id": f"stats-{what}-{n}-{mb}", "type": "stats", "n": n,
                   "what": what, "mb": mb, "cache": cache,
                   "seed": seed + chk.seed,
                   "total": 1800 if what != "shuffle" else 40 * n})
  for ld, n, mb, per in (("host", 132, 44, 40), ("device", 132, 44, 40), ("device", 44, 44, 60), ("hdf5", 132, 66, 40),
                         ("host", 1000, 500, 40), ("device", 1000, 1000, 40)):
    scns.append({"id": f"coverage-{ld}-{n}", "type": "coverage", "loader": ld, "n": n, "mb": mb, "cache": 1 if ld == "device" else 8,
                 "seed": 5 + chk.seed, "total": per * n})
  reqs = []
  for n in (1, 4):
    for mb in (-1, 0, 1, 3, 4, 5, 9):
      for cache in (-1, 0, 1, 2):
        for host in (0, 1):
          for sh, ep in ((0, 0), (0, 1), (1, 0), (1, 1)):
            if not host and (sh or ep):
              continue
            reqs.append(dict(api="random_reference_data", n=n, mb=mb,
                             cache=cache, host=host, shuffle=sh, epochs=ep))
    for mb in (1, 2, 4, 5, 9):
      for sh, ep in ((0, 0), (0, 1), (1, 0), (1, 1)):
        reqs.append(dict(api="register", n=n, mb=mb, cache=1, host=1,
                         shuffle=sh, epochs=ep))
      reqs.append(dict(api="register_ordered", n=n, mb=mb, cache=2, host=1,
                       shuffle=0, epochs=0))
      for host in (0, 1):
        for api in ("full_reference_data", "full_data_mapper"):
          reqs.append(dict(api=api, n=n, mb=mb, cache=1, host=host, shuffle=0,
                           epochs=0))
  for i in range(0, len(reqs), 20):
    scns.append({"id": f"req-{i}", "type": "requests", "n": 0,
                 "requests": reqs[i:i + 20]})
  tf = [{"id": f"tf-{n}-{mb}-{cache}-{buf}", "type": "tf", "n": n, "mb": mb,
         "cache": cache, "buf": buf, "seed": chk.seed + i, "chains": 2,
         "draws": 12}
        for i, (n, mb, cache, buf) in enumerate(((7, 3, 2, 4), (5, 1, 3, 1), (12, 5, 1, 100), (9, 2, 2, 3)))]
  chk.conform("DataLoaderTrace", vlib.Driver("d_loader", procs=6), scns + tf)
