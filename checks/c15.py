"""C15: potentials weight every observation once, add the prior once."""
import vlib
from common import rng

MC = """SPECIFICATION MSpec
CONSTANTS MaxN = {n} Vals = {{{vals}}} PriorV = 3 Variant = "{v}"
INVARIANTS FullSum EachBatchOnce Unbiased
CHECK_DEADLOCK FALSE
"""


def scenario(r, i, quick, pmap):
  N = r.choice((1, 2, 3, 4, 5, 6, 7, 8) if quick else range(1, 15))
  stateful = int(r.random() < .5)
  s = {"id": f"{'pmap' if pmap else 'pot'}-{i}", "stateful": stateful,
       "e": int(stateful and r.random() < .5), "shape": r.randrange(2),
       "rows": [[r.randrange(-3, 4), r.randrange(-3, 4)] for _ in range(N)],
       "c": r.choice((0, 0.5, 1.0)), "q": r.choice((0, 0.5, 1.0)),
       "g": r.choice((0, 1.0, -2.5)), "temp": r.choice((1.0, 1.0, 0.5, 2.0, 4.0)),
       "tree": r.randrange(4), "host": r.randrange(2), "also": r.choice(("map", "vmap")),
       "ops": []}
  dy = lambda: r.randrange(-6, 7) / 4
  mx = max(1, min(N, 4))
  for k in range(5):
    w = [dy(), dy()]
    if pmap or k < 3:
      n = r.choice((1, 1, 2, 3, 4, 5))
      src = r.choice(("given", "given", "data"))
      if src == "data":
        n = min(n, N)
      strategy = r.choice(("pmap",) if pmap and k < 3 else ("map", "vmap", "batched"))
      if strategy == "pmap":
        n = min(n, 3)
      mask = None
      if r.random() < .5:
        mask = [int(r.random() < .6) for _ in range(n)]
        if not any(mask):
          mask[r.randrange(n)] = 1
      s["ops"].append({"op": "mini", "w": w, "m": r.randrange(17), "n": n, "src": src,
                       "idx": [r.randrange(N) for _ in range(n)], "nn": r.choice((N, 10, 2 * n + 1)),
                       "mask": mask, "fmask": r.randrange(2), "liks": r.randrange(2),
                       "grad": r.randrange(2), "jit": r.randrange(2), "strategy": strategy})
    else:
      mb = r.randrange(1, mx + 1) if stateful else r.randrange(1, N + 1)
      s["ops"].append({"op": "full", "w": w, "m": r.randrange(17), "mb": mb,
                       "cache": r.choice((1, 2, 3, 7)), "api": r.choice(("map", "mapper")),
                       "jit": r.randrange(2), "grad": r.randrange(2), "over": int(r.random() < .3),
                       "strategy": r.choice(("map", "vmap", "batched"))})
      if r.random() < .5:
        # The same sweep again
        s["ops"].append(dict(s["ops"][-1], w=[dy(), dy()], m=r.randrange(17)))
  return s


def run(chk):
  q = chk.quick
  chk.model_check("PotentialMC", MC.format(n=5 if q else 6, vals="0, 1, 3", v="none"),
                  label="sweeps over all small datasets")
  for v in ("mean", "nomask", "priorbatch", "noundo"):
    chk.refute("PotentialMC", MC.format(n=3, vals="0, 1", v=v), "FullSum is violated", label=v)
  r = rng(chk, "c15")
  scns = [scenario(r, i, q, False) for i in range(96 if q else 700)]
  chk.conform("PotentialTrace", vlib.Driver("d_pot", procs=8), scns, label="potentials")
  scns = [scenario(r, i, q, True) for i in range(16 if q else 80)]
  # One device for each observation
  for n in (1, 2, 3):
    sub = []
    for s in scns:
      s2 = dict(s, id=f"{s['id']}-{n}")
      s2["ops"] = [o for o in s["ops"] if o["op"] == "full" or o["strategy"] != "pmap" or o["n"] == n]
      if any(o["strategy"] == "pmap" for o in s2["ops"]):
        sub.append(s2)
    if sub:
      chk.conform("PotentialTrace", vlib.Driver("d_pot", devices=n, procs=3), sub,
                  label=f"{n} devices")
