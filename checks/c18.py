"""C18: Chains are isolated: results do not depend on what runs next to them."""
import vlib
from common import rng

MC = """SPECIFICATION MSpec
CONSTANTS C = {c} N = {n} Mod = {m} Variant = "{v}"
INVARIANTS Isolated Inverse
CHECK_DEADLOCK FALSE
"""


def run_scenarios(chk, num, device):
  r = rng(chk, f"c18{device}")
  out = []
  solvers = ("sgld", "amagold", "sghmc", "sggmc", "obabo", "re")
  for i in range(num):
    kind = solvers[i % 6]
    C = r.choice((2, 2, 3, 4))
    order = list(range(C))
    r.shuffle(order)
    if r.random() < .3:
      order = order[:max(1, C - 1)]
    if device and r.random() < .2:
      order.append(order[0])            # the same chain twice
    s = {"mode": "runs", "solver": kind, "device": device, "chains": C, "order": order,
         "obs": r.choice((5, 6, 8)), "bs": r.choice((1, 2, 3)), "cache": r.choice((1, 2, 3)),
         "rd": {}, "mstate": r.randrange(2), "pot": r.choice(("vmap", "map")),
         "adapt": r.randrange(2), "diag": r.randrange(2), "adaptive": 0,
         "burn": r.choice((0, 0, 3)), "sel": r.choice((0, 0, 5)), "save": r.randrange(2),
         "seed": r.randrange(1 << 20), "bad": -1, "badkind": r.randrange(2),
         "keys": r.choice((1, 1, 0)), "its": 14,
         "strategy": ("vmap", "pmap")[(i // 6) % 2] if device else "map"}
    if kind in ("amagold", "sggmc"):
      s["adaptive"] = r.randrange(2)
    if len(order) > 1 and r.random() < .3 and order.count(order[0]) == 1:
      s["bad"] = order[0]
    s["id"] = f"runs-{'dev' if device else 'host'}-{kind}-{s['strategy']}-{i}"
    out.append(s)
  return out


def list_scenarios(chk, num):
  r = rng(chk, "c18list")
  out = []
  for i in range(num):
    n = 12 if i % 9 == 0 else 300 if i % 40 in (7, 15, 23) else r.choice((1, 2, 3, 4))
    k = r.choice((1, 2, 3))
    s = {"id": f"list-{i}", "mode": "lists", "n": n, "seed": r.randrange(1 << 20),
         "tree": r.randrange(5), "np": r.randrange(2), "pmap": r.randrange(2) if n < 6 else 0,
         "fn": ("stack", "unstack", "id", "aff", "sum", "rev", "dup")[i % 7],
         "shapes": [r.choice(([], [1], [2], [3], [2, 2], [1, 3], [4])) for _ in range(k)]}
    s["dts"] = [r.choice("ifub" if s["fn"] not in ("aff", "sum", "dup") else "if") for _ in range(k)]
    if n > 1 and i % 7 in (0, 2, 5) and r.random() < .5:
      s.update(mix=1, dts=[r.choice("if") for _ in range(k)])
    out.append(s)
  return out


def run(chk):
  q = chk.quick
  chk.model_check("ChainsMC", MC.format(c=2 if q else 3, n=3 if q else 2, m=4, v="none"), label="interleavings")
  for v, inv in (("stream", "Isolated"), ("state", "Isolated"), ("order", "Isolated"), ("columns", "Inverse")):
    chk.refute("ChainsMC", MC.format(c=2, n=2, m=4, v=v), f"Invariant {inv} is violated", label=v)
  d = lambda p: vlib.Driver("d_chains", procs=p, devices=5)
  chk.conform("ChainsTrace", d(8), run_scenarios(chk, 24 if q else 240, 1), label="runs, device data")
  chk.conform("ChainsTrace", d(8), run_scenarios(chk, 12 if q else 120, 0), label="runs, host data")
  r = rng(chk, "c18many")
  many = []
  for i, s in enumerate(run_scenarios(chk, 12 if q else 36, 1)[::2]):      # more than ten chains
    C = 12
    order = list(range(C))
    r.shuffle(order)
    many.append(dict(s, id=f"many-{i}", chains=C, order=order, strategy=("vmap", "map")[i % 2],
                     bad=-1, its=6, burn=0, sel=0))
  chk.conform("ChainsTrace", d(8), many, label="many chains")
  chk.conform("ChainsTrace", d(4), list_scenarios(chk, 112 if q else 1400), label="lists of trees")
  chk.conform("ChainsTrace", d(1), [{"id": "uuid", "mode": "uuid", "n": 30 if q else 300}],
              label="identifiers")
