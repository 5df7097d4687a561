"""C06: concurrent and nested full-data mappings do not interfere."""
import vlib
from common import rng

MC = """SPECIFICATION MSpec
CONSTANTS Threads = {threads} Nested = {nested} NN = {n} MB = {mb} MaxMaps = {maps} Atomic = {atomic}
INVARIANTS Exclusive Partition NoSurplus AllReusable
{live}
CHECK_DEADLOCK FALSE
"""


def run(chk):
  q = chk.quick
  chk.model_check("MapperPoolMC", MC.format(
    threads="{0, 1}", nested="{0}", n=2, mb=1, maps=4, atomic="TRUE",
    live="PROPERTIES Finishes"), label="2 threads, nested")
  if not q:
    chk.model_check("MapperPoolMC", MC.format(
      threads="{0, 1, 2}", nested="{0, 1}", n=3, mb=2, maps=5, atomic="TRUE",
      live=""), label="3 threads, nested")
    chk.model_check("MapperPoolMC", MC.format(
      threads="{0, 1, 2}", nested="{}", n=2, mb=1, maps=4, atomic="TRUE",
      live="PROPERTIES Finishes"), label="3 threads, liveness")
  chk.refute("MapperPoolMC", MC.format(
    threads="{0, 1}", nested="{}", n=2, mb=1, maps=3, atomic="FALSE", live=""),
    "Invariant Exclusive is violated", label="pool without lock")
  r = rng(chk, "c06")
  scns = []

  def add(name, n, mb, cache, device, ops):
    scns.append({"id": name, "n": n, "mb": mb, "cache": cache,
                 "device": device, "ops": ops})

  # repeated and nested
  for i, (n, mb, cache) in enumerate([(7, 3, 2), (4, 2, 1), (5, 5, 1), (3, 1, 4),
                                      (6, 4, 3), (8, 3, 7)]):
    for device in (0, 1):
      ops = []
      for depth in (0, 1, 0, 2 if n < 6 else 1, 0, 1):
        ops.append({"op": "run", "kind": r.randrange(4), "depth": depth,
                    "how": r.choice(("jit", "eager"))})
      add(f"nest-{n}-{mb}-{cache}-{device}", n, mb, cache, device, ops)
  # not vectorized
  for n, mb, cache in [(7, 3, 2), (4, 1, 1), (4, 4, 2), (5, 2, 3), (1, 1, 1)]:
    for device in (0, 1):
      ops = []
      for carry in ("int", "none", "dict", "array", "tuple", "float"):
        for info in (0, 1):
          if q and (info and carry in ("array", "float", "none")):
            continue
          ops.append({"op": "unbatched", "carry": carry, "info": info,
                      "how": r.choice(("jit", "eager"))})
      ops.append({"op": "run", "kind": 2, "depth": 0, "how": "jit"})
      ops.append({"op": "badmask"})
      add(f"unb-{n}-{mb}-{cache}-{device}", n, mb, cache, device, ops)
  # threads, with all kinds of schedules
  for i in range(14 if q else 80):
    n, mb, cache = r.choice([(7, 3, 2), (4, 2, 1), (5, 2, 5), (6, 2, 2), (3, 3, 1)])
    T = r.choice((2, 2, 3, 4))
    ops = []
    for _ in range(2):
      jobs = [{"kind": r.randrange(4), "depth": r.choice((0, 0, 0, 1)),
               "how": "jit" if r.random() < .6 else "eager",
               "times": r.choice((1, 1, 2, 3))} for _ in range(T)]
      if r.random() < .4:
        jobs = [dict(jobs[0]) for _ in range(T)]
      order = []
      if r.random() < .8:
        K = -(-n // mb)
        order = [x for x in range(T) for _ in range(K)]
        r.shuffle(order)
        if r.random() < .3:
          order = [x for _ in range(K) for x in range(T)]
      ops.append({"op": "threads", "jobs": jobs, "order": order})
    ops.append({"op": "run", "kind": 1, "depth": 0, "how": "jit"})
    add(f"thr-{i}", n, mb, cache, 1 if i % 7 == 6 else 0, ops)
  chk.conform("MapperPoolTrace", vlib.Driver("d_mapper", procs=6), scns)
