"""Driver for several chains in one run, list maps and identifiers (C18)."""
import zlib
from functools import partial

import numpy as onp
import jax
import jax.numpy as jnp
from jax import random, tree_util

import drv
from num import fx, fxs
from trees import Reg, nt_type


def make(scn):
  """Solver, scheduler and initial states; everything is created anew, so that
  runs with host data start from equal states of the data loader."""
  from jax_sgmc import (adaption, data, integrator, io, potential, scheduler,
                        solver)
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  N = scn["obs"]
  x = onp.linspace(-1, 1, N)
  y = onp.cos(3 * x)
  Loader = DeviceNumpyDataLoader if scn["device"] else NumpyDataLoader
  loader = Loader(x=x, y=y)
  cs = 1 if scn["device"] else scn["cache"]
  rd = data.random_reference_data(loader, cs, scn["bs"], **scn["rd"])
  with_state = scn["mstate"]
  prior = lambda s: -0.5 * (s["w"] @ s["w"]) - 0.5 * s["b"] ** 2
  mean = lambda s, o: s["w"][0] * o["x"] + s["w"][1] * o["x"] ** 2 + s["b"]
  if with_state:
    def lik(st, s, o):
      return -2.0 * (mean(s, o) - o["y"] - 0.1 * st["z"]) ** 2, {"z": 0.9 * st["z"] + 0.1}
  else:
    lik = lambda s, o: -2.0 * (mean(s, o) - o["y"]) ** 2
  kw = {"has_state": True} if with_state else {}
  stoch = potential.minibatch_potential(prior, lik, strategy=scn["pot"], **kw)
  kind = scn["solver"]
  mst = lambda k: {"z": jnp.float32(k)} if with_state else None
  init_kw = lambda k: {"init_model_state": mst(k)}
  if kind in ("amagold", "sggmc"):
    fullp = potential.full_potential(prior, lik, strategy=scn["pot"], **kw)
    fd = data.full_reference_data(loader, 1 if scn["device"] else 2, 3)
    mass = adaption.mass_matrix(diagonal=bool(scn["diag"]), burn_in=4) if scn["adapt"] else None
    if kind == "amagold":
      integ = integrator.reversible_leapfrog(stoch, rd, steps=2, friction=0.4)
      triple = solver.amagold(integ, fullp, fd, mass_adaption=mass)
    else:
      integ = integrator.obabo(stoch, rd, steps=2, friction=0.4)
      triple = solver.sggmc(integ, fullp, fd, mass_adaption=mass)
  elif kind == "re":
    integ = integrator.langevin_diffusion(stoch, rd, adaption.rms_prop() if scn["adapt"] else None)
    triple = solver.parallel_tempering(integ)
  elif kind == "sgld":
    triple = solver.sgmc(integrator.langevin_diffusion(
      stoch, rd, adaption.rms_prop() if scn["adapt"] else None))
  elif kind == "sghmc":
    triple = solver.sgmc(integrator.friction_leapfrog(stoch, rd, steps=3, friction=0.5))
  else:
    triple = solver.sgmc(integrator.obabo(stoch, rd, steps=2, friction=0.5))
  if scn["adaptive"]:
    step = scheduler.adaptive_step_size(burn_in=6, initial_step_size=0.05,
                                        target_acceptance_rate=0.5, speed_constant=1.0)
  else:
    step = scheduler.polynomial_step_size_first_last(0.05, 0.02)
  burn = scheduler.initial_burn_in(scn["burn"])
  thin = None
  if scn["sel"]:
    thin = scheduler.random_thinning(
      scheduler.polynomial_step_size_first_last(0.05, 0.02), burn, scn["sel"])
  sched = scheduler.init_scheduler(step, burn_in=burn, thinning=thin, progress_bar=False)
  mk_saving = lambda: {0: lambda: None, 1: lambda: io.save(io.MemoryCollector()),
                       }[scn["save"]]()

  def pos(k):
    w = onp.random.RandomState(scn["seed"] + k).randn(3).astype(onp.float32)
    if k == scn["bad"]:
      w = onp.array([onp.nan, onp.inf, 0.0], onp.float32) if scn["badkind"] else \
        onp.array([3e19, -3e19, 1e30], onp.float32)
    return {"w": jnp.array(w[:2]), "b": jnp.array(w[2])}

  def state(k):
    kw = init_kw(0.25 * k)
    if scn["keys"]:
      kw["key"] = random.PRNGKey(scn["seed"] + k)
    if kind == "re":
      return triple[0](pos(k), pos(k + 50), **kw)
    return triple[0](pos(k), **kw)
  runner = lambda strategy: solver.mcmc(triple, sched, strategy=strategy, saving=mk_saving())
  schedulers = [{"temperature": {"tau": 5.0}}] if kind == "re" else None
  return runner, state, partial(dict, iterations=scn["its"], schedulers=schedulers)


def encode(res, bad=False):
  smp = res["samples"]
  leaves = [onp.asarray(a) for a in tree_util.tree_leaves(smp)]
  h = 0
  for a in leaves:
    h = zlib.crc32(a.tobytes(), h)
  d = []
  if not bad:
    for a in tree_util.tree_leaves(smp["variables"]):
      d += fxs(onp.ravel(onp.asarray(a, onp.float64)))
  return {"d": d, "hash": h % (1 << 30), "n": int(res["sample_count"])}


def runs(scn, tr):
  C, order = scn["chains"], scn["order"]
  kw = None
  def fresh(strategy, states=None):
    runner, state, kw = make(scn)
    return runner(strategy), [state(k) for k in range(C)] if states is None else states, kw()
  if scn["device"]:
    runner, state, kw = make(scn)
    kw = kw()
    states = [state(k) for k in range(C)]
    alone = runner("map")
    for k in range(C):
      tr("alone", **encode(alone(states[k], **kw)[0], k == scn["bad"]))
    for strat, exact in (("map", 1), (scn["strategy"], int(scn["strategy"] == "map"))):
      res = runner(strat)(*[states[k] for k in order], **kw)
      tr("run", res=[encode(r, k == scn["bad"]) for r, k in zip(res, order)], exact=exact,
         order=[0 if k == scn["bad"] else k + 1 for k in order])
    # Repetition with the same function
    again = alone(*[states[k] for k in reversed(order)], **kw)
    tr("run", res=[encode(r, k == scn["bad"]) for r, k in zip(again, reversed(order))], exact=1,
       order=[0 if k == scn["bad"] else k + 1 for k in reversed(order)])
  else:
    # The states of the data loader are created in the same order
    for k in range(C):
      run, states, kw = fresh("map")
      tr("alone", **encode(run(states[k], **kw)[0], k == scn["bad"]))
    run, states, kw = fresh("map")
    res = run(*[states[k] for k in order], **kw)
    tr("run", res=[encode(r, k == scn["bad"]) for r, k in zip(res, order)], exact=1,
       order=[0 if k == scn["bad"] else k + 1 for k in order])


def tree_kind(kind, leaves):
  a = leaves
  if kind == 0:
    return {"a": a[0], "b": a[1:]}
  if kind == 1:
    return tuple(a)
  if kind == 2:
    return nt_type(["z", "y"])(a[0], {"q": a[1:], "n": None})
  if kind == 3:
    return Reg(["u", "v"], [a[0], list(a[1:])])
  return [[x] for x in a]


DT = {"i": jnp.int32, "f": jnp.float32, "u": jnp.uint32, "b": jnp.bool_}


def lists(scn, tr):
  from jax_sgmc import util
  r = onp.random.RandomState(scn["seed"])
  shapes, dts, n, fn = scn["shapes"], scn["dts"], scn["n"], scn["fn"]
  def leaf(sh, dt):
    v = r.randint(0, 2 if dt == "b" else 50, size=sh)
    return onp.asarray(v, DT[dt]) if scn["np"] else jnp.asarray(v, DT[dt])
  ts = [tree_kind(scn["tree"], [leaf(s, d) for s, d in zip(shapes, dts)]) for _ in range(n)]
  mix = scn.get("mix", 0)
  if mix:
    # Leaves of different types, all values are multiples of 1/4
    for i in range(1, n):
      dts[:] = [r.choice(list("if")) for _ in dts]
      ts[i] = tree_kind(scn["tree"], [leaf(s, d) / 4 if d == "f" else leaf(s, d)
                                      for s, d in zip(shapes, dts)])
  enc = lambda t: [{"sh": list(onp.shape(x)), "d": [int(v * (4 if mix else 1)) for v in onp.ravel(onp.asarray(x))]}
                   for x in tree_util.tree_leaves(t)]
  def f(t):
    x, d = tree_util.tree_flatten(t)
    x = [jnp.asarray(v) for v in x]
    if fn == "aff":
      return d.unflatten([3 * v + 1 for v in x])
    if fn == "sum":
      return {"s": sum(jnp.sum(v) for v in x)}
    if fn == "rev":
      return tuple(reversed(x))
    if fn == "dup":
      return (x, jnp.stack([jnp.ravel(x[0])[0], jnp.ravel(x[-1])[0]]))
    return t
  before = [enc(t) for t in ts]
  if fn in ("stack", "unstack"):
    st = util.pytree_list_to_leaves(ts)
    if fn == "stack":
      out, ref, inp = [st], [ts[0]], ts
    else:
      inp, out = [st], util.pytree_leaves_to_list(st)
      ref = ts
  else:
    mapper = util.list_pmap if scn["pmap"] else util.list_vmap
    out = mapper(f)(*ts)
    ref, inp = [f(t) for t in ts], ts
  ok = all(tree_util.tree_structure(a) == tree_util.tree_structure(b)
           and all(mix or onp.asarray(u).dtype == onp.asarray(v).dtype
                   for u, v in zip(tree_util.tree_leaves(a), tree_util.tree_leaves(b)))
           for a, b in zip(out, ref))
  ok = ok and [enc(t) for t in ts] == before
  tr("list", fn=fn, out=[enc(t) for t in out], same=int(ok), **{"in": [enc(t) for t in inp]})


def uuids(scn, tr):
  from jax.experimental import host_callback as hcb
  from jax_sgmc.util.uuid import JaxUUID
  words = lambda u: [[int(w) >> 16, int(w) & 0xFFFF] for w in onp.asarray(u.as_int32s, onp.uint32)]
  text = lambda u: [int(u.as_uuid.hex[4 * k:4 * k + 4], 16) for k in range(8)]
  pool = [JaxUUID() for _ in range(scn["n"])]
  edge = [JaxUUID(ints=jnp.array(v, jnp.uint32)) for v in
          ([0, 0, 0, 0], [1, 0, 0, 0], [0, 0, 0, 1], [2 ** 32 - 1] * 4, [0, 2 ** 31, 5, 0],
           [7, 6, 5, 2 ** 28])]
  seen = []
  for u in pool + edge:
    ways = [u, jax.jit(lambda v: v)(u), jax.device_put(u)]
    ways.append(tree_util.tree_unflatten(*reversed(tree_util.tree_flatten(u))))
    from jax_sgmc import util
    many = util.pytree_list_to_leaves([pool[0], u, pool[-1]])
    ways.append(util.pytree_leaves_to_list(many)[1])
    ways.append(util.list_vmap(lambda v: v)(pool[0], u)[1])
    ways.append(util.list_pmap(lambda v: v)(u, pool[0])[0])
    ways.append(jax.lax.scan(lambda c, _: (c, None), u, jnp.arange(2))[0])
    got = []
    jax.jit(lambda v: hcb.id_tap(lambda a, _: got.append(a), v))(u)
    jax.effects_barrier()
    hcb.barrier_wait()
    ways += got
    got2 = jax.jit(lambda v: hcb.call(lambda a: a, v, result_shape=v))(u)
    ways.append(got2)
    texts = {str(text(w)) for w in ways}
    tr("uuid", words=[words(w) for w in ways], text=text(u) if len(texts) == 1 else [-1],
       fresh=int(u in pool))
  return


def handler(scn, tr, tmp):
  tr.cfg = {"mode": scn["mode"]}
  {"runs": runs, "lists": lists, "uuid": uuids}[scn["mode"]](scn, tr)
  return tr.cfg


if __name__ == "__main__":
  drv.main(handler)
