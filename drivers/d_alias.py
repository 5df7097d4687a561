"""Driver for the predefined samplers (C19): the sampler is run with arguments
generated from Alias.tla and compared with the composition of components which
the specification requests."""
import inspect

import numpy as onp
import jax
import jax.numpy as jnp
from jax import tree_util

import drv
from num import fx, fxs


def squash(v):
  """Values of diverging chains within the range of the fixed point numbers."""
  if onp.isnan(v):
    return 1020.0
  if abs(v) <= 500.0:
    return v
  return float(onp.sign(v) * (500.0 + min(5.0 * onp.log2(min(abs(v), 1e30) / 500.0), 500.0)))


def handler(scn, tr, tmp):
  from jax_sgmc import (adaption, alias, data, integrator, io, potential,
                        scheduler, solver)
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  a, c = scn["a"], scn["c"]
  m0 = 7 * a["mst"]
  tr.cfg = {"a": a, "c": c, "m0": m0}
  N = 7
  rs = onp.random.RandomState(a["seed"])
  X, Y = rs.rand(N), rs.rand(N)
  reg = []

  def loader():
    base = DeviceNumpyDataLoader if a["dev"] else NumpyDataLoader
    class Recording(base):
      def _rec(self, fn, *args, **kw):
        b = inspect.signature(fn).bind(*args, **kw)
        b.apply_defaults()
        if "mb_size" in b.arguments:
          reg.append([int(b.arguments.get("cache_size", -1)), int(b.arguments["mb_size"])])
        return fn(*args, **kw)
      def register_random_pipeline(self, *args, **kw):
        return self._rec(super().register_random_pipeline, *args, **kw)
      def register_ordered_pipeline(self, *args, **kw):
        return self._rec(super().register_ordered_pipeline, *args, **kw)
    return (DeviceNumpyDataLoader if a["dev"] else Recording)(x=X, y=Y)

  prior = lambda s: -0.5 * (s["w"] @ s["w"]) - 0.5 * s["b"] ** 2
  mean = lambda s, o: s["w"][0] * o["x"] + s["w"][1] * o["x"] ** 2 + s["b"]
  if a["mst"]:
    def lik(st, s, o):
      return (-2.0 * (mean(s, o) - o["y"] - 0.1 * st["z"]) ** 2,
              {"n": st["n"] + 1, "z": 0.9 * st["z"] + 0.1})
  else:
    lik = lambda s, o: -2.0 * (mean(s, o) - o["y"]) ** 2
  kw = {"has_state": True} if a["mst"] else {}
  strat = ("vmap", "map")[a["pot"]]
  stoch = potential.minibatch_potential(prior, lik, strategy=strat, **kw)
  fullp = potential.full_potential(prior, lik, strategy=strat, **kw)
  mst = {"n": jnp.array(m0), "z": jnp.float32(a["mst"])} if a["mst"] else None
  mh = a["name"] in ("amagold", "sggmc")
  masses = [None, {"w": jnp.array([2.0, 0.5]), "b": jnp.array(1.5)}]
  fr = a["fr"] / 16
  if a["name"] == "sghmc" and a["frtree"]:
    fr = {"w": jnp.array([fr, 2 * fr]), "b": jnp.array(1.5 * fr)}
  h0, h1 = a["h0"] / 4096, a["h1"] / 4096
  adp = dict(stabilization_constant=a["t0"], decay_constant=a["ka"] / 16,
             speed_constant=a["ga"] / 16, target_acceptance_rate=a["al"] / 16)
  alpha, lmbd = a["alpha"] / 16, a["lmbd"] / 1024
  samples = [{"w": jnp.array(rs.randn(2), jnp.float32), "b": jnp.float32(rs.randn())}
             for _ in range(2 * a["chains"])]
  inits = ([(samples[2 * k], samples[2 * k + 1]) for k in range(a["chains"])]
           if a["name"] == "re_sgld" else samples[:a["chains"]])

  def call(save, bar, cs):
    common = dict(cache_size=cs, batch_size=a["bs"], first_step_size=h0, last_step_size=h1,
                  burn_in=a["burn"], save_to_numpy=bool(save), progress_bar=bool(bar))
    acc = None if a["acc"] < 0 else a["acc"]
    if mh:
      common.update(integration_steps=a["steps"], mass=masses[a["mass"]],
                    adaptive_step_size=bool(a["ad"]), accepted_samples=acc, **adp)
      common["friction" if a["name"] == "amagold" else "friction_coefficient"] = fr
      return getattr(alias, a["name"])(stoch, fullp, loader(), **common)
    common["accepted_samples"] = acc
    if a["name"] == "sgld":
      common.update(rms_prop=bool(a["rms"]), alpha=alpha, lmbd=lmbd)
    elif a["name"] == "re_sgld":
      common.update(temperature=float(a["temp"]))
    else:
      common.update(integration_steps=a["steps"], mass=masses[a["mass"]], friction=fr)
      if a["name"] == "sghmc":
        common.update(adapt_noise_model=bool(a["noise"]), diagonal_noise=bool(a["diag"]))
    return getattr(alias, a["name"])(stoch, loader(), **common)

  def compose():
    """The sampler of Components(a)"""
    ld = loader()
    rd = data.random_reference_data(ld, c["cs"], c["bs"])
    i = c["integ"]
    mass = masses[i["mass"]]
    ikw = {}
    if i["kind"] == "langevin":
      integ = integrator.langevin_diffusion(
        stoch, rd, adaption=adaption.rms_prop() if i["adapt"] == "rms" else None)
      if c["solver"] == "sgmc":
        ikw["adaption_kwargs"] = {"alpha": i["alpha"] / 16, "lmbd": i["lmbd"] / 1024}
    elif i["kind"] == "reversible":
      integ = integrator.reversible_leapfrog(stoch, rd, i["steps"], fr, mass)
    elif i["kind"] == "obabo":
      integ = integrator.obabo(stoch, rd, i["steps"], fr, mass)
    else:
      noise = None
      if i["adapt"] != "none":
        noise = adaption.fisher_information(minibatch_potential=stoch,
                                            diagonal=i["adapt"] == "fisher-diag")
      integ = integrator.friction_leapfrog(stoch, rd, friction=fr, const_mass=mass,
                                           steps=i["steps"], noise_model=noise)
    if c["solver"] in ("amagold", "sggmc"):
      fd = data.full_reference_data(ld, c["cs"], c["bs"])
      triple = getattr(solver, c["solver"])(integ, fullp, fd)
    elif c["solver"] == "tempering":
      triple = solver.parallel_tempering(integ)
    else:
      triple = solver.sgmc(integ)
    s = c["step"]
    if s["kind"] == "adaptive":
      step = scheduler.adaptive_step_size(
        burn_in=s["burn"], initial_step_size=s["h0"] / 4096,
        stabilization_constant=s["t0"], decay_constant=s["ka"] / 16,
        speed_constant=s["ga"] / 16, target_acceptance_rate=s["al"] / 16)
    else:
      step = scheduler.polynomial_step_size_first_last(first=s["h0"] / 4096, last=s["h1"] / 4096)
    burn = scheduler.initial_burn_in(c["burn"])
    thin = None if c["sel"] < 0 else scheduler.random_thinning(step, burn, selections=c["sel"])
    sched = scheduler.init_scheduler(step, scheduler.constant_temperature(1.0), burn, thin,
                                     progress_bar=False)
    run = solver.mcmc(triple, sched, strategy="map")
    extra = [{"temperature": {"tau": float(c["hot"])}}] if c["solver"] == "tempering" else None
    states = [triple[0](*x, init_model_state=mst, **ikw) if isinstance(x, tuple)
              else triple[0](x, init_model_state=mst, **ikw) for x in inits]
    return run(*states, iterations=a["its"], schedulers=extra)

  def enc(res):
    out = []
    for r in res:
      smp = r["samples"]
      d = []
      leaves = [onp.asarray(x) for x in tree_util.tree_leaves(smp)]
      for x in leaves:
        d += fxs([squash(float(v)) for v in onp.ravel(x)])
      lens = {len(x) for x in leaves}
      out.append({"n": int(r["sample_count"]), "len": lens.pop() if len(lens) == 1 else -1,
                  "d": d, "m": [int(v) for v in smp["model_state"]["n"]] if a["mst"] else [],
                  "h": fxs(onp.asarray(smp["step_size"], onp.float64)) if mh else []})
    return out

  tr("ref", res=enc(compose()))
  args = dict(iterations=a["its"])
  if a["mst"]:
    args["init_model_state"] = mst
  for w, save, bar, cs in (("", a["save"], a["bar"], a["cs"]),
                           ("with other saving, progress bar, cache size",
                            1 - a["save"], 1 - a["bar"], 1 if a["dev"] else 6 - a["cs"])):
    reg.clear()
    run = call(save, bar, cs)
    res = run(*inits, **args)
    tr("run", w=w, res=enc(res))
    if not a["dev"]:
      tr("reg", reg=list(reg), cs=cs)
    if a["again"] and a["dev"]:
      # Device data: the same function starts from equal states again
      pass
  return tr.cfg


if __name__ == "__main__":
  drv.main(handler)
