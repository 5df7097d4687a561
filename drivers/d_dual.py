"""Driver for the adaptive step size (C17): the schedule alone, within the
scheduler, within runs of scripted and of real solvers."""
import numpy as onp
import jax
import jax.numpy as jnp

import drv
from num import fx, fxs


def handler(scn, tr, tmp):
  from jax_sgmc import scheduler, solver
  d, ov = scn["defaults"], scn["override"]
  full = {**d, **ov}
  tr.cfg = {"tol": 3000, "p": {
    "ini": fx(full["initial_step_size"]), "n0": full["burn_in"],
    "al": fx(full["target_acceptance_rate"]), "t0": fx(full["stabilization_constant"]),
    "ka": fx(full["decay_constant"]), "ga": fx(full["speed_constant"])}}
  step = scheduler.adaptive_step_size(**d)
  its = scn["its"]
  acc = [float("nan") if a is None else a for a in scn["acc"]]
  at = lambda k: acc[k % len(acc)]

  def emit(hs, accs):
    hs = onp.asarray(hs, onp.float32)
    old = None
    for h, a in zip(hs, accs):
      with onp.errstate(all="ignore"):
        g = float(onp.clip(onp.log(onp.float64(h)), -100.0, 100.0))
      bad = not onp.isfinite(a)
      tr("it", g=fx(g), same=int(old is not None and h == old), acc=0 if bad else fx(a),
         bad=int(bad))
      old = h

  mode = scn["mode"]
  if mode == "alone":
    up, get = step.update, step.get
    if scn["jit"]:
      up, get = jax.jit(up), jax.jit(get)
    kw = {k: jnp.asarray(v) for k, v in ov.items()} if scn["array"] else ov
    st = step.init(its, **kw)
    if scn["vmap"]:
      # Another schedule with other parameters runs beside
      other = step.init(its, initial_step_size=0.7, burn_in=3)
      st = jax.tree_util.tree_map(lambda a, b: jnp.stack([jnp.asarray(a, jnp.float32),
                                                          jnp.asarray(b, jnp.float32)]), other, st)
      up1, get1 = up, get
      up = lambda s, i, acceptance_ratio: jax.vmap(
        lambda t, a: up1(t, i, acceptance_ratio=a))(s, jnp.stack([jnp.float32(0.9), acceptance_ratio]))
      get = lambda s, i: jax.vmap(lambda t: get1(t, i))(s)[1]
    hs = []
    for k in range(its):
      hs.append(float(get(st, k)))
      st = up(st, k, acceptance_ratio=jnp.float32(at(k)))
    emit(hs, [at(k) for k in range(its)])
  elif mode == "sched":
    init, nxt, get = scheduler.init_scheduler(
      step, burn_in=scheduler.initial_burn_in(scn["other_burn_in"]), progress_bar=False)
    nxt = jax.jit(nxt) if scn["jit"] else nxt
    st, _ = init(its, step_size=ov)
    hs = []
    for k in range(its):
      for _ in range(scn["gets"]):
        h = float(get(st).step_size)
      hs.append(h)
      st = nxt(st, acceptance_ratio=jnp.float32(at(k)))
    emit(hs, [at(k) for k in range(its)])
  elif mode == "run":
    A = jnp.array(acc, jnp.float32)
    which = scn["which"]

    def update(state, *schs):
      n, off, h, _ = state
      a = A[(n + off) % len(acc)]
      return (n + 1, off, jnp.stack([s.step_size for s in schs]), a), {"acceptance_ratio": a}
    get = lambda st: {"h": st[2], "a": st[3]}
    nsch = 1 + len(scn["extra"])
    new = lambda off: (jnp.array(0), jnp.array(off), jnp.zeros(nsch), jnp.float32(0.0))
    sched = scheduler.init_scheduler(step, progress_bar=bool(scn["bar"]), progress_bar_steps=2)
    run = solver.mcmc((None, update, get), sched, strategy=scn["strategy"])
    extra = [{"step_size": e} for e in scn["extra"]] or None
    res = run(*[new(k) for k in range(scn["chains"])], iterations=its, schedulers=extra)
    c = scn["chain"]
    hs = onp.asarray(res[c]["samples"]["h"])[:, which]
    a = onp.asarray(res[c]["samples"]["a"])
    assert all(abs(a[k] - at(k + c)) < 1e-6 for k in range(its))
    emit(hs, [float(v) for v in a])
  else:
    # Real solvers
    from jax_sgmc import data, potential, integrator
    from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
    x = onp.linspace(-1, 1, 6)
    loader = DeviceNumpyDataLoader(x=x, y=2 * x)
    prior = lambda s: -0.5 * s["w"] ** 2
    lik = lambda s, o: -2.0 * (s["w"] * o["x"] - o["y"]) ** 2
    stoch = potential.minibatch_potential(prior, lik, strategy="vmap")
    fullp = potential.full_potential(prior, lik, strategy="vmap")
    rd = data.random_reference_data(loader, 1, 2)
    fd = data.full_reference_data(loader, 1, 3)
    if scn["solver"] == "amagold":
      integ = integrator.reversible_leapfrog(stoch, rd, steps=2, friction=0.5)
      triple = solver.amagold(integ, fullp, fd)
    else:
      integ = integrator.obabo(stoch, rd, steps=2, friction=0.5)
      triple = solver.sggmc(integ, fullp, fd)
    sched = scheduler.init_scheduler(step, progress_bar=False)
    run = solver.mcmc(triple, sched, strategy=scn["strategy"])
    states = [triple[0]({"w": jnp.float32(0.5 * k)}, key=jax.random.PRNGKey(scn["key"] + k))
              for k in range(scn["chains"])]
    res = run(*states, iterations=its)[scn["chain"]]["samples"]
    emit(res["step_size"], [float(a) for a in onp.asarray(res["acceptance_ratio"])])
  return tr.cfg


if __name__ == "__main__":
  drv.main(handler)
