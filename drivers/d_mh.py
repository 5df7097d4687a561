"""Driver for the Metropolis-Hastings corrected solvers (C12): the solvers run
with a scripted or a real integrator, a scripted full potential and a scripted
mass adaption."""
import numpy as onp
import jax
import jax.numpy as jnp
from jax import random

import drv
from d_integ import tree_like, flat
from num import fx, fxs


def handler(scn, tr, tmp):
  from jax_sgmc import solver, integrator, scheduler
  from jax_sgmc.adaption import MassMatrix
  from jax_sgmc.data import MiniBatchInformation
  from jax_sgmc.util import Tensor
  kind, tk, real, stats = scn["kind"], scn["tree"], scn["real"], scn["mode"] == "freq"
  arr = lambda k: jnp.array(scn[k], jnp.float32)
  DX, DP, EN, PV, K, A = (arr(k) for k in ("dx", "dp", "e", "pv", "k", "a"))
  SP = jnp.array(scn["sp"])
  T, h, m0 = scn["temp"], scn["h"], scn["m0"]
  tr.cfg = {"kind": kind, "real": real, "dx": [fxs(v) for v in scn["dx"]],
            "dp": [fxs(v) for v in scn["dp"]], "e": fxs(scn["e"]), "pv": fxs(scn["pv"]),
            "sp": scn["sp"], "k": fxs(scn["k"]), "a": fxs(scn["a"]), "c": fx(scn["c"]),
            "temp": fx(T), "m0": m0, "x0": fxs(scn["x0"]),
            "ini": fx(scn["ini"] if scn["ini"] is not None else 1.0)}
  at = lambda seq, b: seq[b % seq.shape[0]]
  wrap_m = lambda m: {"s": m, "t": 2 * m}
  mk_m = lambda m: None if m0 < 0 else wrap_m(m)
  t = lambda v: tree_like(tk, v)

  def full_u(x):
    return scn["c"] + A @ x + 0.5 * jnp.sum(K * x * x)

  def full_potential(sample, data_state, map_fn, state=None):
    u = map_fn(full_u, flat(sample))
    new = None if state is None else wrap_m((5 * state["s"] + 3) % 97)
    return u, (data_state + 1, new)
  full_map = (lambda start=0: jnp.array(start), lambda f, x: f(x), lambda: None)

  # Scripted mass adaption: (count, sum of the samples, initial value)
  def mass_init(sample, initial):
    v = jnp.float32(1.0) if initial is None else flat(initial)[0]
    return jnp.array(0), jnp.zeros_like(flat(sample)), v
  def mass_update(state, sample, *args, **kwargs):
    return state[0] + 1, state[1] + flat(sample), state[2]
  def mass_get(state, *args, **kwargs):
    inv = state[2] + state[1][0] / 4 + state[0] / 8
    if real:
      # must be positive
      inv = 1.0 + 0.5 * jnp.tanh(inv)
      return MassMatrix(inv=Tensor(1, t(jnp.stack([inv, inv]))),
                        sqrt=Tensor(1, t(1 / jnp.sqrt(jnp.stack([inv, inv])))))
    return MassMatrix(inv=Tensor(1, t(jnp.stack([inv, inv]))),
                      sqrt=Tensor(1, t(jnp.stack([inv, inv]))))
  adaption = (mass_init, mass_update, mass_get) if scn["mass"] else None

  # Scripted integrator
  def inv_of(mass):
    return flat(mass.inv.tensor)[0] if mass is not None else jnp.float32(0.0)

  def s_init(sample, key=None, mass=None, init_model_state=None, start=0):
    p = jnp.stack([inv_of(mass), jnp.float32(0.5)]) if kind == "amagold" else jnp.zeros(2)
    kw = dict(positions=sample, momentum=t(p), potential=jnp.float32(0.0),
              model_state=init_model_state, data_state=jnp.array(start), key=key)
    if kind == "amagold":
      return integrator.LeapfrogState(**kw)
    return integrator.ObaboState(kinetic_energy_start=0.0, kinetic_energy_end=0.0, **kw)

  def s_integrate(state, parameters, mass=None):
    b = state.data_state
    inv = inv_of(mass)
    key, split = random.split(state.key)
    x = flat(state.positions) + at(DX, b)
    if stats:
      x = x + random.uniform(split)
    p = flat(state.momentum) + at(DP, b) + jnp.stack([inv, 0.0])
    w = at(EN, b) + inv / 2
    sp = at(SP, b)
    # infinite or undefined energies
    bad = -1.0 if kind == "amagold" else 1.0
    w = jnp.where(sp == 1, bad * jnp.inf, jnp.where(sp == 2, jnp.nan, w))
    m = state.model_state
    m = None if m is None else wrap_m((7 * m["s"] + b + 1) % 97)
    kw = dict(positions=t(x), momentum=t(p), model_state=m, data_state=b + 1, key=key)
    if kind == "amagold":
      return integrator.LeapfrogState(potential=w, **kw)
    start = at(PV, b) + parameters.step_size
    return integrator.ObaboState(potential=at(PV, b), kinetic_energy_start=start,
                                 kinetic_energy_end=start + w, **kw)

  def s_get(state):
    return {"variables": state.positions, "energy": state.potential,
            "model_state": state.model_state}

  # Real integrator with a stochastic potential
  def get_b(state, information=False):
    info = MiniBatchInformation(observation_count=8, mask=jnp.ones(2, bool), batch_size=2)
    return state + 1, (({"no": jnp.full((2,), state)}, info) if information
                       else {"no": jnp.full((2,), state)})
  batch_fn = (lambda start=0: jnp.array(start), get_b, lambda: None)

  def stoch(sample, batch, state=None, mask=None, likelihoods=False):
    b = batch[0]["no"][0]
    x = flat(sample)
    u = scn["c"] + (A + at(DP, b)) @ x + 0.5 * jnp.sum(K * x * x)
    new = None if state is None else wrap_m((7 * state["s"] + b + 1) % 97)
    return u, new

  if real:
    make = integrator.reversible_leapfrog if kind == "amagold" else integrator.obabo
    init_i, integrate, get_i = make(stoch, batch_fn, steps=scn["steps"], friction=scn["fr"])
    integ = (lambda s, **kw: init_i(s, key=kw.get("key"), init_model_state=kw.get("init_model_state"),
                                    **({"mass": kw["mass"]} if kind == "amagold" else {}),
                                    batch_kwargs={"start": kw.get("start", 0)}), integrate, get_i)
  else:
    integ = (s_init, s_integrate, s_get)
  make = solver.amagold if kind == "amagold" else solver.sggmc
  init, update, get = make(integ, full_potential, full_map, mass_adaption=adaption)
  params = scheduler.schedule(
    step_size=jnp.float32(h), temperature=jnp.float32(T), burn_in=jnp.array(1.0),
    accept=jnp.array(True))

  def new(key, x0=None):
    kw = {}
    if scn["ini"] is not None:
      kw["initial_mass"] = t(jnp.full(2, scn["ini"], jnp.float32))
    if scn["start"]:
      kw["start"] = scn["start"]
      kw["full_data_kwargs"] = {"start": 3}
    return init(t(scn["x0"] if x0 is None else x0), key=key,
                init_model_state=mk_m(jnp.array(m0)), **kw)

  def pick(s, i):
    return s if i is None else jax.tree_util.tree_map(lambda a: onp.asarray(a)[i], s)

  def enc(s):
    i = s.integrator_state
    m = i.model_state
    m = -1 if m is None else (int(m["s"]) if int(m["t"]) == 2 * int(m["s"]) else -7)
    ms = s.mass_state
    mass = {"on": 0, "n": 0, "sum": [0, 0]}
    if ms is not None:
      mass = {"on": 1, "n": int(ms[0]), "sum": fxs(ms[1])}
    return {"x": fxs(flat(i.positions)), "p": fxs(flat(i.momentum)), "m": m,
            "u": fx(s.potential), "en": fx(i.potential), "b": int(i.data_state), "mass": mass}

  if scn["mode"] == "steps":
    key = random.PRNGKey(scn["key"])
    if scn["vmap"]:
      # A second, different chain runs beside
      other = new(random.PRNGKey(scn["key"] + 1), [v + 1 for v in scn["x0"]])
      one = new(key)
      st = jax.tree_util.tree_map(lambda a, b: jnp.stack([jnp.asarray(a), jnp.asarray(b)]), other, one)
      up = jax.vmap(lambda s: update(s, params))
      i = 1
    else:
      st, up, i = new(key), (lambda s: update(s, params)), None
    if scn["jit"]:
      up = jax.jit(up)
    propose = jax.jit(lambda s, ms: integrate(
      s, params, mass_get(ms) if scn["mass"] else None)) if real else None
    first = enc(pick(st, i))
    tr("init", s=first)
    for _ in range(scn["calls"]):
      nxt, st_stats = up(st)
      a, b = pick(st, i), pick(nxt, i)
      kw = {}
      if real:
        pre = a.integrator_state
        # Energies of earlier proposals do not enter
        if kind == "amagold":
          pre = pre._replace(potential=jnp.float32(0.0))
        else:
          pre = pre._replace(kinetic_energy_start=jnp.float32(0.0), kinetic_energy_end=jnp.float32(0.0))
        q = propose(pre, a.mass_state)
        m = q.model_state
        w = q.potential if kind == "amagold" else q.kinetic_energy_end - q.kinetic_energy_start
        kw["q"] = {"x": fxs(flat(q.positions)), "p": fxs(flat(q.momentum)),
                   "m": -1 if m is None else int(m["s"]), "en": fx(q.potential), "w": fx(w),
                   "b": int(q.data_state), "sp": 0}
        # Trajectories of unfavourable noise leave the range of the numbers
        # of the specification
        if (max(map(abs, kw["q"]["x"] + kw["q"]["p"])) > 24 << 20
            or abs(kw["q"]["w"]) > 400 << 20 or abs(fx(b.potential)) > 400 << 20):
          tr("range")
          break
      g = get(b)
      alpha = [fx(pick(st_stats, i)["acceptance_ratio"]), fx(g["acceptance_ratio"])]
      keys = int(not onp.array_equal(a.key, b.key)
                 and not onp.array_equal(a.integrator_state.key, b.integrator_state.key))
      ok = (onp.array_equal(flat(g["variables"]), flat(b.integrator_state.positions))
            and abs(float(g["step_size"]) - h) < 1e-6
            and (g["model_state"] is None) == (m0 < 0)
            and (m0 < 0 or int(g["model_state"]["s"]) == int(b.integrator_state.model_state["s"]))
            and ("potential" not in g or float(g["potential"]) == float(b.potential)))
      tr("step", r=enc(b), alpha=alpha, keys=keys, get=int(ok), **kw)
      st = nxt
  else:
    R = scn["rootn"] ** 2
    x0 = onp.array(scn["x0"], onp.float32)
    def chain(key):
      s = new(key)
      s1, _ = update(s, params)
      s2, _ = update(s1, params)
      return flat(s1.integrator_state.positions), flat(s2.integrator_state.positions)
    x1, x2 = jax.jit(jax.vmap(chain))(random.split(random.PRNGKey(scn["key"]), R))
    x1, x2 = onp.asarray(x1), onp.asarray(x2)
    a1 = onp.any(x1 != x0, axis=1)
    a2 = onp.any(x2 != x1, axis=1)
    z1, z2 = (x1 - x0)[:, 0], (x2 - x1)[:, 0]
    # Means of the noise given decisions
    cond = lambda sel, z: {"cnt": int(sel.sum()), "mean": fx(z[sel].mean()) if sel.any() else 0}
    tr("freq", total=R, rootn=scn["rootn"], acc1=int(a1.sum()), acc2=int(a2.sum()),
       both=int((a1 & a2).sum()),
       cond=[cond(a1, z1), cond(a1 & a2, z1), cond(a1 & a2, z2), cond(~a1 & a2, z2),
             cond(a1 & ~a2, z1)],
       prod=cond(a1 & a2, (z1 - 0.5) * (z2 - 0.5)))
  return tr.cfg


if __name__ == "__main__":
  drv.main(handler)
