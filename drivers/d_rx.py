"""Driver for replica exchange (C13): the solver runs with a scripted or a real
langevin integrator, single steps, complete runs and frequencies."""
from collections import namedtuple

import numpy as onp
import jax
import jax.numpy as jnp
from jax import random

import drv
from d_integ import tree_like, flat
from num import fx, fxs

Chain = namedtuple("Chain", ["x", "b", "potential", "variance", "T", "h", "tag", "m", "key"])


def handler(scn, tr, tmp):
  from jax_sgmc import solver, integrator, scheduler, adaption
  from jax_sgmc.data import MiniBatchInformation
  tk, real, mode = scn["tree"], scn["real"], scn["mode"]
  tr.cfg = {"real": real, "sa": scn["sa"], "F": fx(1.0 if scn["F"] is None else scn["F"]),
            "ssq": fx(0.0 if scn["ssq"] is None else scn["ssq"]),
            "xc": fxs(scn["xc"]), "xh": fxs(scn["xh"]), "m0": scn["m0"], "obs": scn["obs"],
            "dx": [fxs(v) for v in scn["dx"]], "e": fxs(scn["e"]), "v": fxs(scn["v"]),
            "vt": fx(scn["vt"]), "a": fxs(scn["a"]), "c": fx(scn["c"]), "g": fx(scn["g"])}
  arr = lambda k: jnp.array(scn[k], jnp.float32)
  DX, EN, V, A = (arr(k) for k in ("dx", "e", "v", "a"))
  at = lambda seq, b: seq[b % seq.shape[0]]
  t = lambda v: tree_like(tk, v)
  freq = mode == "freq"

  # Scripted integrator
  def s_init(sample, key=random.PRNGKey(0), init_model_state=None, start=0):
    tag = jnp.where(flat(sample)[0] > 64.0, 1, 0) if freq else jnp.where(
      flat(sample)[0] == scn["xc"][0], 0, 1)
    m = -1 if init_model_state is None else init_model_state
    z = jnp.float32(0.0)
    return Chain(sample, jnp.array(start), z, z, z, z, tag, jnp.array(m), key)

  def s_update(ch, sch):
    key, split = random.split(ch.key)
    T, h = sch.temperature, sch.step_size
    x = flat(ch.x) + at(DX, ch.b) + jnp.stack([T * h, h])
    if freq:
      x = x + random.uniform(split)
    u = scn["c"] + A @ x + at(EN, ch.b) + scn["g"] * T
    v = at(V, ch.b) + scn["vt"] * T
    m = jnp.where(ch.m < 0, -1, (7 * ch.m + ch.b + 1) % 97)
    f = lambda w: jnp.float32(w)
    return Chain(t(x), ch.b + 1, f(u), f(v), f(T), f(h), ch.tag, m, key)

  def s_get(ch):
    return {"variables": ch.x, "likelihood": -ch.potential, "b": ch.b, "v": ch.variance,
            "T": ch.T, "h": ch.h, "tag": ch.tag, "m": ch.m}

  # Real integrator with a scripted potential
  def get_b(state, information=False):
    info = MiniBatchInformation(observation_count=scn["obs"],
                                mask=jnp.ones(scn["n"], bool), batch_size=scn["n"])
    b = {"no": jnp.full((scn["n"],), state)}
    return state + 1, ((b, info) if information else b)
  batch_fn = (lambda start=0: jnp.array(start), get_b, lambda: None)

  def stoch(sample, batch, state=None, mask=None, likelihoods=False):
    b = batch[0]["no"][0]
    x = flat(sample)
    lik = jnp.sin(jnp.arange(scn["n"]) + b) * 0.25 + 0.125 * x[0] * jnp.arange(scn["n"])
    u = scn["c"] + A @ x + 0.25 * jnp.sum(x * x) + at(EN, b)
    new = None if state is None else (7 * state + b + 1) % 97
    return u, ((lik, new) if likelihoods else new)

  if real:
    ad = None
    if scn["adapt"]:
      ad = adaption.rms_prop()
    integ = integrator.langevin_diffusion(stoch, batch_fn, ad)
    CT = integrator.LangevinState
  else:
    integ, CT = (s_init, s_update, s_get), Chain
  sa = {"inv": None, "half": lambda n: 0.5, "inv1": lambda n: 1 / (n + 1),
        "sq": lambda n: 1 / n ** 2}[scn["sa"]]
  init, update, get = (solver.parallel_tempering(integ) if sa is None
                       else solver.parallel_tempering(integ, sa_schedule=sa))

  def chains(state):
    # The chains in the cold and the hot position
    leaves = jax.tree_util.tree_leaves(state, is_leaf=lambda c: isinstance(c, CT))
    out = [c for c in leaves if isinstance(c, CT)]
    assert len(out) == 2
    return out

  def allof(ch):
    out = []
    for leaf in jax.tree_util.tree_leaves(ch):
      leaf = onp.asarray(leaf)
      if leaf.dtype == onp.uint32:
        out += [int(v) % (1 << 10) for v in leaf.ravel()]
      elif onp.issubdtype(leaf.dtype, onp.floating):
        out += fxs(leaf.ravel())
      else:
        out += [int(v) for v in leaf.ravel()]
    return out

  def enc(ch):
    if real:
      return {"x": fxs(flat(ch.latent_variables)),
              "m": -1 if ch.model_state is None else int(ch.model_state)}
    return {"x": fxs(flat(ch.x)), "b": int(ch.b), "u": fx(ch.potential), "v": fx(ch.variance),
            "T": fx(ch.T), "h": fx(ch.h), "tag": int(ch.tag), "m": int(ch.m)}

  def pick(s, i):
    return s if i is None else jax.tree_util.tree_map(lambda a: onp.asarray(a)[i], s)

  def params(T, h):
    return scheduler.schedule(step_size=jnp.float32(h), temperature=jnp.float32(T),
                              burn_in=jnp.array(1.0), accept=jnp.array(True))

  def new(key, xc=None, xh=None):
    kw = {}
    if scn["F"] is not None:
      kw["F"] = jnp.float32(scn["F"])
    if scn["ssq"] is not None:
      kw["ssq_init"] = jnp.float32(scn["ssq"])
    if scn["m0"] >= 0:
      kw["init_model_state"] = jnp.array(scn["m0"])
    if scn["start"]:
      kw.update({"batch_kwargs": {"start": scn["start"]}} if real else {"start": scn["start"]})
    if key is not None:
      kw["key"] = key
    return init(t(scn["xc"] if xc is None else xc), t(scn["xh"] if xh is None else xh), **kw)

  def ev_init(state):
    c, h = chains(state)
    keys = int(not onp.array_equal(c.key, h.key))
    tr("init", c=enc(c), h=enc(h), keys=keys)

  key = random.PRNGKey(scn["key"])
  if mode in ("steps", "long"):
    if scn["vmap"]:
      other = new(random.PRNGKey(scn["key"] + 1), [v + 1 for v in scn["xc"]])
      st = jax.tree_util.tree_map(lambda a, b: jnp.stack([jnp.asarray(a), jnp.asarray(b)]),
                                  other, new(key))
      up, i = jax.vmap(update, in_axes=(0, None, None)), 1
    else:
      st, up, i = new(key if scn["key"] % 5 else None), update, None
    if scn["jit"]:
      up = jax.jit(up)
    one = jax.jit(integ[1])
    look = jax.jit(lambda ch: stoch(ch.latent_variables, integ_batch(ch), state=ch.model_state,
                                    likelihoods=True)) if real else None
    integ_batch = lambda ch: get_b(ch.data_state, information=True)[1]
    ev_init(pick(st, i))
    for k in range(scn["calls"]):
      Tc, Th = scn["Tc"][k % len(scn["Tc"])], scn["Th"][k % len(scn["Th"])]
      hc, hh = scn["hc"][k % len(scn["hc"])], scn["hh"][k % len(scn["hh"])]
      nxt, stats = up(st, params(Tc, hc), params(Th, hh))
      assert stats is None or isinstance(stats, dict)
      a, b = pick(st, i), pick(nxt, i)
      q = []
      for ch, T, h in zip(chains(a), (Tc, Th), (hc, hh)):
        n = one(ch, params(T, h))
        e = {"all": allof(n), "u": fx(n.potential), "v": fx(n.variance)}
        if real:
          pot, (lik, _) = look(ch)
          e.update(pot=fx(pot), lik=fxs(lik))
        else:
          e.update(enc(n))
        q.append(e)
      c, h = chains(b)
      g, w = get(b), integ[2](c)
      ok = jax.tree_util.tree_structure(g) == jax.tree_util.tree_structure(w) and all(
        onp.array_equal(u, v) for u, v in zip(jax.tree_util.tree_leaves(g),
                                              jax.tree_util.tree_leaves(w)))
      tr("step", Tc=fx(Tc), Th=fx(Th), hc=fx(hc), hh=fx(hh), qc=q[0], qh=q[1],
         c=allof(c), h=allof(h), get=int(ok))
      st = nxt
  elif mode == "run":
    its = scn["calls"]
    # Step sizes which change differently for both chains
    step = scheduler.specific_scheduler(
      lambda T, base=scn["hc"][0], slope=0.0: base + slope * jnp.arange(T + 1) / 16.0,
      lambda s, i, **kw: s, lambda s, i, **kw: s[i])
    temp = scheduler.specific_scheduler(
      lambda T, tau=scn["Tc"][0]: jnp.full((T + 1,), tau, jnp.float32),
      lambda s, i, **kw: s, lambda s, i, **kw: s[i])
    sched = scheduler.init_scheduler(step, temp, progress_bar=False)
    extra = [{"temperature": {"tau": scn["Th"][0]},
              "step_size": {"base": scn["hh"][0], "slope": 1.0}}]
    from jax_sgmc import io
    saving = io.save(io.MemoryCollector()) if scn["save"] else None
    run = solver.mcmc((init, update, get), sched, strategy=scn["strategy"], saving=saving)
    states = [new(key)]
    if scn["vmap"]:
      states.insert(0, new(random.PRNGKey(scn["key"] + 1), [v + 1 for v in scn["xc"]]))
    first = states[-1]
    res = run(*states, iterations=its, schedulers=extra)[-1]["samples"]
    ev_init(first)
    for k in range(its):
      g = jax.tree_util.tree_map(lambda a: onp.asarray(a)[k], res)
      r = {"x": fxs(flat(g["variables"])), "b": int(g["b"]), "u": fx(-g["likelihood"]),
           "v": fx(g["v"]), "T": fx(g["T"]), "h": fx(g["h"]), "tag": int(g["tag"]), "m": int(g["m"])}
      tr("run", r=r, Tc=fx(scn["Tc"][0]), Th=fx(scn["Th"][0]), hc=fx(scn["hc"][0]),
         hh=fx(scn["hh"][0] + k / 16.0))
  else:
    R = scn["rootn"] ** 2
    Tc, Th = scn["Tc"][0], scn["Th"][0]
    pc, ph = params(Tc, 0.0), params(Th, 0.0)
    tr.cfg.update(Tc=fx(Tc), Th=fx(Th), uc=fx(scn["g"] * Tc), uh=fx(scn["g"] * Th), v0=fx(scn["v"][0]))
    def chain(key):
      s0 = new(key)
      s1, _ = update(s0, pc, ph)
      s2, _ = update(s1, pc, ph)
      out = []
      for s in (s1, s2):
        c, h = chains(s)
        out += [c.tag, flat(c.x)[0], h.tag, flat(h.x)[0]]
      return [jnp.asarray(v, jnp.float32) for v in out]
    v = [onp.asarray(w) for w in jax.jit(jax.vmap(chain))(random.split(key, R))]
    assert onp.all(v[0] + v[2] == 1) and onp.all(v[4] + v[6] == 1)
    sw1 = v[0] == 1
    sw2 = v[4] != v[0]
    # noise of both chains in both steps
    base = lambda tag: onp.where(tag == 0, scn["xc"][0], scn["xh"][0])
    x1 = {0: onp.where(sw1, v[3], v[1]), 1: onp.where(sw1, v[1], v[3])}
    x2 = {0: onp.where(v[4] == 0, v[5], v[7]), 1: onp.where(v[4] == 1, v[5], v[7])}
    z = [x1[0] - scn["xc"][0], x1[1] - scn["xh"][0], x2[0] - x1[0], x2[1] - x1[1]]
    cond = lambda sel, w: {"cnt": int(sel.sum()), "mean": fx(w[sel].mean()) if sel.any() else 0}
    every = onp.ones(R, bool)
    prods = [cond(every, (z[a] - 0.5) * (z[b] - 0.5)) for a in range(4) for b in range(a)]
    prods += [cond(sel, (z[a] - 0.5) * (z[a + 1] - 0.5)) for sel in (sw1, ~sw1, sw2, ~sw2)
              for a in (0, 2)]
    tr("freq", total=R, rootn=scn["rootn"], sw1=int(sw1.sum()), sw2=int(sw2.sum()),
       both=int((sw1 & sw2).sum()),
       cond=[cond(sel, w) for sel in (sw1, ~sw1, sw2, ~sw2, sw1 & sw2) for w in z],
       prod=prods)
  return tr.cfg


if __name__ == "__main__":
  drv.main(handler)
