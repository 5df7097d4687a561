"""Driver for the integrators (C14): a potential which is quadratic in the
position, and data which counts the drawn batches."""
import functools
from collections import namedtuple

import numpy as onp
import jax
import jax.numpy as jnp
from jax import random

import drv
from num import fx, fxs

NT = namedtuple("NT", ["zeta", "alpha"])


def tree_like(kind, v):
  """Trees of different structure whose leaves in flattened order are v."""
  v = jnp.asarray(v, jnp.float32)
  d = len(v)
  if kind == 0:
    return v
  if kind == 1:
    return {"w": v}
  if kind == 2:
    return {"b": v[0], "a": v[1:][None, :]} if False else {"a": v[:1], "b": v[1:][None, :]}
  if kind == 3:
    return NT(v[0], {"y": v[1:].reshape((1, d - 1, 1))})
  if kind == 5:     # many leaves
    return {"a": [v[0], v[1:2]], "b": (v[2], {"c": v[3:d - 2].reshape((1, -1))}), "d": NT(v[d - 2], v[d - 1:])}
  return [v[0], (v[1:2],), {"z": v[2:]}]


def flat(tree):
  return jnp.concatenate([jnp.ravel(x) for x in jax.tree_util.tree_leaves(tree)])


def handler(scn, tr, tmp):
  from jax_sgmc import integrator, adaption, scheduler
  from jax_sgmc.adaption import MassMatrix, NoiseModel
  from jax_sgmc.data import MiniBatchInformation
  from jax_sgmc.util import Tensor
  kind, tk = scn["kind"], scn["tree"]
  A, C, K = (jnp.array(scn[k], jnp.float32) for k in ("a", "c", "k"))
  d, steps, h, T = len(scn["k"]), scn["steps"], scn["h"], scn["temp"]
  N, n = scn["N"], scn["n"]
  lik_w = jnp.arange(n) - (n - 1) / 2.0

  # Data: the number of the batch
  init_b = lambda start=0: jnp.array(start, jnp.int32)
  def get_b(state, information=False):
    info = MiniBatchInformation(observation_count=N, mask=jnp.ones(n, bool), batch_size=n)
    batch = {"no": jnp.full((n,), state)}
    return state + 1, ((batch, info) if information else batch)
  batch_fn = (init_b, get_b, lambda: None)

  def potential(sample, batch, state=None, mask=None, likelihoods=False):
    data, info = batch
    b = data["no"][0]
    x = flat(sample)
    i = b % A.shape[0]
    u = C[b % C.shape[0]] + A[i] @ x + 0.5 * jnp.sum(K * x * x)
    new = None if state is None else {
      "s": (7 * state["s"] + b + 1) % 997, "t": 2 * ((7 * state["s"] + b + 1) % 997)}
    # Log-likelihoods with a known spread
    lik = -u * n / N / n + lik_w * (0.25 + b / 8)
    return (u, (lik, new)) if likelihoods else (u, new)

  kw = {}
  if kind != "langevin":
    fr = scn["fr"]
    kw = dict(steps=steps, friction=fr[0] if len(set(fr)) == 1 and not scn["frtree"]
              else tree_like(tk, fr))
  mass_tree = tree_like(tk, scn["mass"]) if scn["masskind"] == "const" else None
  if scn["masskind"] == "const" and kind != "langevin":
    kw["const_mass"] = mass_tree
  if scn.get("both"):       # a mass which is passed takes precedence
    kw["const_mass"] = tree_like(tk, [3.0 * m + 1.0 for m in scn["mass"]])
  passed = None
  M = onp.diag(scn["mass"]) if scn["masskind"] != "none" else onp.eye(d)
  if scn["masskind"] == "dense":
    M = onp.array(scn["dense"], float)
  minv = onp.linalg.inv(M)
  w, v = onp.linalg.eigh(M)
  msqrt = v @ onp.diag(onp.sqrt(w)) @ v.T
  if scn["masskind"] == "diag":
    passed = MassMatrix(inv=Tensor(1, tree_like(tk, onp.diag(minv))),
                        sqrt=Tensor(1, tree_like(tk, onp.sqrt(onp.diag(M)))))
  elif scn["masskind"] == "dense":
    passed = MassMatrix(inv=Tensor(2, jnp.array(minv, jnp.float32)),
                        sqrt=Tensor(2, jnp.array(msqrt, jnp.float32)))
  fn = scn["fr"]
  if scn.get("noise_model"):
    # Half of the friction is due to the noise of the gradients
    fn = [f / 2 for f in scn["fr"]]
    chain_mst = [scn["mst"]] * (scn["start"] + 1)
    for i in range(40):
      chain_mst.append((7 * chain_mst[-1] + scn["start"] + i + 1) % 997)
    def nm_get(state, sample, gradient, friction, *args, mini_batch=None,
               step_size=None, model_state=None, **kwargs):
      # Only the right arguments give the right noise
      b = mini_batch[0]["no"][0]
      x = flat(sample)
      g = A[b % A.shape[0]] + K * x
      ok = (jnp.all(jnp.abs(flat(gradient) - g) < 1e-3) & (jnp.abs(step_size - h) < 1e-6))
      if scn["mst"] >= 0:
        # The model state with which the gradient has been evaluated
        ok = ok & (model_state["t"] == 2 * model_state["s"])
        ok = ok & (model_state["s"] == jnp.array(chain_mst)[b])
      half = jax.tree_util.tree_map(
        lambda f: jnp.where(ok, jnp.sqrt(f / 2), 3 * jnp.sqrt(f)), friction)
      return NoiseModel(cb_diff_sqrt=Tensor(1, half), b_sqrt=Tensor(1, half))
    kw["noise_model"] = (lambda s: jnp.array(0.0), lambda st, *a, **k: st + 1, nm_get)
  ad = {"on": 0, "alpha": 0, "lmbd": 0}
  akw = None
  if scn.get("adapt"):
    kw["adaption"] = adaption.rms_prop()
    akw = {"alpha": scn["adapt"][0], "lmbd": scn["adapt"][1]}
    ad = {"on": 1, "alpha": fx(akw["alpha"]), "lmbd": fx(akw["lmbd"])}
  make = {"obabo": integrator.obabo, "amagold": integrator.reversible_leapfrog,
          "sghmc": integrator.friction_leapfrog,
          "langevin": integrator.langevin_diffusion}[kind]
  init, integrate, get = make(potential, batch_fn, **kw)

  params = scheduler.schedule(
    step_size=jnp.float32(h), temperature=jnp.float32(T), burn_in=jnp.float32(1),
    accept=jnp.array(True))
  x0 = tree_like(tk, scn["x0"])
  mst0 = {"s": jnp.array(scn["mst"]), "t": jnp.array(2 * scn["mst"])} if scn["mst"] >= 0 else None

  def new(key):
    k = dict(key=key, batch_kwargs={"start": scn["start"]} if scn["start"] else None,
             init_model_state=mst0)
    if akw:
      k["adaption_kwargs"] = akw
    if passed is not None and kind == "amagold":
      k["mass"] = passed
    return init(x0, **k)
  pos = lambda s: s.latent_variables if kind == "langevin" else s.positions
  mom = lambda s: s.latent_variables if kind == "langevin" else s.momentum
  call = (lambda s: integrate(s, params)) if kind == "langevin" or passed is None else \
    (lambda s: integrate(s, params, passed))

  def with_p(s):
    if kind == "langevin" or scn["p0"] is None:
      return s
    return s._replace(momentum=tree_like(tk, scn["p0"]))

  def mst(s):
    m = s.model_state
    if m is None:
      return -1
    return int(m["s"]) if int(m["t"]) == 2 * int(m["s"]) else -7

  def enc(s, before=None):
    key = 1
    if before is not None:
      key = int(not onp.array_equal(onp.asarray(before.key), onp.asarray(s.key)))
    return {"x": fxs(flat(pos(s))), "p": fxs(flat(mom(s))), "b": int(s.data_state),
            "mst": mst(s), "key": key,
            "ks": fx(s.kinetic_energy_start) if kind == "obabo" else 0,
            "ke": fx(s.kinetic_energy_end) if kind == "obabo" else 0,
            "pot": fx(s.potential), "en": fx(s.potential) if kind == "amagold" else 0,
            "v": fxs(s.adapt_state.state[0]) if ad["on"] else [0] * d}

  cfg = {"kind": kind, "h": fx(h), "fr": fxs(scn["fr"]), "fn": fxs(fn), "temp": fx(T),
         "minv": [fxs(r) for r in minv], "m": [fxs(r) for r in M],
         "ms": [fxs(r) for r in msqrt], "steps": steps, "a": [fxs(r) for r in scn["a"]],
         "c": fxs(scn["c"]), "k": fxs(scn["k"]), "ad": ad}
  key = random.PRNGKey(scn["key"])
  s = new(key)
  tr("init", want={"x": fxs(scn["x0"]), "b": scn["start"], "mst": scn["mst"]},
     **{k: v for k, v in enc(s).items() if k in ("x", "p", "b", "mst")})
  treedef = jax.tree_util.tree_structure(x0)
  shapes = [a.shape for a in jax.tree_util.tree_leaves(x0)]
  f = jax.jit(call) if scn["jit"] else call
  if scn["mode"] == "calls":
    s = with_p(s)
    for _ in range(scn["calls"]):
      nxt = f(s)
      tr("call", s=enc(s), r=enc(nxt, s), noisy=scn["noisy"])
      g = get(nxt)
      same = (jax.tree_util.tree_structure(g["variables"]) == treedef
              and [a.shape for a in jax.tree_util.tree_leaves(g["variables"])] == shapes
              and onp.array_equal(flat(g["variables"]), flat(pos(nxt)))
              and (g["model_state"] is None) == (mst0 is None)
              and (mst0 is None or int(g["model_state"]["s"]) == int(nxt.model_state["s"]))
              and (kind == "langevin" or float(g["energy"]) == float(nxt.potential)))
      tr("get", same=int(same))
      if kind == "langevin":
        b = int(s.data_state)
        _, (lik, _) = potential(pos(s), get_b(s.data_state, True)[1], s.model_state,
                                likelihoods=True)
        tr("variance", var=fx(nxt.variance), nn=N * N, n=n, lik=fxs(lik),
           lk=fx(g["likelihood"]), pot=fx(nxt.potential))
      s = nxt
  else:
    # Statistics over many chains with different keys
    R = scn["rootn"] ** 2
    def chain(key):
      s = with_p(new(key))
      for _ in range(scn["calls"]):
        s = call(s)
      return jnp.concatenate([flat(pos(s)), flat(mom(s))]), s.data_state
    z, b = jax.jit(jax.vmap(chain))(random.split(key, R))
    z = onp.asarray(z, onp.float64)
    s = with_p(s)
    e = enc(s)
    if scn["p0"] is None:
      e["p"] = [0] * d
    mean = z.mean(0)
    cov = (z - mean).T @ (z - mean) / R
    b = onp.asarray(b)
    tr("stats", s=e, calls=scn["calls"], ini=int(scn["p0"] is None and kind == "amagold"),
       rootn=scn["rootn"], mean=fxs(mean), cov=[fxs(r) for r in cov],
       b=int(b[0]) if (b == b[0]).all() else -1)
  return cfg


if __name__ == "__main__":
  drv.main(handler)
