"""Driver for stochastic and full potentials (C15)."""
import numpy as onp
import jax
import jax.numpy as jnp

import drv
from d_integ import tree_like, flat
from num import fx, fxs


def handler(scn, tr, tmp):
  from jax_sgmc import data as jd
  from jax_sgmc import potential
  from jax_sgmc.data import MiniBatchInformation
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  rows = onp.array(scn["rows"], onp.float32)
  N = len(rows)
  c, e, q, g, T = (scn[k] for k in ("c", "e", "q", "g", "temp"))
  stateful, shape = scn["stateful"], scn["shape"]
  tk = scn["tree"]
  tr.cfg = {"rows": [fxs(r) for r in rows], "c": fx(c), "e": e, "q": fx(q), "g": fx(g),
            "temp": fx(T)}

  def ll(state, sample, x, y):
    w = flat(sample)
    m = state["s"] * 1.0 if stateful else -1.0
    l = x * w[0] + y * w[1] - c / 2 * (w[0] - x) ** 2 + e / 4 * m * w[1]
    new = None
    if stateful:
      n = (3 * state["s"] + 2 * x.astype(jnp.int32) + y.astype(jnp.int32) + 11) % 17
      new = {"s": n, "t": jnp.stack([n, 2 * n])}
    return l, new

  def single(state, sample, obs):
    l, new = ll(state, sample, obs["x"], obs["yz"][0])
    return (l if shape == 0 else jnp.reshape(l, (1,))), new

  def batched(state, sample, obs):
    l, new = jax.vmap(lambda o: ll(state, sample, o["x"], o["yz"][0]))(obs)
    if stateful:
      new = jax.tree_util.tree_map(lambda a: a[0], new)
    return (l if shape == 0 else l[:, None]), new

  def likelihood(strategy):
    f = batched if strategy == "batched" else single
    if stateful:
      return f
    return lambda sample, obs: f(None, sample, obs)[0]

  def prior(sample):
    w = flat(sample)
    v = g * w[0] - q / 2 * jnp.sum(w * w)
    return v if shape == 0 else jnp.reshape(v, (1,))

  def options(strategy):
    kw = dict(has_state=bool(stateful), temperature=T)
    if strategy == "batched":
      kw["is_batched"] = True
      kw["strategy"] = scn.get("also", "map")
    else:
      kw["strategy"] = strategy
    return kw

  L = (NumpyDataLoader if scn["host"] else DeviceNumpyDataLoader)(
    x=rows[:, 0], yz=onp.stack([rows[:, 1], onp.full(N, 7.0)], 1))
  mk_state = lambda m: {"s": jnp.array(m), "t": jnp.array([m, 2 * m])} if stateful else None

  def st(m):
    if m is None:
      return -1
    if onp.shape(m["s"]) != () or onp.shape(m["t"]) != (2,):
      return -7
    s, t = int(m["s"]), onp.asarray(m["t"])
    return s if list(t) == [s, 2 * s] else -7

  fns = {}
  cleanups = []
  for no, op in enumerate(scn["ops"]):
    # Callbacks can not be differentiated
    if op["op"] == "full" and (scn["host"] or op["api"] == "mapper"):
      op = dict(op, grad=0)
    w = jnp.array(op["w"], jnp.float32)
    sample = tree_like(tk, w)
    m = op["m"] if stateful else -1
    strategy = op["strategy"]
    if op["op"] == "mini":
      pot = potential.minibatch_potential(prior, likelihood(strategy), **options(strategy))
      n = op["n"]
      if op["src"] == "given":
        idx = onp.array(op["idx"])
        batch = {"x": jnp.array(rows[idx, 0]), "yz": jnp.array(
          onp.stack([rows[idx, 1], onp.full(n, 5.0)], 1), jnp.float32)}
        info = MiniBatchInformation(observation_count=op["nn"], mask=jnp.ones(n, bool),
                                    batch_size=n)
        nn = op["nn"]
      else:
        init, get, _ = jd.random_reference_data(L, 2 if scn["host"] else 1, n)
        _, (batch, info) = get(init(), information=True)
        nn = N
      got = onp.stack([batch["x"], batch["yz"][:, 0]], 1)
      mask = op["mask"]
      if mask is not None:
        mk = jnp.array(mask, jnp.float32 if op["fmask"] else bool)
      kw = {} if mask is None else {"mask": mk}
      if op["liks"]:
        kw["likelihoods"] = True

      def f(sample, state, batch):
        return pot(sample, (batch, info), state=state, **kw)
      grad = []
      if op["grad"] and strategy != "pmap":
        f2 = jax.value_and_grad(f, has_aux=True)
        if op["jit"]:
          f2 = jax.jit(f2)
        (u, aux), gr = f2(sample, mk_state(m), batch)
        grad = fxs(flat(gr))
      else:
        f2 = jax.jit(f) if op["jit"] and strategy != "pmap" else f
        u, aux = f2(sample, mk_state(m), batch)
      lik = []
      if op["liks"]:
        lik, new = aux
        lik = fxs(lik) if onp.shape(lik) == (n,) else [0]
      else:
        new = aux
      tr("mini", rows=[fxs(r) for r in got], masked=int(mask is not None),
         mask=mask or [], nn=nn, w=fxs(w), m=m, u=fx(u) if onp.shape(u) == () else -2 ** 31 + 7,
         grad=grad, liks=int(op["liks"]), lik=lik, m1=st(new), ms=int(stateful))
    else:
      mb, cache = op["mb"], op["cache"]
      key = (mb, cache, strategy, op["api"], op["jit"], op["grad"], op["over"])
      if key not in fns:
        pot = potential.full_potential(prior, likelihood(strategy), **options(strategy))
        if op["api"] == "map":
          init, fmap, rel = jd.full_reference_data(L, cache, mb)
          ds = init()
        else:
          fmap, rel = jd.full_data_mapper(L, cache, mb)
          ds = None

        def f(sample, ds, state, pot=pot, fmap=fmap):
          if stateful:
            return pot(sample, ds, fmap, state=state)
          return pot(sample, ds, fmap)
        if op["grad"]:
          f = jax.value_and_grad(f, has_aux=True)
        if op["over"]:
          # Several parameter sets one after another in one computation
          f1 = f
          def f(samples, ds, state, f1=f1):
            def body(c, s):
              o = f1(s, c, state)
              nd = (o[0] if op["grad"] else o)[1][0]
              return nd, o
            nd, o = jax.lax.scan(body, ds, samples)
            return o, nd
        fns[key] = [jax.jit(f) if op["jit"] else f, ds]
        cleanups.append(rel)
      f, ds = fns[key]
      def emit(o, w):
        grad = []
        if op["grad"]:
          o, gr = o
          grad = fxs(flat(gr))
        u, (ds, new) = o
        tr("full", mb=mb, w=fxs(w), m=m, u=fx(u) if onp.shape(u) == () else -2 ** 31 + 7,
           grad=grad, m1=st(new))
        return ds
      if op["over"]:
        ws = [w, w + 0.5, -w]
        samples = jax.tree_util.tree_map(lambda *a: jnp.stack(a), *[tree_like(tk, v) for v in ws])
        o, nd = f(samples, ds, mk_state(m))
        for i, v in enumerate(ws):
          emit(jax.tree_util.tree_map(lambda a: a[i], o), v)
        fns[key][1] = nd
      else:
        fns[key][1] = emit(f(sample, ds, mk_state(m)), w)
  for rel in cleanups:
    rel()
  return tr.cfg


if __name__ == "__main__":
  drv.main(handler)
