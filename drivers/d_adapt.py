"""Driver for the adaption strategies (C16)."""
from collections import namedtuple

import numpy as onp
import jax
import jax.numpy as jnp

import drv
from num import fx, fxs

PT = namedtuple("PT", ["u", "b"])


def build(desc, vec):
  """Tree of the description whose leaves in flattened order hold vec."""
  def skeleton(d):
    if d["t"] == "leaf":
      return jnp.zeros(d["shape"], d.get("dt", "float32"))
    c = [skeleton(x) for x in d["c"]]
    if d["t"] == "list":
      return c
    if d["t"] == "tuple":
      return tuple(c)
    if d["t"] == "nt":
      return PT(*c)
    return dict(zip(d["keys"], c))
  leaves, treedef = jax.tree_util.tree_flatten(skeleton(desc))
  out, i = [], 0
  for leaf in leaves:
    out.append(jnp.reshape(jnp.asarray(vec[i:i + leaf.size], leaf.dtype), leaf.shape))
    i += leaf.size
  assert i == len(vec)
  return jax.tree_util.tree_unflatten(treedef, out)


def flat(tree):
  return jnp.concatenate([jnp.ravel(x).astype(jnp.float32)
                          for x in jax.tree_util.tree_leaves(tree)])


def enc(q, like, pick):
  """A tensor as diagonal or matrix, and whether it fits to the tree."""
  q = jax.tree_util.tree_map(lambda a: a[pick] if pick is not None else a, q.tensor), q.ndim
  t, nd = q
  if not isinstance(nd, int):
    nd = int(onp.ravel(onp.asarray(nd))[0])
  if nd == 1:
    ok = jax.tree_util.tree_structure(t) == jax.tree_util.tree_structure(like) and all(
      jnp.shape(a) == jnp.shape(b) and a.dtype == b.dtype for a, b in
      zip(jax.tree_util.tree_leaves(t), jax.tree_util.tree_leaves(like)))
    return {"nd": 1, "tree": int(ok), "d": fxs(flat(t)), "m": []}
  t = onp.asarray(t)
  d = flat(like).size
  if t.shape != (d, d):
    return {"nd": 2, "tree": 0, "d": [], "m": []}
  return {"nd": 2, "tree": 1, "d": [], "m": [fxs(r) for r in t]}


def handler(scn, tr, tmp):
  from jax_sgmc import adaption
  from jax_sgmc.data import MiniBatchInformation
  from jax_sgmc.util import tensor_matmul
  desc, d, kind = scn["desc"], scn["dim"], scn["kind"]
  def leaves(x):
    return [x] if x["t"] == "leaf" else [y for c in x["c"] for y in leaves(c)]
  scn["leaves"] = leaves(desc)
  T = lambda v: build(desc, v)
  x0 = T(scn["x0"])
  tr.cfg = {"dim": d, "kind": kind, "alpha": fx(scn.get("alpha", 0.9)),
            "lmbd": fx(scn.get("lmbd", 1e-5)), "burnin": scn.get("burnin", 0),
            "diagonal": int(scn.get("diagonal", 1)),
            "half": int(any("dt" in x for x in scn["leaves"])),
            "ini": fxs(scn.get("ini") or [1.0] * d)}
  vm = scn["vmap"]
  # With vmap a second chain runs beside; its values are different
  stack = (lambda a, b: jax.tree_util.tree_map(lambda p, q: jnp.stack([p, q]), a, b))
  pick = 1 if vm else None
  wrap = jax.vmap if vm else (lambda f: f)
  jit = jax.jit if scn["jit"] else (lambda f: f)
  arg = lambda v: stack(T([-2.0 * a + 1 for a in v]), T(v)) if vm else T(v)

  if kind == "rms":
    init, update, get = adaption.rms_prop()
    kw = {}
    if "alpha" in scn:
      kw = {"alpha": scn["alpha"], "lmbd": scn["lmbd"]}
    st = wrap(lambda s: init(s, **kw))(arg(scn["x0"]))
    up = jit(wrap(lambda s, x, g: update(s, x, g)))
    def obs(s, x, g, v):
      q = get(s, x, g)
      return q, tensor_matmul(q.g_inv, v)
    ob = jit(wrap(obs)) if vm or not scn["jit"] else None
    # ndim is static: without vmap evaluate outside of jit
    for op in scn["ops"]:
      if op["op"] == "update":
        st = up(st, arg(op["x"]), arg(op["grad"]))
        tr("update", x=fxs(op["x"]), grad=fxs(op["grad"]))
      else:
        q, mv = (ob or obs)(st, arg(op["x"]), arg(op["grad"]), arg(op["vec"])) if not vm else (
          wrap(lambda s, x, g: tuple(t.tensor for t in get(s, x, g)))(
            st, arg(op["x"]), arg(op["grad"])), None)
        if vm:
          from jax_sgmc.util import Tensor
          g, s, z = (enc(Tensor(1, t), x0, 1) for t in q)
          tr("rms", g=g, s=s, z=z, mv=[], vec=[])
        else:
          g, s, z = (enc(t, x0, None) for t in q)
          tr("rms", g=g, s=s, z=z, mv=fxs(flat(mv)), vec=fxs(op["vec"]))
  elif kind == "mass":
    init, update, get = adaption.mass_matrix(
      diagonal=bool(scn["diagonal"]), burn_in=scn["burnin"])
    ini = scn.get("ini")
    cov = lambda: None if ini is None else (
      stack(T([2 * a for a in ini]), T(ini)) if vm else T(ini))
    if vm:
      st = jax.vmap(init)(arg(scn["x0"]), cov()) if ini is not None else \
        jax.vmap(lambda x: init(x, None))(arg(scn["x0"]))
    else:
      st = init(T(scn["x0"]), cov())
    up = jit(wrap(lambda s, x: update(s, x) if not scn["extra"] else update(s, x, x)))
    for op in scn["ops"]:
      if op["op"] == "update":
        st = up(st, arg(op["x"]))
        tr("update", x=fxs(op["x"]), grad=[0] * d)
      else:
        if vm:
          one = lambda s: tuple(t.tensor for t in get(s))
          nds = [1 if scn["diagonal"] else 2] * 2
          q = jax.vmap(one)(st)
          from jax_sgmc.util import Tensor
          g, s = (enc(Tensor(n, t), x0, 1) for n, t in zip(nds, q))
          tr("mass", g=g, s=s, mv=[], vec=[])
        else:
          q = get(st)
          mv = tensor_matmul(q.inv, T(op["vec"]))
          tr("mass", g=enc(q.inv, x0, None), s=enc(q.sqrt, x0, None),
             mv=fxs(flat(mv)), vec=fxs(op["vec"]))
  else:
    N, n = scn["N"], scn["n"]
    A = jnp.array(scn["a"], jnp.float32)       # n x d
    K = jnp.array(scn["k"], jnp.float32)       # n x d curvatures
    stateful = scn["stateful"]

    def lik(sample, i):
      w = flat(sample)
      return A[i] @ w - 0.5 * jnp.sum(K[i] * w * w)

    def potential(sample, batch, state=None, mask=None, likelihoods=False):
      data, info = batch
      lk = jax.vmap(lambda i: lik(sample, i))(data["i"])
      if stateful:
        lk = lk + state * flat(sample)[0] * 0.5
      u = -N / n * jnp.sum(lk)
      return (u, (lk, state)) if likelihoods else (u, state)

    init, update, get = adaption.fisher_information(
      minibatch_potential=potential, diagonal=bool(scn["diagonal"]))
    info = MiniBatchInformation(observation_count=N, mask=jnp.ones(n, bool), batch_size=n)
    perm = onp.array(scn["perm"])
    batch = ({"i": jnp.array(perm)}, info)
    st = init(x0)
    for op in scn["ops"]:
      x, fr, h = T(op["x"]), T(op["fr"]), jnp.float32(op["h"])
      ms = jnp.float32(op["ms"]) if stateful else None
      g = jax.grad(lambda s: potential(s, batch, state=ms)[0])(x)
      kw = dict(mini_batch=batch, step_size=h)
      st = update(st, x, g, fr, **kw)
      q = get(st, x, g, fr, model_state=ms, **kw)
      w = onp.array(op["x"])
      gs = [onp.array(scn["a"][i]) - onp.array(scn["k"][i]) * w for i in perm]
      if stateful:
        for v in gs:
          v[0] += op["ms"] / 2
      V = onp.atleast_2d(onp.cov(onp.stack(gs).T)) * op["h"] / 2
      psd = onp.linalg.eigvalsh(onp.diag(op["fr"]) - V).min() > 1e-3
      tr("noise", g=enc(q.b_sqrt, x0, None), s=enc(q.cb_diff_sqrt, x0, None),
         gs=[fxs(v) for v in gs], h=fx(op["h"]), fr=fxs(op["fr"]), psd=int(psd))
  return tr.cfg


if __name__ == "__main__":
  drv.main(handler)
