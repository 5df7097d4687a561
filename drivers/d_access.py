"""Driver for cached access to host data (C04, C05)."""
import threading
import time

import numpy as onp
import jax
import jax.numpy as jnp
from jax import lax

import drv
from d_loader import fields, hdf5_args, superbatch, batch_event, KW

CH = 1000   # chain numbers: loader * CH + chain of the loader


def make_loader(spec, num, n, tr):
  """A loader which records what it returns."""
  from jax_sgmc.data.core import HostDataLoader
  from jax_sgmc.data.numpy_loader import NumpyDataLoader

  delay = spec.get("delay", 0.0)

  if spec["type"] in ("numpy", "hdf5"):
    from jax_sgmc.data.hdf5_loader import HDF5Loader
    h5 = spec["type"] == "hdf5"
    class Recording(HDF5Loader if h5 else NumpyDataLoader):
      def get_batches(self, chain_id):
        data, mask = super().get_batches(chain_id)
        tr("serve", ch=num * CH + int(chain_id),
           bs=strip(superbatch(data, mask, n)))
        return data, mask
    return Recording(**(hdf5_args(n) if h5 else fields(n)))

  class Numbered(HostDataLoader):
    """Batch i of chain c holds the numbers 1000 c + mb i + j."""
    def __init__(self):
      super().__init__()
      self.chains = []
      self.active = 0

    @property
    def static_information(self):
      return {"observation_count": n}

    @property
    def _format(self):
      f = fields(1, wide=False)
      return {k: jax.ShapeDtypeStruct(v.shape[1:], v.dtype) for k, v in f.items()}

    def register_random_pipeline(self, cache_size=1, mb_size=None, **kw):
      self.chains.append([cache_size, mb_size, 0])
      return len(self.chains) - 1

    register_ordered_pipeline = register_random_pipeline

    def get_batches(self, chain_id):
      c = self.chains[int(chain_id)]
      if delay:
        time.sleep(delay)
      cache, mb, start = c
      c[2] = start + cache
      i = onp.arange(start * mb, (start + cache) * mb) + 1000 * int(chain_id)
      data = {k: v[i].reshape((cache, mb) + v.shape[1:])
              for k, v in fields(1000 * (len(self.chains) + 1), wide=False).items()}
      if spec.get("mask"):
        mask = ((onp.arange(start, start + cache)[:, None] * 7
                 + onp.arange(mb)[None, :] * 3) % 4 != 0)
      else:
        mask = None
      tr("serve", ch=num * CH + int(chain_id),
         bs=strip(superbatch(data, mask, n, cache, mb)))
      if spec.get("host_arrays"):
        return data, mask
      return ({k: jnp.array(v) for k, v in data.items()},
              None if mask is None else jnp.array(mask))
  return Numbered()


def strip(bs):
  return [{"x": b["x"] if all(f == b["x"] for f in b["f"]) else [-1],
           "m": b["m"]} for b in bs]


def handler(scn, tr, tmp):
  from jax_sgmc import data as jd
  n, mb = scn["n"], scn["mb"]
  loaders = [make_loader(s, i, n, tr) for i, s in enumerate(scn["loaders"])]
  states, getters, chain_of, fulls = {}, {}, {}, {}
  fresh = [10000]
  mode = scn.get("mode", "jit")
  info = scn.get("info", 1)

  def rec(s, r, dev, batch, inf):
    e = strip([batch_event(batch, inf.mask if inf is not None else onp.zeros(0), n)])[0]
    if inf is None:
      tr("acc", s=s, r=r, dev=dev, x=e["x"], m=[], noinfo=1)
    else:
      tr("acc", s=s, r=r, dev=dev, x=e["x"], m=e["m"], noinfo=0,
         n=int(onp.ravel(inf.observation_count)[0]),
         mb=int(onp.ravel(inf.batch_size)[0]))

  def raw(s, dev):
    get = getters[chain_of[s]]
    def f(st):
      st, b = get(st, information=bool(info), device_count=dev)
      if info:
        return st, b[0], b[1]
      return st, b, None
    return f

  opened, releases = {}, {}
  jitted = {}
  def fn(s, dev, how):
    key = (id(getters[chain_of[s]]), dev, how)
    if key not in jitted:
      f = raw(s, dev)
      jitted[key] = jax.jit(f) if how == "jit" else f
    return jitted[key]

  def put(s, r, st):
    states[r] = st
    chain_of[r] = chain_of[s]

  def newid():
    fresh[0] += 1
    return fresh[0]

  for op in scn["ops"]:
    k = op["op"]
    if k == "open":
      ld = op.get("ld", 0)
      full = op.get("full", 0)
      kw = {} if full or scn["loaders"][ld]["type"] == "count" else \
        dict(KW[op.get("kind", "draw")])
      like = (ld, full, op["cache"], full or op["strict"])
      if op.get("share") and like in opened:      # another chain of the same source
        init, get, rel = opened[like]
        fmap = get
      elif full:
        init, fmap, rel = jd.full_reference_data(loaders[ld], op["cache"], mb)
        get = fmap
      else:
        init, get, rel = jd.random_reference_data(
          loaders[ld], op["cache"], mb, verify_calls=bool(op["strict"]))
      if op.get("share"):
        opened[like] = init, get, rel
      st = init(**kw)
      ch = ld * CH + int(st.chain_id)
      chain_of[op["s"]] = ch
      (fulls if full else getters)[ch] = fmap if full else get
      states[op["s"]] = st
      releases[ch] = rel
      tr("open", ch=ch, s=op["s"], cache=op["cache"],
         strict=1 if full else op["strict"])
    elif k == "acc":
      s, dev = op["s"], op.get("dev", 1)
      try:
        st, b, inf = jax.block_until_ready(
          fn(s, dev, op.get("how", mode))(states[s]))
      except Exception as e:
        tr("refused", s=s, steps=1, msg=str(e)[-150:])
      else:
        r = op["r"] if op["r"] >= 0 else newid()
        rec(s, r, dev, b, inf)
        put(s, r, st)
    elif k == "scan":
      s, K = op["s"], op["steps"]
      f = raw(s, 1)
      def body(st, _):
        st, b, inf = f(st)
        return st, (b, inf, st.current_line)
      try:
        if op.get("how") == "loop":
          # while loop writing into a buffer
          _, ob, oinf = jax.eval_shape(f, states[s])
          bufs = jax.tree_util.tree_map(
            lambda x: jnp.zeros((K,) + tuple(x.shape), x.dtype), (ob, oinf))
          def lbody(i, c):
            st, bf = c
            st, b, inf = f(st)
            bf = jax.tree_util.tree_map(lambda a, v: a.at[i].set(v), bf, (b, inf))
            return st, bf
          st, (bs, infs) = jax.block_until_ready(jax.jit(
            lambda st: lax.fori_loop(0, K, lbody, (st, bufs)))(states[s]))
        else:
          st, (bs, infs, _) = jax.block_until_ready(jax.jit(
            lambda st: lax.scan(body, st, None, length=K))(states[s]))
      except Exception as e:
        tr("refused", s=s, steps=K, msg=str(e)[-150:])
      else:
        prev = s
        for i in range(K):
          nxt = op["r"] if i == K - 1 else newid()
          pick = lambda x: jax.tree_util.tree_map(lambda v: onp.asarray(v)[i], x)
          rec(prev, nxt, 1, pick(bs), pick(infs))
          put(prev, nxt, st)   # intermediate values are not available
          prev = nxt
    elif k == "map":
      s = op["s"]
      fmap = fulls[chain_of[s]]
      K = -(-n // mb)
      def sweep(st):
        return fmap(lambda b, m, c: ((b, m), c), st, 0, masking=True,
                    information=True)
      try:
        st, ((bs, ms), _) = jax.block_until_ready(
          (jax.jit(sweep) if op.get("how", mode) == "jit" else sweep)(states[s]))
      except Exception as e:
        tr("refused", s=s, steps=K, msg=str(e)[-150:])
      else:
        bs, infs = bs
        prev = s
        for i in range(K):
          nxt = op["r"] if i == K - 1 else newid()
          pick = lambda x: jax.tree_util.tree_map(lambda v: onp.asarray(v)[i], x)
          rec(prev, nxt, 1, pick(bs), pick(infs))
          put(prev, nxt, st)
          prev = nxt
    elif k == "pmap":
      ids, dev = op["ss"], len(op["ss"])
      f = raw(ids[0], dev)
      stacked = jax.tree_util.tree_map(
        lambda *x: onp.stack([onp.asarray(v) for v in x]),
        *[states[s] for s in ids])
      try:
        st, bs, infs = jax.block_until_ready(jax.pmap(f)(stacked))
      except Exception as e:
        tr("refused", s=ids[0], steps=1, msg=str(e)[-150:])
      else:
        for i, (s, r) in enumerate(zip(ids, op["rs"])):
          pick = lambda x: jax.tree_util.tree_map(lambda v: onp.asarray(v)[i], x)
          rec(s, r, dev, pick(bs), pick(infs))
          put(s, r, pick(st))
    elif k == "threads":
      ids, dev = op["ss"], op["dev"]
      f = fn(ids[0], dev, op.get("how", mode))
      outs = [None] * len(ids)
      start = threading.Barrier(len(ids))
      def work(i):
        start.wait()
        try:
          outs[i] = jax.block_until_ready(f(states[ids[i]]))
        except Exception as e:
          outs[i] = e
      ths = [threading.Thread(target=work, args=(i,)) for i in range(len(ids))]
      for th in ths:
        th.start()
      for th in ths:
        th.join()
      # Concurrent accesses take effect in some order: the granted ones in the
      # order of their batches, the refused ones afterwards.
      good = [(i, o) for i, o in enumerate(outs) if not isinstance(o, Exception)]
      def order(io):
        return int(onp.asarray(io[1][1]["a"])[0])
      for i, (st, b, inf) in sorted(good, key=order):
        rec(ids[i], op["rs"][i], dev, b, inf)
        put(ids[i], op["rs"][i], st)
      for i, o in enumerate(outs):
        if isinstance(o, Exception):
          tr("refused", s=ids[i], steps=1)
    elif k == "release":      # the chain is not used any more
      releases[chain_of[op["s"]]]()
    elif k == "devcount":
      s = op["s"]
      raised = 0
      st0 = states[s]
      try:
        jax.eval_shape(lambda st: getters[chain_of[s]](st, device_count=op["k"]), st0)
      except Exception:
        raised = 1
      tr("devcount", k=op["k"], available=jax.device_count(), raised=raised)
    tr("sync")
  return {"n": n}


if __name__ == "__main__":
  drv.main(handler)
