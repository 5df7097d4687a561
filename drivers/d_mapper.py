"""Driver for concurrent and nested full-data mappings (C06)."""
import itertools
import threading
import time

import numpy as onp
import jax
import jax.numpy as jnp
import jax.experimental as jxp

import drv
from d_loader import fields

I = lambda v: [int(x) for x in onp.ravel(v)]


def make_loader(n, device, tr):
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  i = onp.arange(n)
  data = dict(a=i.astype(onp.int32), b=onp.stack([i, -i], 1).astype(onp.float32))
  if device:
    return DeviceNumpyDataLoader(**data)

  class ChainLoader(NumpyDataLoader):
    """Adds the number of the chain to each observation."""
    def register_ordered_pipeline(self, *args, **kw):
      c = super().register_ordered_pipeline(*args, **kw)
      time.sleep(0.01)
      if c != 0:
        tr("create", s=int(c))
      return c

    def get_batches(self, chain_id):
      d, m = super().get_batches(chain_id)
      # arrays have to be created on the host only
      d = {k: onp.asarray(v) for k, v in d.items()}
      d["ch"] = onp.full(d["a"].shape, int(chain_id), onp.int32)
      return d, onp.asarray(m)

    @property
    def _format(self):
      f = dict(super()._format)
      f["ch"] = jax.ShapeDtypeStruct((), onp.int32)
      return f
  return ChainLoader(**data)


def handler(scn, tr, tmp):
  from jax_sgmc import data as jd
  n, mb, cache, device = scn["n"], scn["mb"], scn["cache"], scn["device"]
  K = -(-n // mb)
  L = make_loader(n, device, tr)
  mapper, release = jd.full_data_mapper(L, cache, mb)
  ids = itertools.count()
  lock = threading.Lock()
  gate = {"order": [], "on": False}
  cond = threading.Condition()
  tag_of = {}

  def begin(tag):
    with lock:
      m = next(ids)
      tr("begin", m=m)
      tag_of[m] = int(tag)
    return onp.int32(m)

  def called(m, c, a, b, ch, mask):
    a, b = onp.asarray(a), onp.asarray(b)
    ok = onp.array_equal(b[:, 0], a) and onp.array_equal(b[:, 1], -a)
    with lock:
      tr("call", m=int(m), s=int(onp.ravel(ch)[0]) if len(set(I(ch))) == 1 else -9,
         x=I(a) if ok else [-1], v=I(mask), c=int(c))
    # Follow the requested schedule of the threads as far as possible
    if gate["on"]:
      tag = tag_of[int(m)]
      with cond:
        if tag in gate["order"]:
          gate["order"].remove(tag)
        cond.notify_all()
        until = time.time() + 0.25
        while gate["on"] and gate["order"] and gate["order"][0] != tag and \
            time.time() < until:
          cond.wait(0.05)
    return onp.int32(0)

  def ended(m, c, res):
    with lock:
      tr("end", m=int(m), c=int(c), res=I(res))
    return onp.int32(0)

  i32 = jax.ShapeDtypeStruct((), jnp.int32)
  FULL = jnp.array([[1 if k * mb + i < n else 0 for i in range(mb)]
                    for k in range(K)], jnp.int32)

  def logcall(m, c, batch, mask):
    ch = batch.get("ch", jnp.full(mb, -1, jnp.int32))
    return jxp.io_callback(called, i32, m, c, batch["a"], batch["b"], ch, mask)

  def mapping(tag, kind, depth, live):
    """One mapping; kind selects the signature of the mapped function. live:
    begin/end are recorded by callbacks (nested mappings)."""
    m = jxp.io_callback(begin, i32, tag) if live else tag[0]
    inner_tag = tag if live else tag[1]
    masked, info = kind % 2 == 0, kind // 2 % 2 == 1

    def fun(batch, *rest):
      mask, c = rest if masked else (None, rest[0])
      if info:
        batch, inf = batch
        vmask = inf.mask.astype(jnp.int32)
      else:
        vmask = mask.astype(jnp.int32) if masked else FULL[jnp.minimum(c["k"], K - 1)]
      if masked:
        # both masks agree
        vmask = jnp.where(mask.astype(jnp.int32) == vmask, vmask, 5)
      z = logcall(m, c["k"], batch, vmask)
      k = c["k"] + 1 + z
      if depth > 0:
        inner, _ = mapping(inner_tag + 0 * z, (kind + 1) % 4, depth - 1, True)
        k = k + 0 * inner
      res = jnp.sum(batch["a"]) if masked else {"a": batch["a"], "q": batch["b"]}
      return res, {"k": k, "w": c["w"]}

    res, carry = mapper(fun, {"k": jnp.array(0, jnp.int32), "w": jnp.ones(3)},
                        masking=masked, information=info)
    if masked:
      out = jnp.zeros(0, jnp.int32)
    else:
      out = jnp.where(jnp.all(res["q"] == jnp.stack([res["a"], -res["a"]], 1)),
                      res["a"], -1)
    if live:
      z = jxp.io_callback(ended, i32, m, carry["k"], out)
      return z, None
    return carry["k"], out

  fns = {}
  def run(tag, kind, depth, how):
    key = (kind, depth)
    f = lambda m, tg: mapping((m, tg), kind, depth, False)
    if how == "jit":
      if key not in fns:
        fns[key] = jax.jit(f)
      f = fns[key]
    m = jnp.array(int(begin(tag)), jnp.int32)
    c, out = jax.block_until_ready(f(m, jnp.array(tag, jnp.int32)))
    ended(m, c, out)

  for op in scn["ops"]:
    if op["op"] == "run":
      run(0, op["kind"], op["depth"], op["how"])
    elif op["op"] == "threads":
      for kind, depth, how in sorted({(j["kind"], j["depth"], j["how"]) for j in op["jobs"]}):
        run(0, kind, depth, how)     # compile in advance
      gate["order"], gate["on"] = list(op.get("order", [])), bool(op.get("order"))
      errs = []
      def work(tag, job):
        try:
          for _ in range(job.get("times", 1)):
            run(tag, job["kind"], job["depth"], job["how"])
        except BaseException as e:
          errs.append(e)
        with cond:
          gate["order"] = [o for o in gate["order"] if o != tag]
          cond.notify_all()
      ths = [threading.Thread(target=work, args=(i, j), daemon=True)
             for i, j in enumerate(op["jobs"])]
      for th in ths:
        th.start()
      for th in ths:
        th.join()
      gate["on"] = False
      if errs:
        raise errs[0]
    elif op["op"] == "unbatched":
      ct, info = op["carry"], op["info"]
      mk = {"int": lambda: jnp.array(0), "none": lambda: None,
            "dict": lambda: {"k": jnp.array(0), "v": jnp.arange(3.0)},
            "array": lambda: jnp.zeros((2, 2), jnp.int32),
            "tuple": lambda: (jnp.array(0), {"z": jnp.zeros(2)}),
            "float": lambda: 0.0}[ct]
      kof = {"int": lambda c: c, "none": lambda c: jnp.array(0),
             "dict": lambda c: c["k"], "array": lambda c: c[1, 0],
             "tuple": lambda c: c[0], "float": lambda c: c}[ct]
      nxt = {"int": lambda c: c + 1, "none": lambda c: None,
             "dict": lambda c: {"k": c["k"] + 1, "v": c["v"]},
             "array": lambda c: c + 1,
             "tuple": lambda c: (c[0] + 1, {"z": c[1]["z"] + 2}),
             "float": lambda c: c + 1.0}[ct]
      def fun(obs, c):
        if info:
          obs, inf = obs
          ok = (inf.observation_count == n) & (inf.batch_size == mb)
        else:
          ok = True
        ok &= (obs["b"].shape == (2,)) and (obs["a"].shape == ())
        ok &= jnp.all(obs["b"] == jnp.stack([obs["a"], -obs["a"]]))
        return ({"r": jnp.where(ok, obs["a"], -1), "k": kof(c)}, nxt(c))
      f = lambda c: mapper(fun, c, batched=False, information=bool(info))
      res, last = (jax.jit(f) if op["how"] == "jit" else f)(mk())
      carries = [int(v) for v in onp.asarray(res["k"])]
      final = K
      if ct == "none":
        carries = [i // mb for i in range(n)] if last is None else [-1]
      else:
        want = mk()
        for _ in range(K):
          want = nxt(want)
        same = jax.tree_util.tree_structure(want) == jax.tree_util.tree_structure(last) \
          and all(onp.array_equal(a, b) and jnp.shape(a) == jnp.shape(b) for a, b in zip(
            jax.tree_util.tree_leaves(want), jax.tree_util.tree_leaves(last)))
        final = int(kof(last)) if same else -1
      tr("unbatched", res=I(res["r"]), carries=carries, c=final)
    elif op["op"] == "badmask":
      raised = 0
      try:
        mapper(lambda b, m, c: (b["a"], c), jnp.array(0), batched=False, masking=True)
      except Exception:
        raised = 1
      tr("fin") if raised else tr("not_rejected")
  tr("fin")
  return {"n": n, "mb": mb, "device": device}


if __name__ == "__main__":
  drv.main(handler)
