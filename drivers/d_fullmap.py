"""Driver for sweeps over complete datasets (C01)."""
import numpy as onp
import jax
import jax.numpy as jnp

import drv
from d_loader import new_loader


def make_fun(K, mb, masking, info, style):
  """The mapped function logs its calls in the carry."""
  def fun(batch, *rest):
    mask, carry = (rest if masking else (None, rest[0]))
    if info:
      batch, inf = batch
    a = (batch["a"] - 5) // 3
    b = batch["b"]
    okb = (b[:, 0] == -b[:, 1]) & (b[:, 2] == b[:, 0] + 1) & (
      batch["a"] == 3 * a + 5) & jnp.all(batch["c"] * 4 == b[:, 0, None, None], axis=(1, 2))
    okb &= (batch["d"] * 2 == a) & (batch["e"][:, 0] == a + 7) & (batch["e"][:, 1] == 2 * a) & (
      batch["g"] == (a % 3 == 0)) & (batch["u"] == a * 5 % 251)
    y = jnp.where(okb, b[:, 0].astype(jnp.int32), -1)
    i = carry["i"]
    new = dict(carry)
    new["i"] = i + 1
    put = lambda buf, v: buf.at[i].set(jnp.asarray(v).astype(buf.dtype), mode="drop")
    new["x"], new["y"] = put(carry["x"], a), put(carry["y"], y)
    new["c"] = put(carry["c"], i)
    if masking:
      new["m"] = put(carry["m"], mask)
    if info:
      new["im"] = put(carry["im"], inf.mask)
      new["n"] = put(carry["n"], inf.observation_count)
      new["mb"] = put(carry["mb"], inf.batch_size)
    if masking:
      res = jnp.sum(jnp.where(mask, a, 0)) if style == 0 else {
        "s": jnp.sum(jnp.where(mask, a, 0)), "i": i}
    elif style == 0:
      res = a
    else:
      res = {"r": a, "t": (jnp.stack([y, y + 1], axis=1), a * 1.0)}
    return res, new
  return fun


def carry0(K, mb):
  z = lambda *s: jnp.full(s, -2, jnp.int32)
  return {"i": jnp.array(0, jnp.int32), "x": z(K + 3, mb), "y": z(K + 3, mb),
          "m": z(K + 3, mb), "im": z(K + 3, mb), "c": z(K + 3), "n": z(K + 3),
          "mb": z(K + 3)}


def handler(scn, tr, tmp):
  from jax_sgmc import data as jd
  n, mb, cache = scn["n"], scn["mb"], scn["cache"]
  K = -(-n // mb)
  host = scn["host"]
  L = new_loader(scn.get("loader") or ("host" if host else "device"), n)
  lanes, fns = {}, {}
  if scn["api"] == "map":
    init, fmap, _ = jd.full_reference_data(L, cache, mb)
  else:
    mapper, _ = jd.full_data_mapper(L, cache, mb)
    tr("lane", a=0, host=host, off=0)
  for op in scn["ops"]:
    if op["op"] == "lane":
      off = op.get("off", 0)
      lanes[op["a"]] = init(offset=off) if off else init()
      tr("lane", a=op["a"], host=host, off=off)
      continue
    a, masking, info, style = op["a"], op["masking"], op["info"], op["style"]
    key = (masking, info, style, op["jit"])
    if key not in fns:
      fun = make_fun(K, mb, masking, info, style)
      if scn["api"] == "map":
        f = lambda st, c, fun=fun, masking=masking, info=info: fmap(
          fun, st, c, masking=bool(masking), information=bool(info))
      else:
        f = lambda st, c, fun=fun, masking=masking, info=info: (0, mapper(
          fun, c, masking=bool(masking), information=bool(info)))
      fns[key] = jax.jit(f) if op["jit"] else f
    tr("begin", a=a)
    lanes[a], (res, carry) = jax.block_until_ready(
      fns[key](lanes.get(a, 0), carry0(K, mb)))
    carry = jax.tree_util.tree_map(onp.asarray, carry)
    count = int(carry["i"])
    for i in range(max(0, min(count, K + 3))):
      lst = lambda k: [int(v) for v in carry[k][i]]
      tr("call", x=lst("x"), y=lst("y"), m=lst("m"), im=lst("im"),
         c=int(carry["c"][i]), n=int(carry["n"][i]), mb=int(carry["mb"][i]),
         masking=masking, info=info)
    out = []
    if masking:
      s = onp.asarray(res if style == 0 else res["s"])
      # one result for each call, in the order of the calls
      ok = s.shape == (K,) and (style == 0 or list(onp.asarray(res["i"])) == list(range(K)))
      exp = [int(sum(x for x, v in zip(carry["x"][i], carry["m"][i]) if v == 1))
             for i in range(K)]
      if not ok or [int(v) for v in s] != exp:
        tr("bad_results", res=[int(v) for v in onp.ravel(s)])
    elif style == 0:
      out = [int(v) for v in onp.ravel(res)]
    else:
      r, (t, d) = res["r"], res["t"]
      out = [int(v) for v in onp.ravel(r)]
      if not (t.shape == (n, 2) and d.shape == (n,)
              and onp.array_equal(t[:, 0], r) and onp.array_equal(t[:, 1], r + 1)
              and onp.array_equal(d, r * 1.0)):
        out = [-1]
    tr("end", res=out, c=count, masking=masking)
  return {"n": n, "mb": mb, "cache": cache}


if __name__ == "__main__":
  drv.main(handler)
