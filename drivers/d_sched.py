"""Driver for the schedulers (C07)."""
import numpy as onp
import jax
import jax.numpy as jnp

import drv
from num import fx


def build(b):
  """Real scheduler from fixed-point parameters."""
  from jax_sgmc import scheduler as s
  F = lambda k: b[k] / 2 ** 20
  step = None
  if b["kind"] == "poly":
    step = s.polynomial_step_size(**{k: F(k) for k in ("a", "b", "gamma") if k in b})
  elif b["kind"] == "firstlast":
    step = s.polynomial_step_size_first_last(
      **{k: F(k) for k in ("first", "last", "gamma") if k in b})
  temp = s.constant_temperature(F("tau")) if "tau" in b else None
  burn = s.initial_burn_in(b["n"]) if "n" in b else None
  thin = None
  if "sel" in b:
    kw = {"key": jax.random.PRNGKey(b["key"])} if "key" in b else {}
    thin = s.random_thinning(
      step if step is not None else s.polynomial_step_size(1.0, 1.0, 0.0),
      s.initial_burn_in(b["tn"]), b["sel"], **kw)
  return step, temp, burn, thin


def overrides(o):
  r = {}
  for grp, keys in (("step_size", ("a", "b", "gamma", "first", "last")),
                    ("temperature", ("tau",))):
    d = {k: o[k] / 2 ** 20 for k in keys if k in o}
    if d:
      r[grp] = d
  if "n" in o:
    r["burn_in"] = {"n": o["n"]}
  th = {}
  if "sel" in o:
    th["selections"] = o["sel"]
  if "key" in o:
    th["key"] = jax.random.PRNGKey(o["key"])
  if "tn" in o:
    from jax_sgmc import scheduler as s
    th["burn_in_schedule"] = s.initial_burn_in(o["tn"])
  if th:
    r["thinning"] = th
  return r


def handler(scn, tr, tmp):
  from jax_sgmc import scheduler as s
  from jax_sgmc import util

  def rec(sch):
    a = onp.asarray(sch.accept)
    tr("get", step=fx(sch.step_size), temp=fx(sch.temperature),
       burn=fx(sch.burn_in), acc=int(a))

  for op in scn["ops"]:
    b, over, T = op["built"], op["over"], op["T"]
    if op["op"] == "freq":
      _, _, _, thin = build(b)
      counts = onp.zeros(T, int)
      for i in range(op["num"]):
        st, n = thin.init(T, key=jax.random.PRNGKey(op["seed"] * 100003 + i))
        for j in onp.ravel(st):
          counts[int(j)] += 1
      tr("freq", built=b, over=over, T=T, num=op["num"],
         counts=[int(c) for c in counts])
      continue
    parts = build(b)
    kw = {}
    if "bar" in op:
      kw["progress_bar"] = bool(op["bar"])
    if "steps" in op:
      kw["progress_bar_steps"] = op["steps"]
    init, update, get = s.init_scheduler(*parts, **kw)
    try:
      st, static = init(T, **overrides(over))
    except Exception as e:
      tr("rejected", built=b, over=over, T=T, type=type(e).__name__)
      continue
    ann = static.samples_collected
    mode = op["mode"]
    start = lambda: tr("init", built=b, over=over, T=T, announced=int(ann))
    stats = op.get("stats") or {}
    stats = {k: jnp.float32(v) for k, v in stats.items()}
    if mode == "eager":
      start()
      for k in range(T):
        rec(get(st))
        if op.get("twice"):
          rec(get(st, **stats))
        st = update(st, **stats)
        tr("update")
      tr("fin")
    elif mode == "scan":
      start()
      def f(st, _):
        sch = get(st)
        return update(st, **stats), sch
      st, schs = jax.jit(lambda st: jax.lax.scan(f, st, jnp.arange(T)))(st)
      schs = jax.tree_util.tree_map(onp.asarray, schs)
      for k in range(T):
        rec(jax.tree_util.tree_map(lambda x: x[k], schs))
        tr("update")
      tr("fin")
    else:
      # Several schedulers with equal structure next to each other
      others = [init(T, **overrides(o))[0] for o in op["others"]]
      where = op["pos"]
      sts = others[:where] + [st] + others[where:]
      def f(sts, _):
        schs = util.list_vmap(get)(*sts)
        return list(util.list_vmap(lambda s: update(s, **stats))(*sts)), schs
      sts = [jax.tree_util.tree_map(jnp.asarray, x) for x in sts]
      _, schs = jax.jit(lambda s: jax.lax.scan(f, s, jnp.arange(T)))(sts)
      start()
      mine = jax.tree_util.tree_map(onp.asarray, schs[where])
      for k in range(T):
        rec(jax.tree_util.tree_map(lambda x: x[k], mine))
        tr("update")
      tr("fin")
  return {}


if __name__ == "__main__":
  drv.main(handler)
