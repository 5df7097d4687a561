"""Driver for the progress bar (C21): lines printed by schedulers and runs."""
import re
import sys
import threading
from collections import namedtuple

import numpy as onp
import jax
import jax.numpy as jnp

import drv

State = namedtuple("State", ["n", "h"])


class Lines:
  """Collects the lines of all threads; a line is printed by one thread."""

  def __init__(self):
    self.part, self.lines, self.lock = {}, [], threading.Lock()

  def write(self, s):
    i = threading.get_ident()
    with self.lock:
      text = self.part.get(i, "") + s
      *full, self.part[i] = text.split("\n")
      self.lines += [x for x in full if x.strip()]
    return len(s)

  def flush(self):
    pass


def handler(scn, tr, tmp):
  from jax_sgmc import scheduler as s, solver as sv, io
  from jax.experimental import host_callback as hcb
  T, scheds = scn["T"], scn["scheds"]

  def make(bar, burn0, sel):
    step = s.polynomial_step_size_first_last(0.1, 0.01)
    burn = s.initial_burn_in(burn0)
    thin = None if sel < 0 else s.random_thinning(step, burn, sel, key=jax.random.PRNGKey(scn["key"]))
    kw = {} if scn["steps"] is None else {"progress_bar_steps": scn["steps"]}
    return s.init_scheduler(step, burn_in=burn, thinning=thin, progress_bar=bar, **kw)

  first = scheds[0]
  base = dict(burn=first["burn"], sel=scn["sel"])
  kwargs = []
  for c in scheds:
    kw = {}
    if c["burn"] != first["burn"]:
      kw["burn_in"] = {"n": c["burn"]}
    if not c["on"]:
      kw["enabled"] = jnp.array(False)
    if c.get("steps"):
      kw["progress_bar_steps"] = c["steps"]
    kwargs.append(kw)

  # Kept iterations and their number, without the bar
  reps = []
  quiet = make(False, base["burn"], base["sel"])
  for c, kw in zip(scheds, kwargs):
    st, info = quiet[0](T, **{k: v for k, v in kw.items() if k == "burn_in"})
    keep = []
    get, upd = jax.jit(quiet[2]), jax.jit(quiet[1])
    for _ in range(T):
      g = get(st)
      keep.append(int(bool(g.burn_in) and bool(g.accept)))
      st = upd(st)
    reps.append({"T": T, "steps": c.get("steps") or scn["steps"] or 20, "keep": keep,
                 "on": int(c["on"] and scn["bar"]), "tot": int(info.samples_collected)})

  def update(state, *schs):
    h = state.h
    for c in schs:
      h = (7 * h + 3 * jnp.int32(1000 * c.step_size) + 1) % 997
    return State(state.n + 1, h), ({"acceptance_ratio": h / 997} if scn["stats"] else None)
  slv = (lambda h: State(jnp.array(0), jnp.array(h)), update, lambda st: {"n": st.n, "h": st.h})

  def run(bar):
    sch = make(bar, base["burn"], base["sel"])
    if scn["mode"] == "scheduler":
      st, _ = sch[0](T, **kwargs[0])
      def body(st, _):
        g = sch[2](st)
        return sch[1](st, **({"acceptance_ratio": 0.5} if scn["stats"] else {})), \
          jnp.int32(1000 * g.step_size)
      if scn["jit"]:
        out = jax.jit(lambda st: jax.lax.scan(body, st, None, length=T)[1])(st)
      else:
        out = []
        for _ in range(T):
          st, o = body(st, None)
          out.append(o)
      return [int(v) for v in out]
    saving = io.save(io.MemoryCollector()) if scn["save"] else None
    go = sv.mcmc(slv, sch, strategy=scn["strategy"], saving=saving)
    res = go(*[slv[0](11 * k + 5) for k in range(scn["chains"])],
             schedulers=kwargs[1:] or None, iterations=T)
    return [int(v) for r in res for k in ("n", "h") for v in onp.ravel(r["samples"][k])]

  results = []
  for bar in ((True, False) if scn["bar"] else (False, True)):
    out = Lines()
    old = sys.stdout
    sys.stdout = out
    try:
      results.append(run(bar))
      jax.effects_barrier()
      hcb.barrier_wait()
    finally:
      sys.stdout = old
    if bar == bool(scn["bar"]):
      for line in out.lines:
        num = [int(x) for x in re.findall(r"-?\d+", line)]
        if len(num) != 5:
          tr("garbled", line=line[:200])
        else:
          tr("report", it=num[0], T=num[1], pct=num[2], got=num[3], tot=num[4])
      tr("done")
  a, b = results
  tr("results", bar=a, nobar=b)
  chains = 1 if scn["mode"] == "scheduler" else scn["chains"]
  use = reps[:1] if scn["mode"] == "scheduler" else reps
  return {"rep": [r for _ in range(chains) for r in use]}


if __name__ == "__main__":
  drv.main(handler)
