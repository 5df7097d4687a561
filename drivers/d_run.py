"""Driver for complete runs of mcmc with all saving strategies (C08, C09).

The solver and the schedules are small integer machines, see SolverRun.tla."""
import glob
import json
import os
import threading
import time
from collections import namedtuple

import numpy as onp
import jax
import jax.numpy as jnp

import drv

M = 997
NT = namedtuple("NT", ["zeta", "alpha"])


def tree_of(kind, n, h):
  n, h = jnp.asarray(n, jnp.int32), jnp.asarray(h, jnp.int32)
  if kind == 0:
    return {"n": n, "h": h}
  if kind == 1:
    return {"variables": {"w": jnp.stack([h, n, -h]).astype(jnp.float32),
                          "b": (n, h.astype(jnp.float32))},
            "mat": jnp.outer(jnp.array([1, 2]), jnp.stack([n, h, n + h]))}
  if kind == 2:
    return {"l": [n, h, n + 1, h + 1], "nt": NT(h, n), "flag": (n % 2) == 0}
  return {"z": jnp.full((2, 1, 2), h), "a": {"y": n, "x": h.astype(jnp.float32) / 4}}


def untree(kind, tree):
  """<<n, h>> of a stored sample, -1 if its leaves are inconsistent."""
  leaves = [onp.asarray(x) for x in jax.tree_util.tree_leaves(tree)]
  if kind == 0:
    n, h = int(leaves[1]), int(leaves[0])
  elif kind == 1:
    n, h = int(leaves[1]), int(leaves[2])
  elif kind == 2:
    n, h = int(leaves[1]), int(leaves[2])
  else:
    n, h = int(leaves[1]), int(leaves[2].ravel()[0])
  want = jax.tree_util.tree_leaves(jax.tree_util.tree_map(
    onp.asarray, tree_of(kind, n, h)))
  ok = len(want) == len(leaves) and all(
    w.shape == v.shape and w.dtype == v.dtype and onp.array_equal(w, v) for w, v in zip(want, leaves))
  return [n, h] if ok else [-1, -1]


def samples_of(kind, stacked, count=None):
  leaves, d = jax.tree_util.tree_flatten(stacked)
  num = len(leaves[0]) if count is None else count
  if any(len(x) != num for x in leaves):
    return [[-2, len(x)] for x in leaves]
  return [untree(kind, d.unflatten([x[i] for x in leaves])) for i in range(num)]


def schedulers(pats, a0, tau, bar, real):
  """Scheduler with arbitrary burn-in and thinning patterns, and step sizes
  depending on the statistics of the solver."""
  from jax_sgmc import scheduler as s
  count = lambda T: int(sum(b * t for b, t in zip(pats[T][0], pats[T][1])))

  def upd(state, iteration, acceptance_ratio=7.0, **kw):
    return (3 * state + jnp.asarray(acceptance_ratio, jnp.int32) + iteration) % M
  step = s.specific_scheduler(
    lambda its, a0=a0: jnp.array(a0, jnp.int32), upd,
    lambda st, it, **kw: st.astype(jnp.float32))
  temp = s.constant_temperature(float(tau))
  keep = lambda st, *a, **kw: st
  if real:
    T = real["T"]
    burn = s.initial_burn_in(real["n"])
    thin = None
    if real["sel"] >= 0:
      thin = s.random_thinning(s.polynomial_step_size(1.0, 1.0, 0.3),
                               s.initial_burn_in(real["n"]), real["sel"],
                               key=jax.random.PRNGKey(real["key"]))
  else:
    burn = s.specific_scheduler(
      lambda T, inv=0: (jnp.array([float(x) for x in pats[T][0]] + [0.0]) * (1 - inv), count(T)),
      keep, lambda st, it, **kw: st[it])
    thin = s.specific_scheduler(
      lambda T, inv=0: (jnp.array([bool(x) != bool(inv) for x in pats[T][1]] + [False]), count(T)),
      keep, lambda st, it, **kw: st[it])
  return s.init_scheduler(step, temp, burn, thin, progress_bar=bool(bar))


def solver(nsched, stats, kind, slow=0):
  State = namedtuple("State", ["n", "h"])

  def update(state, *schs):
    assert len(schs) == nsched
    h = state.h
    for s in schs:
      h = (7 * h + 3 * s.step_size.astype(jnp.int32)
           + 11 * s.temperature.astype(jnp.int32)) % M
    h = (h + 1) % M
    st = {"acceptance_ratio": (h % 10).astype(jnp.float32)} if stats else None
    if slow:
      jax.experimental.io_callback(lambda h: (time.sleep(slow / 1000), h)[1],
                                   jax.ShapeDtypeStruct((), jnp.int32), h, ordered=False)
    return State(state.n + 1, h), st

  init = lambda h: State(jnp.array(0, jnp.int32), jnp.array(h, jnp.int32))
  return (init, update, lambda st: tree_of(kind, st.n, st.h)), init


def delayed_callbacks(tr):
  """Host callbacks are processed by a thread of their own in the order of
  their execution, as by the outfeed mechanism of accelerators: the main thread
  is never delayed by them unless it waits explicitly."""
  import queue
  from jax.experimental import host_callback as hcb
  q = queue.Queue()
  tap, barrier = hcb.id_tap, hcb.barrier_wait

  def worker():
    while True:
      item = q.get()
      if item is None:
        return
      fn, args, kw = item
      try:
        fn(*args, **kw)
      except BaseException as e:
        tr("exception", type=type(e).__name__, msg=str(e)[:200])
      q.task_done()

  def id_tap(fn, arg, **kw):
    def put(a, *rest, **k):
      q.put((fn, (jax.tree_util.tree_map(onp.array, a), *rest), k))
    return tap(put, arg, **kw)

  def barrier_wait(*args, **kw):
    barrier(*args, **kw)
    q.join()

  hcb.id_tap, hcb.barrier_wait = id_tap, barrier_wait
  th = threading.Thread(target=worker, daemon=True)
  th.start()

  def undo():
    q.put(None)
    hcb.id_tap, hcb.barrier_wait = tap, barrier
  return undo


def handler(scn, tr, tmp):
  from jax_sgmc import io, solver as sv
  kind, coll = scn["tree"], scn["collector"]
  slow = scn.get("slow", {})
  nap = lambda what: time.sleep(slow.get(what, 0) / 1000)
  treedef = jax.tree_util.tree_structure(tree_of(kind, 0, 0))
  if slow:
    # Slow storage
    import ujson
    saved = (onp.savez, ujson.dump)
    def savez(*a, **k):
      nap("file")
      return saved[0](*a, **k)
    def dump(*a, **k):
      nap("file")
      return saved[1](*a, **k)
    onp.savez, ujson.dump = savez, dump
  undo = delayed_callbacks(tr) if scn.get("async") else lambda: None
  try:
    return _handle(scn, tr, tmp, io, sv, kind, coll, nap, treedef)
  finally:
    undo()
    if slow:
      onp.savez, ujson.dump = saved


def _handle(scn, tr, tmp, io, sv, kind, coll, nap, treedef):
  log, regs = threading.Lock(), threading.Lock()
  chains, chain_of = [], {}
  reports = coll != "none" and bool(scn.get("report", 0))

  def wrap(base):
    class Slow(base):
      def register_chain(self, *args, **kw):
        # The initial digests are unique
        with regs:
          i = super().register_chain(*args, **kw)
          sample = kw["init_sample"] if "init_sample" in kw else args[0]
          chain_of[int(i)] = chains.index(untree(kind, sample)[1]) + 1
          return i

      def save(self, chain_id, values):
        nap("save")
        super().save(chain_id, values)
        if reports:
          with log:
            v = untree(kind, treedef.unflatten(list(values)))
            tr("store", c=chain_of.get(int(chain_id), -1), v=v)

      def finalize(self, chain_id):
        nap("finalize")
        if reports:
          with log:
            tr("finalize", c=chain_of.get(int(chain_id), -1))
        super().finalize(chain_id)
    return Slow

  class Recorder(io.DataCollector):
    """A minimal collector of a user."""
    def __init__(self):
      self.ev, self.data = [], []
    def register_data_loader(self, data_loader):
      pass
    def register_chain(self, init_sample=None, init_checkpoint=None,
                       static_information=None):
      self.ev.append(threading.Event())
      self.data.append([])
      return len(self.ev) - 1
    def save(self, chain_id, values):
      self.data[int(chain_id)].append([onp.array(v) for v in values])
    def finalize(self, chain_id):
      self.ev[int(chain_id)].set()
    def finished(self, chain_id):
      self.ev[int(chain_id)].wait()
      d = self.data[int(chain_id)]
      return [untree(kind, treedef.unflatten(v)) for v in d]
    def checkpoint(self, chain_id, state):
      pass
    def resume(self):
      pass

  h5 = None
  if coll == "none":
    saving, dc = None, None
  else:
    if coll == "memory":
      dc = wrap(io.MemoryCollector)()
    elif coll == "npz":
      dc = wrap(io.MemoryCollector)(tmp)
    elif coll == "json":
      dc = wrap(io.JSONCollector)(tmp, scn.get("wf", 0))
    elif coll == "hdf5":
      import h5py
      h5 = h5py.File(os.path.join(tmp, "f.hdf5"), "w")
      dc = wrap(io.HDF5Collector)(h5)
    else:
      dc = wrap(Recorder)()
    saving = io.save(dc)

  def read(chain, res):
    """Samples of a chain at the time of the return."""
    c = next((k for k, v in chain_of.items() if v == chain + 1), -1)
    num = int(onp.asarray(res["sample_count"]))
    if coll in ("none", "memory", "npz"):
      out = samples_of(kind, jax.tree_util.tree_map(onp.array, res["samples"]))
    if coll == "npz":
      path = os.path.join(tmp, f"chain_{c}.npz")
      if not os.path.exists(path):
        return num, [[-3, 0]]
      try:
        f = onp.load(path)
        leaves = [f[k] for k in f.files]
      except Exception:
        return num, [[-4, 0]]
      if samples_of(kind, treedef.unflatten(leaves)) != out:
        return num, [[-5, 0]]
    elif coll == "json":
      files = {int(p.rsplit("_", 1)[1][:-5]): p for p in
               glob.glob(os.path.join(tmp, f"chain_{c}_iteration_*.json"))}
      if not files:
        return num, []
      wf = scn.get("wf", 0)
      try:
        docs = {k: json.load(open(p)) for k, p in files.items()}
      except ValueError:
        return num, [[-4, 0]]
      last = max(files)
      expected = set(range(wf, last + 1, wf)) if wf else set()
      if set(files) != expected | {last}:
        return num, [[-6, len(files)]]
      tmpl = jax.tree_util.tree_leaves(tree_of(kind, 0, 0))
      def dec(doc):
        return samples_of(kind, treedef.unflatten(
          [onp.asarray(x, dtype=t.dtype) for x, t in zip(doc, tmpl)]))
      out = dec(docs[last])
      for k, d in docs.items():
        if dec(d) != out[:k]:
          return num, [[-7, k]]
    elif coll == "hdf5":
      from jax_sgmc.io import pytree_dict_keys
      keys = pytree_dict_keys(tree_of(kind, 0, 0))
      leaves = [onp.array(h5[f"chain~{c}/" + "/".join(k)]) for k in keys]
      out = samples_of(kind, treedef.unflatten(leaves))
    elif coll == "recorder":
      out = res["samples"]
    return num, out

  nsched = len(scn["a0"])
  slv, init = solver(nsched, scn["stats"], kind, scn.get("slow", {}).get("step", 0))
  pats, keeps = {}, []
  real = scn.get("real")
  for r in scn["runs"]:
    pats[r["T"]] = (r["b"], r["t"])
  sch = schedulers(pats, scn["a0"][0], scn["tau"][0], scn["bar"], real)
  if real:
    # The iterations passing burn-in and thinning (see C07)
    st, _ = sch[0](real["T"])
    pat = []
    for _ in range(real["T"]):
      g = sch[2](st)
      pat.append(int(bool(g.burn_in) and bool(g.accept)))
      st = sch[1](st)
  extra = [{"step_size": {"a0": a}, "temperature": {"tau": float(t)}}
           for a, t in zip(scn["a0"][1:], scn["tau"][1:])] or None
  # Only the first schedule selects samples
  if extra and scn.get("invert"):
    for i, x in enumerate(extra):
      if not real:
        x["burn_in"] = {"inv": scn["invert"] & 1}
        x["thinning"] = {"inv": scn["invert"] >> 1}
      elif real["sel"] >= 0:
        x["thinning"] = {"key": jax.random.PRNGKey(1000 + i)}
  run = sv.mcmc(slv, sch, strategy=scn["strategy"], saving=saving)
  cfg = {"keep": [], "a0": scn["a0"], "tau": scn["tau"], "stats": scn["stats"],
         "chains": chains, "reports": int(reports)}
  plan = []
  for r in scn["runs"]:
    ids = []
    for h in r["states"]:
      chains.append(h)
      cfg["keep"].append(pat if real else [b * t for b, t in zip(r["b"], r["t"])])
      ids.append(len(chains) - 1)
    plan.append((r, ids))

  def execute(r, ids):
    res = run(*[init(h) for h in r["states"]], schedulers=extra, iterations=r["T"])
    assert len(res) == len(ids)
    for c, x in zip(ids, res):
      num, out = read(c, x)
      with log:
        tr("return", c=c + 1, count=num, samples=out)
  if scn.get("threads"):
    errs = []
    def work(r, ids):
      try:
        execute(r, ids)
      except BaseException as e:
        errs.append(e)
    ths = [threading.Thread(target=work, args=p, daemon=True) for p in plan]
    for th in ths:
      th.start()
    for th in ths:
      th.join()
    if errs:
      raise errs[0]
  else:
    for r, ids in plan:
      execute(r, ids)
  tr("fin")
  if h5 is not None:
    h5.close()
  return cfg


if __name__ == "__main__":
  drv.main(handler)
