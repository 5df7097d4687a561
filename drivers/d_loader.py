"""Driver for the data loaders (C02, C03, and ordered chains for C01)."""
import os
import numpy as onp
import jax
import jax.numpy as jnp
import drv


def fields(n, wide=True):
  """Dataset with several fields, each of which identifies the row."""
  i = onp.arange(n)
  more = {"u": (i * 5 % 251).astype(onp.uint8), "g": i % 3 == 0,
          "e": onp.stack([i + 7, 2 * i], axis=1).astype(onp.int64),
          "d": i.astype(onp.float64) / 2} if wide else {}
  return {
    **more,
    "a": (i * 3 + 5).astype(onp.int32),
    "b": onp.stack([i, -i, i + 1], axis=1).astype(onp.float32),
    "c": (i[:, None, None] * onp.ones((1, 2, 2)) / 4).astype(onp.float32),
  }


def hdf5_args(n):
  """An HDF5 file in memory which contains the same dataset."""
  import h5py
  global _files
  _files += 1
  f = h5py.File(f"mem{os.getpid()}-{_files}", "w", driver="core", backing_store=False)
  for k, v in fields(n).items():
    f[f"/chain~0/variables/{k}"] = v
  return dict(file=f, sample={k: jnp.zeros(v.shape[1:], v.dtype)
                              for k, v in fields(1).items()})


_files = 0


def new_loader(kind, n):
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  if kind == "hdf5":
    from jax_sgmc.data.hdf5_loader import HDF5Loader
    return HDF5Loader(**hdf5_args(n))
  f = fields(n)
  L = (NumpyDataLoader if kind == "host" else DeviceNumpyDataLoader)(**f)
  for v in f.values():        # the loader holds a copy
    v.fill(77)
  return L


def dec_scalar(v, ok):
  v = float(v)
  return int(v) if ok and v == int(v) and abs(v) < 1e6 else -1


def rows_of(batch, n):
  """Row identifiers of the entries of one batch according to each field."""
  a = onp.asarray(batch["a"])
  b = onp.asarray(batch["b"])
  c = onp.asarray(batch["c"])
  ra = [dec_scalar((v - 5) / 3, a.ndim == 1 and a.dtype == onp.int32) for v in onp.ravel(a)] \
    if a.ndim == 1 else [-1]
  rb = [dec_scalar(v[0], v[1] == -v[0] and v[2] == v[0] + 1) for v in b] \
    if b.ndim == 2 and b.shape[1] == 3 and b.dtype == onp.float32 else [-1]
  rc = [dec_scalar(v[0, 0] * 4, onp.all(v == v[0, 0])) for v in c] \
    if c.ndim == 3 and c.shape[1:] == (2, 2) and c.dtype == onp.float32 else [-1]
  if "d" not in batch:
    return ra, [rb, rc]
  d, e, g, u = (onp.asarray(batch[k]) for k in "degu")
  ok = (d.ndim == 1 and d.dtype == onp.float32 and e.shape == d.shape + (2,) and e.dtype == onp.int32
        and g.shape == u.shape == d.shape and g.dtype == onp.bool_ and u.dtype == onp.uint8)
  rd = [dec_scalar(2 * v, e[j, 0] == 2 * v + 7 and e[j, 1] == 4 * v and g[j] == (2 * v % 3 == 0)
                   and u[j] == 2 * v * 5 % 251) for j, v in enumerate(d)] if ok else [-1]
  return ra, [rb, rc, rd]


def batch_event(batch, mask, n):
  x, f = rows_of(batch, n)
  m = onp.asarray(mask)
  m = [int(v) for v in onp.ravel(m)] if m.ndim == 1 else [-1]
  return {"x": x, "f": f, "m": m}


def superbatch(data, mask, n, cache=None, mb=None):
  if mask is None:
    mask = onp.ones((cache, mb))
  mask = onp.asarray(mask)
  lens = {onp.asarray(v).shape[0] for v in data.values()} | {mask.shape[0]}
  if len(lens) != 1:
    return []
  return [batch_event({k: v[i] for k, v in data.items()}, mask[i], n)
          for i in range(lens.pop())]


KW = {"draw": {}, "shuffle": {"shuffle": True},
      "epoch": {"shuffle": True, "in_epochs": True}}


def run_ops(scn, tr, tmp):
  """A schedule of register/get/save/load on one or several loaders."""
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  n = scn["n"]
  loaders = {}
  where = {}
  ck = {}
  for op in scn["ops"]:
    if op["op"] == "reg":
      ld = op.get("ld", 0)
      if ld not in loaders:
        loaders[ld] = NumpyDataLoader(**fields(n))
        tr("static", n=int(loaders[ld].static_information["observation_count"]))
      L = loaders[ld]
      if op["kind"] == "ordered":
        cid = L.register_ordered_pipeline(op["cache"], mb_size=op["mb"])
      else:
        kw = dict(KW[op["kind"]])
        if op["seed"] >= 0:
          kw["seed"] = op["seed"]
        cid = L.register_random_pipeline(op["cache"], mb_size=op["mb"], **kw)
      where[op["h"]] = (L, cid)
      tr("reg", h=op["h"], id=int(cid), kind=op["kind"], mb=op["mb"],
         cache=op["cache"], seed=op["seed"])
    elif op["op"] == "get":
      L, cid = where[op["h"]]
      data, mask = L.get_batches(cid)
      tr("get", h=op["h"], bs=superbatch(data, mask, n))
    elif op["op"] == "save":
      L, cid = where[op["h"]]
      ck[op["k"]] = L.save_state(cid)
      tr("save", h=op["h"], k=op["k"])
    elif op["op"] == "load":
      L, cid = where[op["h"]]
      L.load_state(cid, ck[op["k"]])
      tr("load", h=op["h"], k=op["k"])


def run_access(scn, tr, tmp):
  """Random access through random_reference_data for host and device data."""
  from jax_sgmc import data as jd
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  n, mb, cache = scn["n"], scn["mb"], scn["cache"]
  host = scn["host"]
  L = new_loader(scn.get("loader") or ("host" if host else "device"), n)
  init, get, release = jd.random_reference_data(L, cache, mb)
  for h, seed in enumerate(scn["seeds"]):
    if host:
      kw = dict(KW[scn["kind"]])
      if seed >= 0:
        kw["seed"] = seed
      st = init(**kw)
    else:
      st = init(key=jax.random.PRNGKey(seed)) if seed >= 0 else init()
    # The default key of device data is PRNGKey(0)
    tr("reg", h=h, id=h if host else 0, kind=scn["kind"], mb=mb, cache=1,
       seed=seed)
    fn = jax.jit(lambda s: get(s, information=True)) if scn["jit"] else \
      (lambda s: get(s, information=True))
    for _ in range(scn["draws"]):
      st, (batch, info) = fn(st)
      tr("get", h=h, bs=[batch_event(batch, info.mask, n)])
  release()


def run_stats(scn, tr, tmp):
  """Long-run frequencies of uniform draws and mixing of permutations."""
  from jax_sgmc import data as jd
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  n, mb, total = scn["n"], scn["mb"], scn["total"]
  if scn["what"] == "device":
    L = DeviceNumpyDataLoader(**fields(n))
    st = L.init_random_data(key=jax.random.PRNGKey(scn["seed"]))
    step = jax.jit(lambda s: L.get_random_data(s, mb))
    xs = []
    while len(xs) < total:
      st, (b, _) = step(st)
      xs += rows_of(b, n)[0]
  else:
    L = new_loader("host", n)
    cache = scn["cache"]
    c = L.register_random_pipeline(cache, mb_size=mb, seed=scn["seed"],
                                   **KW[scn["what"]])
    xs = []
    while len(xs) < total:
      d, m = L.get_batches(c)
      for b in superbatch(d, m, n):
        xs += [x for x, v in zip(b["x"], b["m"]) if v]
  xs = xs[:total]
  if scn["what"] in ("shuffle", "epoch"):
    perms = [xs[i:i + n] for i in range(0, total - n + 1, n)]
    tr("mixed", perms=perms)
  else:
    tr("uniform", total=total,
       counts=[xs.count(i) for i in range(n)],
       pairs=sum(a == b for a, b in zip(xs, xs[1:])))


def run_coverage(scn, tr, tmp):
  """How often each observation of a larger dataset is drawn (summary)."""
  from jax_sgmc import data as jd
  n, mb, total = scn["n"], scn["mb"], scn["total"]
  L = new_loader(scn["loader"], n)
  init, get, _ = jd.random_reference_data(L, scn["cache"], mb)
  get = jax.jit(get)
  st = init(**({"key": jax.random.PRNGKey(scn["seed"])}
               if scn["loader"] == "device" else {"seed": scn["seed"]}))
  xs = []
  while len(xs) < total:
    st, b = get(st)
    xs += rows_of(b, n)[0]
  xs = onp.asarray(xs[:total])
  counts = onp.bincount(xs[(xs >= 0) & (xs < n)], minlength=n)
  quarters = [int(q.sum()) for q in onp.array_split(counts, 4)]
  tr("coverage", total=total, inside=int(counts.sum()), quarters=quarters,
     lo=int(counts.min()), hi=int(counts.max()))


def run_streams(scn, tr, tmp):
  """Many chains: first draws of all the chains."""
  n, mb = scn["n"], scn["mb"]
  L = new_loader("host", n)
  first = []
  for s in scn["seeds"]:
    kw = dict(KW[scn["kind"]])
    if s >= 0:
      kw["seed"] = s
    c = L.register_random_pipeline(1, mb_size=mb, **kw)
    d, m = L.get_batches(c)
    first.append(tuple(superbatch(d, m, n)[0]["x"]))
  tr("streams", chains=len(first), distinct=len(set(first)))


def run_requests(scn, tr, tmp):
  """Requests which have to be rejected, or not."""
  from jax_sgmc import data as jd
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  for r in scn["requests"]:
    L = (NumpyDataLoader if r["host"] else DeviceNumpyDataLoader)(**fields(r["n"]))
    raised = 0
    try:
      if r["api"] == "random_reference_data":
        init, get, _ = jd.random_reference_data(L, r["cache"], r["mb"])
        kw = {}
        if r["host"]:
          kw = {"shuffle": bool(r["shuffle"]), "in_epochs": bool(r["epochs"])}
        get(init(**kw))
      elif r["api"] == "full_reference_data":
        init, fmap, _ = jd.full_reference_data(L, r["cache"], r["mb"])
        fmap(lambda b, c: (b["a"], c), init(), None)
      elif r["api"] == "full_data_mapper":
        fmap, _ = jd.full_data_mapper(L, r["cache"], r["mb"])
        fmap(lambda b, c: (b["a"], c), None)
      elif r["api"] == "register":
        c = L.register_random_pipeline(
          r["cache"], mb_size=r["mb"], shuffle=bool(r["shuffle"]),
          in_epochs=bool(r["epochs"]))
        L.get_batches(c)
      elif r["api"] == "register_ordered":
        c = L.register_ordered_pipeline(r["cache"], mb_size=r["mb"])
        L.get_batches(c)
    except Exception:
      raised = 1
    tr("request", raised=raised, **r)


def run_tf(scn, tr, tmp):
  import tensorflow as tf
  from jax_sgmc import data as jd
  from jax_sgmc.data.tensorflow_loader import TensorflowDataLoader
  n, mb, cache = scn["n"], scn["mb"], scn["cache"]
  f = dict(fields(n))
  names = scn["seed"] % 2
  if names:
    f["name"] = onp.array([f"row{i}" for i in range(n)])
  pipe = tf.data.Dataset.from_tensor_slices(f)
  tf.random.set_seed(scn["seed"])
  L = TensorflowDataLoader(pipe, shuffle_cache=scn["buf"],
                           **({"exclude_keys": ["name"]} if names else {}))
  tr("static", n=int(L.static_information["observation_count"]))
  ini = L.initializer_batch(mb)
  init, get, release = jd.random_reference_data(L, cache, mb)
  chains = []
  fn = jax.jit(lambda s: get(s, information=True))
  states = {}
  xs = {}
  for h in range(scn["chains"]):
    states[h] = init()
    xs[h] = []
    # seed: the streams of tensorflow chains are independent of each other
    tr("reg", h=h, id=h, kind="draw", mb=mb, cache=1, seed=h)
  for _ in range(scn["draws"]):
    for h in states:
      states[h], (batch, info) = fn(states[h])
      e = batch_event(batch, info.mask, n)
      if sorted(batch.keys()) != sorted(ini.keys()) or any(
          batch[k].shape != ini[k].shape or batch[k].dtype != ini[k].dtype
          for k in ini):
        e["x"] = [-1]
      xs[h] += e["x"]
      tr("get", h=h, bs=[e])
  for h in xs:
    tr("buffer", total=len(xs[h]), buf=scn["buf"],
       counts=[xs[h].count(i) for i in range(n)])
  release()


def run_hdf5(scn, tr, tmp):
  """Samples stored by the HDF5Collector are read as reference data."""
  import h5py
  from jax import tree_util
  from jax_sgmc import data as jd, io, scheduler
  from jax_sgmc.data.hdf5_loader import HDF5Loader
  import trees
  import d_store
  trees.register_rules()
  n, mode = scn["n"], scn["mode"]
  x = trees.build(scn["tree"], lambda v: 0)
  _, treedef = tree_util.tree_flatten(x)
  leaves = [d_store.Leaf(j + 1, mode) for j in range(treedef.num_leaves)]
  sample = lambda v: treedef.unflatten(
    [jnp.array(lf.make(v * 64 + j + 1)) for j, lf in enumerate(leaves)])
  path = os.path.join(tmp, "ref.hdf5")
  file = h5py.File(path, "w")
  dc = io.HDF5Collector(file)
  info = scheduler.static_information(samples_collected=n)
  wrap = (lambda s: {"variables": s, "likelihood": jnp.zeros(())}) if scn["sub"] else \
    (lambda s: s)
  for c in range(2):
    dc.register_chain(init_sample=wrap(sample(0)), init_checkpoint={},
                      static_information=info)
  for i in range(n):
    for c in range(2):
      # The other chain contains other samples
      v = (i + 1) if c == scn["chain"] else 30 - i
      dc.save(c, tree_util.tree_leaves(wrap(sample(v))))
  if scn["byname"]:
    file.close()
    file = path
  sub = f"/chain~{scn['chain']}" + ("/variables" if scn["sub"] else "")
  kw = {"subdir": sub}
  if scn["sub"] and scn["chain"] == 0 and scn["mode"] % 2:
    kw = {}   # default
  L = HDF5Loader(file, sample=sample(0), **kw)
  tr("static", n=int(L.static_information["observation_count"]))
  ini = L.initializer_batch(2)
  same = tree_util.tree_structure(ini) == treedef and all(
    a.shape == (2, *lf.shape) and a.dtype == lf.dtype
    for a, lf in zip(tree_util.tree_leaves(ini), leaves))

  def rows_of_tree(lv, i):
    """Row identifiers according to each leaf of the i-th batch."""
    out = []
    for j, (a, lf) in enumerate(zip(lv, leaves)):
      r = []
      for o in onp.asarray(a)[i]:
        c = lf.code(o)
        r.append(c // 64 - 1 if c > 0 and c % 64 == j + 1 else -1)
      out.append(r)
    return out

  def events(data, mask, cache):
    lv, td = tree_util.tree_flatten(data)
    if td != treedef or len(lv) != len(leaves):
      return []
    if any(len(a) != cache for a in lv):
      return []
    bs = []
    for i in range(cache):
      f = rows_of_tree(lv, i)
      bs.append({"x": f[0], "f": f[1:], "m": [int(v) for v in onp.asarray(mask)[i]]})
    return bs

  tr("static", n=n if same else -1)
  where = {}
  for op in scn["ops"]:
    if op["op"] == "reg":
      if op["kind"] == "ordered":
        cid = L.register_ordered_pipeline(op["cache"], mb_size=op["mb"])
      else:
        kw = dict(KW[op["kind"]])
        if op["seed"] >= 0:
          kw["seed"] = op["seed"]
        cid = L.register_random_pipeline(op["cache"], mb_size=op["mb"], **kw)
      where[op["h"]] = (cid, op["cache"])
      tr("reg", h=op["h"], id=int(cid), kind=op["kind"], mb=op["mb"],
         cache=op["cache"], seed=op["seed"])
    else:
      cid, cache = where[op["h"]]
      data, mask = L.get_batches(cid)
      tr("get", h=op["h"], bs=events(data, mask, cache))
  if scn["full"]:
    # A complete sweep through the stored samples
    mb = scn["ops"][0]["mb"]
    fmap, release = jd.full_data_mapper(L, 2, mb)
    tr("reg", h=99, id=0, kind="ordered", mb=n, cache=1, seed=0)
    b, _ = fmap(lambda obs, state: (obs, state), None, batched=False)
    tr("get", h=99, bs=events(tree_util.tree_map(lambda a: onp.asarray(a)[None], b),
                              onp.ones((1, n)), 1))
    release()
  L.close()


def run_windows(scn, tr, tmp):
  """Consecutive windows of n valid observations of large datasets."""
  from jax_sgmc import data as jd
  n, kind = scn["n"], scn["kind"]
  L = new_loader(scn["loader"], n)
  xs = []
  if kind == "ordered" and scn["loader"] == "device":
    full = L.get_full_data()
    xs = rows_of(full, n)[0] * 2
  else:
    kw = dict(KW.get(kind, {}))
    if kind == "ordered":
      c = L.register_ordered_pipeline(scn["cache"], mb_size=scn["mb"])
    elif scn["loader"] == "device":
      st = L.init_random_data(key=jax.random.PRNGKey(3))
    else:
      c = L.register_random_pipeline(scn["cache"], mb_size=scn["mb"], seed=3, **kw)
    while len(xs) < 2 * n:
      if scn["loader"] == "device":
        st, (b, info) = L.get_random_data(st, scn["mb"])
        xs += rows_of(b, n)[0]
        continue
      d, m = L.get_batches(c)
      for b in superbatch(d, m, n):
        if any(o != b["x"] for o in b["f"]):
          raise ValueError("fields of a row not together")
        xs += [x for x, v in zip(b["x"], b["m"]) if v]
  for i in range(0, 2 * n, n):
    w = xs[i:i + n]
    tr("window", kind=kind, valid=len(w), distinct=len(set(w)), lo=min(w), hi=max(w),
       inorder=int(w == list(range(n))))


def run_sweeps(scn, tr, tmp):
  """Results of functions mapped over large datasets."""
  from jax_sgmc import data as jd
  n, mb = scn["n"], scn["mb"]
  L = new_loader(scn["loader"], n)
  f = lambda b, c: ((b["a"] - 5) // 3, c + b["a"].shape[0])
  g = lambda b, m, c: (jnp.where(m, (b["a"] - 5) // 3, -1), c + jnp.sum(m))
  if scn["api"] == "map":
    init, fmap, _ = jd.full_reference_data(L, scn["cache"], mb)
    st = init()
    sweep = jax.jit(lambda st, masking: fmap(
      g if masking else f, st, 0, masking=bool(masking)), static_argnums=1)
  else:
    mapper, _ = jd.full_data_mapper(L, scn["cache"], mb)
    st = 0
    sweep = lambda st, masking: (0, mapper(g if masking else f, 0, masking=bool(masking)))
  for masking in (0, 1, 0, 1):
    st, (res, count) = sweep(st, masking)
    w = [int(v) for v in onp.ravel(res)]
    if masking:
      w = [v for v in w if v >= 0] if int(count) == n else []
    tr("window", kind="ordered", valid=len(w), distinct=len(set(w)), lo=min(w + [0]), hi=max(w + [0]),
       inorder=int(w == list(range(n))))


def handler(scn, tr, tmp):
  {"sweeps": run_sweeps, "windows": run_windows, "ops": run_ops, "access": run_access, "stats": run_stats,
   "requests": run_requests, "tf": run_tf, "coverage": run_coverage, "streams": run_streams, "hdf5": run_hdf5}[scn["type"]](scn, tr, tmp)
  return {"n": scn["n"]}


if __name__ == "__main__":
  drv.main(handler)
