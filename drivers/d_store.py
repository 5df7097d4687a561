"""Driver for the storage of the data collectors (C11)."""
import glob
import json
import os

import numpy as onp
import jax
import jax.numpy as jnp
from jax import tree_util

import drv
import trees

FLOATS = {"float32": 2.0 ** -40, "float16": 1.0}
DTYPES = ("float32", "int32", "float16", "bool", "uint32", "float32", "int32", "int16", "uint16")
SHAPES = ((), (3,), (2, 1, 2), (1,), (0 + 2, 3), ())


class Leaf:
  """Shape and type of leaf j, and the content for a code."""

  def __init__(self, j, mode):
    self.dtype = onp.dtype(DTYPES[(j + mode) % len(DTYPES)])
    self.shape = SHAPES[(j * 5 + mode) % len(SHAPES)]
    if self.dtype == bool:
      self.shape = (14,)

  def make(self, code):
    if self.dtype == bool:
      return onp.array([(code >> k) & 1 for k in range(14)], bool)
    scale = FLOATS.get(self.dtype.name, 1)
    n = int(onp.prod(self.shape))
    # The entries of a leaf differ from each other in their sign
    x = onp.array([code * scale * (-1 if (k % 2 and self.dtype.kind != "u") else 1)
                   for k in range(n)])
    return x.reshape(self.shape).astype(self.dtype)

  def code(self, x):
    x = onp.asarray(x)
    if x.dtype != self.dtype or x.shape != self.shape:
      return -2
    if self.dtype == bool:
      c = sum(int(b) << k for k, b in enumerate(x))
    else:
      c = float(x.ravel()[0]) / FLOATS.get(self.dtype.name, 1)
    if c != int(c) or not onp.array_equal(self.make(int(c)), x):
      return -1
    return int(c)


def rows(leaves, arrays):
  return [[lf.code(a) for a in arr] for lf, arr in zip(leaves, arrays)]


def handler(scn, tr, tmp):
  from jax_sgmc import io, scheduler
  trees.register_rules()
  # Files of an older run in the same directory, which are longer
  old = json.dumps([[[0.5] * 40] * 40] * 9).encode() * 2
  def stale(name):
    os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, "wb") as fp:
      fp.write(old)
  coll, mode, wf = scn["coll"], scn["mode"], scn.get("wf", 0)
  pipe = scn["pipe"]
  h5 = None
  if coll in ("memory", "none"):
    dc = io.MemoryCollector()
  elif coll == "npz":
    if mode % 2:
      for k in range(4):
        stale(os.path.join(tmp, "out", f"chain_{k}.npz"))
    dc = io.MemoryCollector(os.path.join(tmp, "out"))
  elif coll == "json":
    if mode % 3 == 0:
      tmp = os.path.join(tmp, "new")       # does not exist
    elif mode % 3 == 1:
      for k in range(4):
        for i in range(1, 16):
          stale(os.path.join(tmp, f"chain_{k}_iteration_{i}.json"))
    dc = io.JSONCollector(tmp, wf) if wf else io.JSONCollector(tmp)
  else:
    import h5py
    h5 = h5py.File(os.path.join(tmp, "f.hdf5"), "w")
    dc = io.HDF5Collector(h5)
  saving = None
  if pipe:
    saving = io.no_save() if coll == "none" else io.save(dc)
  chains = []   # (id or state, treedef, leaves)

  def disk(c):
    cid, treedef, leaves, _ = chains[c]
    ident = c
    if coll == "hdf5":
      items = []
      root = h5[f"chain~{ident}"]
      import h5py as h
      if isinstance(root, h.Dataset):
        items = [["", rows(leaves, [root[...]])[0]]]
      else:
        order = keynames[c]
        def visit(name, obj):
          if isinstance(obj, h.Dataset):
            items.append([name, rows([leaves[order[name]]], [obj[...]])[0]
                          if name in order else [-3]])
        root.visititems(visit)
      tr("named", c=c + 1, items=items)
    elif coll == "npz":
      f = onp.load(os.path.join(tmp, "out", f"chain_{ident}.npz"))
      order = keynames[c]
      tr("named", c=c + 1, items=[
        [k, rows([leaves[order[k]]], [f[k]])[0] if k in order else [-3]]
        for k in f.files])
    elif coll == "json":
      out = []
      for p in sorted(glob.glob(os.path.join(tmp, f"chain_{ident}_iteration_*.json"))):
        n = int(p.rsplit("_", 1)[1][:-5])
        with open(p, "rb") as fp:
          content = fp.read()
        if content == old:                   # not written by this run
          continue
        doc = json.loads(content)
        # Types are not stored, the values and shapes have to be kept
        arrs = [onp.asarray(x).astype(lf.dtype) if
                onp.array_equal(onp.asarray(x), onp.asarray(x).astype(lf.dtype)) else
                onp.asarray(x) for x, lf in zip(doc, leaves)]
        r = rows(leaves, arrs)
        if len(doc) != len(leaves):
          r.append([])
        out.append({"n": n, "rows": r})
      tr("files", c=c + 1, files=out)

  keynames, results = [], []
  for op in scn["ops"]:
    if op["op"] == "reg":
      t = op["tree"]
      x = trees.build(t, lambda v: 0)
      lv, treedef = tree_util.tree_flatten(x)
      leaves = [Leaf(j + 1, mode) for j in range(len(lv))]
      names = op["names"]
      keynames.append({n: j for j, n in enumerate(names)})
      init = treedef.unflatten([jnp.array(lf.make(99 * 64 + 1)) for lf in leaves])
      info = scheduler.static_information(samples_collected=op["cap"])
      if pipe:
        st = saving[0](init, {}, info)
        step = jax.jit(lambda s, k, smp: saving[1](s, k, smp)[0])
      else:
        st = dc.register_chain(init_sample=init, init_checkpoint={},
                               static_information=info)
        step = None
      chains.append([st, treedef, leaves, step])
      tr("reg", c=len(chains) if pipe else int(st) + 1, tree=t, cap=op["cap"])
    elif op["op"] == "save":
      c = op["c"] - 1
      st, treedef, leaves, step = chains[c]
      v = op["v"]
      vals = [lf.make(v * 64 + j + 1) for j, lf in enumerate(leaves)]
      if pipe:
        chains[c][0] = step(st, jnp.array(bool(op["keep"])),
                            treedef.unflatten([jnp.array(a) for a in vals]))
        jax.effects_barrier()
        if op["keep"] == 0 or v % 3 == 0:
          tr("save", c=c + 1, v=v, keep=op["keep"])
          tr("count", c=c + 1, count=int(chains[c][0].saved_samples))
        else:
          tr("save", c=c + 1, v=v, keep=op["keep"])
      elif op["keep"]:
        # Identifiers and values arrive as arrays
        dc.save(onp.array(st) if mode % 2 else st, vals)
        for a in vals:                     # the buffers are used again
          a.fill(0)
        tr("save", c=c + 1, v=v, keep=1)
      if coll in ("json", "hdf5"):
        jax.effects_barrier()
        disk(c)
      if coll == "none":
        d = chains[c][0].data
        lv, td = tree_util.tree_flatten(d)
        tr("arrays", c=c + 1, same=int(td == treedef), rows=rows(leaves, lv))
    elif op["op"] == "fin":
      c = op["c"] - 1
      st, treedef, leaves, _ = chains[c]
      tr("fin", c=c + 1)
      if pipe:
        res = saving[2](st, None)
        tr("count", c=c + 1, count=int(res["sample_count"]))
        got = res["samples"]
      else:
        dc.finalize(onp.array(st) if mode % 2 else st)
        if mode % 2:
          dc.finished(st)                  # waiting again changes nothing
        got = dc.finished(st)
      if coll in ("memory", "npz", "none"):
        lv, td = tree_util.tree_flatten(got)
        tr("arrays", c=c + 1, same=int(td == treedef), rows=rows(leaves, lv))
        results.append((c, got))
      disk(c)
  if coll in ("json", "hdf5"):
    for c in range(len(chains)):
      disk(c)
  for c, got in results:                   # handed out results do not change
    lv, td = tree_util.tree_flatten(got)
    tr("arrays", c=c + 1, same=int(td == chains[c][1]), rows=rows(chains[c][2], lv))
  tr("end")
  if h5 is not None:
    h5.close()
  return {"coll": coll, "wf": wf}


if __name__ == "__main__":
  drv.main(handler)
