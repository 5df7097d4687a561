"""Fixed-point numbers for the traces."""
import math
import numpy as onp

S = 2 ** 20
LIM = 2 ** 30 - 1


def fx(v):
  """Scalar as fixed-point integer; unrepresentable values become a value no
  specification expects."""
  v = float(onp.asarray(v).reshape(()))
  if not math.isfinite(v) or abs(v) * S > LIM:
    return -2 ** 31 + 7
  return int(round(v * S))


def fxs(v):
  return [fx(x) for x in onp.ravel(onp.asarray(v))]
