"""Scenarios of complete runs (C08, C09)."""

def pattern(r, T, style=None):
  style = r.randrange(6) if style is None else style
  if style == 0:
    return [1] * T, [1] * T
  n = r.randrange(T + 1)
  b = [0] * n + [1] * (T - n)
  if style == 1:
    return b, [1] * T
  if style == 2:
    return [0] * T, [1] * T
  t = [r.randrange(2) for _ in range(T)]
  if style == 3:
    return [r.randrange(2) for _ in range(T)], t
  return b, t


def scenario(r, name, coll, strategy, T=None, chains=None, runs=1, nsched=None,
             style=None, **kw):
  ns = nsched or r.choice((1, 1, 2, 3))
  rs, used = [], {}
  hs = r.sample(range(997), 40)
  for _ in range(runs):
    t = T if T is not None else r.choice((1, 2, 3, 4, 5, 6, 9))
    if t not in used:
      used[t] = pattern(r, t, style)
    b, th = used[t]
    nc = chains or r.choice((1, 2, 3))
    rs.append({"T": t, "b": b, "t": th,
               "states": [hs.pop() for _ in range(nc)]})
  s = {"id": name, "collector": coll, "strategy": strategy,
       "tree": r.randrange(4), "stats": r.randrange(2), "bar": r.randrange(2),
       "a0": [r.randrange(997) for _ in range(ns)],
       "tau": [r.choice((0, 1, 2, 5)) for _ in range(ns)],
       "invert": r.randrange(4), "runs": rs, "report": r.randrange(2),
       "wf": r.choice((0, 1, 2, 3))}
  s.update(kw)
  return s


def real(r, name, coll, strategy, **kw):
  T = r.choice((3, 5, 8, 12))
  n = r.choice((0, 1, T // 2, T - 1))
  sel = r.choice((-1, 0, 1, T - n))
  rep = int(name.rsplit("-", 1)[1])
  if rep == 0:  # Burn-in only
    n, sel = r.randrange(1, T), -1
  elif rep == 1:  # Both
    n = r.randrange(1, T - 1)
    sel = r.randrange(1, T - n)
  s = scenario(r, name, coll, strategy, T=T, runs=1, style=0, **kw)
  s["real"] = {"T": T, "n": n, "sel": sel, "key": r.randrange(100)}
  return s
