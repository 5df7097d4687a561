from common import rng

MC = """SPECIFICATION Spec
CONSTANTS N = {n} MBs = {mbs} Caches = {caches} MCKinds = {{"{kind}"}} Seeds = {seeds} MaxPos = {pos} Handles = {handles} Names = {names}
INVARIANTS ShuffleInv EpochInv OrderedInv PosInv
PROPERTIES MemoAppend Isolation PosAdvance
CHECK_DEADLOCK FALSE
"""


def gen_ops(chk, num, depth, kinds, salt):
  ks = "{" + ", ".join(f'"{k}"' for k in kinds) + "}"
  beh = chk.generate("DataLoaderGen", f"""SPECIFICATION GSpec
CONSTANTS MBMax = 4 GenKinds = {ks} D = {depth} NLoaders = 2
CHECK_DEADLOCK FALSE
""", num=num, depth=depth + 2, salt=salt)
  r = rng(chk, salt)
  scns = []
  for i, ops in enumerate(beh[:num]):
    mbmax = max([o["mb"] for o in ops if o["op"] == "reg"] + [1])
    n = r.choice([v for v in (2, 3, 4, 5, 6, 7, 9, 10) if v >= mbmax])
    scns.append({"id": f"ops{salt}-{i}", "type": "ops", "n": n, "ops": ops})
  return scns
