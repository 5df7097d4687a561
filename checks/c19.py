"""C19: Predefined solvers behave as configured by their arguments."""
import vlib

PLAN = (("sgld", 0, 3), ("sgld", 1, 3), ("re_sgld", 0, 5), ("amagold", 0, 5), ("amagold", 1, 4),
        ("sggmc", 0, 5), ("sggmc", 1, 4), ("sghmc", 0, 3), ("sghmc", 1, 3), ("sghmc", 2, 3),
        ("obabo", 0, 4))


def run(chk):
  q = chk.quick
  mc = ('SPECIFICATION MSpec\nCONSTANT Variant = "{}"\n'
        'INVARIANTS Effective Only Counts\nCHECK_DEADLOCK FALSE\n')
  chk.model_check("AliasMC", mc.format("none"), label="wiring")
  for v in ("mass", "last"):
    chk.refute("AliasMC", mc.format(v), "Invariant Effective is violated", label=v)
  scns = []
  for k, (name, mode, num) in enumerate(PLAN):
    num *= 1 if q else 7
    beh = chk.generate(
      "AliasGen", f'SPECIFICATION GSpec\nCONSTANTS Name = "{name}" Mode = {mode}\n'
      'CHECK_DEADLOCK FALSE\n', num, 300, salt=k)
    for i, b in enumerate(beh[:num]):
      if b["a"]["dev"]:
        b["a"]["cs"] = b["c"]["cs"] = 1
      scns.append({"id": f"{name}{mode}-{i}", **b})
  order = sorted(scns, key=lambda s: s["id"].rsplit("-")[-1])
  chk.conform("AliasTrace", vlib.Driver("d_alias", procs=8), order, label="samplers")
