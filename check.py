#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--tier quick|thorough] [--replay F]."""
import argparse
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("property")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--seed", type=int,
                  default=int(os.environ.get("VERIF_SEED", "1")))
  ap.add_argument("--replay")
  a = ap.parse_args()
  if a.tier not in ("quick", "thorough"):
    a.tier = "quick"
  only = None
  if a.replay:
    only = json.load(open(a.replay))
    a.tier, a.seed = only["tier"], only["seed"]
  chk = vlib.Check(a.property, a.tier, a.seed)
  chk.only = only
  try:
    importlib.import_module(a.property.lower()).run(chk)
    rc = chk.finish()
  except Exception:
    traceback.print_exc()
    print(f"MACHINERY-ERROR property={a.property}")
    # Violations seen before the failure of the machinery are real
    try:
      if chk.violations:
        sys.exit(chk.finish())
    except Exception:
      traceback.print_exc()
    sys.exit(2)
  sys.exit(rc)


if __name__ == "__main__":
  main()
