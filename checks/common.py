"""Scenario helpers shared by the checks."""
import random


def rng(chk, salt):
  return random.Random(f"{chk.seed}/{salt}")
