"""Nothing has to be built: checks that the tools needed by the checks run."""
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ok = True
for cmd in (["java", "-version"], ["/opt/venv/bin/python", "-c", "import jax"]):
  r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  print(" ".join(cmd), "->", r.returncode)
  ok &= r.returncode == 0
sys.exit(0 if ok else 1)
