"""Common part of the drivers: run scenarios one by one under a watchdog and
record the events of each one."""
import json
import os
import sys
import threading
import traceback
import warnings

warnings.simplefilter("ignore")


class Trace(list):
  """Recorded events of one scenario (appending is thread safe)."""

  cfg = None   # used if the scenario fails before its end

  def __call__(self, op, **kw):
    kw["op"] = op
    self.append(kw)


def main(handler):
  """handler(scenario, trace, tmpdir) appends events; its exceptions become
  events which no specification action explains."""
  inp, outp = sys.argv[1:3]
  with open(inp) as f:
    job = json.load(f)
  out = open(outp, "a")

  def put(d):
    out.write(json.dumps(d) + "\n")
    out.flush()

  for i, scn in enumerate(job["scenarios"]):
    put({"start": scn["id"]})
    tr = Trace()
    log = []
    tmp = os.path.join(job["tmp"], f"s{i}")
    os.makedirs(tmp, exist_ok=True)
    res = {"cfg": scn.get("cfg", {})}

    def work():
      try:
        r = handler(scn, tr, tmp)
        if isinstance(r, dict):
          res["cfg"] = r
      except BaseException as e:    # pylint: disable=broad-except
        res["cfg"] = tr.cfg or res["cfg"]
        log.append(traceback.format_exc()[-2500:])
        tr("exception", type=type(e).__name__, msg=str(e)[:200])

    th = threading.Thread(target=work, daemon=True)
    th.start()
    th.join(scn.get("timeout", job["timeout"]))
    hang = th.is_alive()
    ev = list(tr)
    if hang:
      res["cfg"] = tr.cfg or res["cfg"]
      ev.append({"op": "hang"})
      import faulthandler
      faulthandler.dump_traceback(all_threads=True)
    d = {"id": scn["id"], "cfg": res["cfg"], "ev": ev}
    if log:
      d["log"] = log[0]
    put(d)
    if hang:
      out.flush()
      os._exit(3)
  out.close()
  sys.stdout.flush()
  os._exit(0)
