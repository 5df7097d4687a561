"""Common machinery of the checks: run TLC, run drivers of the real code,
validate the recorded traces against the trace specifications, write evidence.

Exit codes: 0 held, 1 violation, 2 failure of the machinery itself.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")
REPO = os.environ.get("JAXSGMC_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")
NPROC = 8


class MachineryError(Exception):
  pass


class TLCResult:
  def __init__(self, rc, out):
    self.rc = rc
    self.out = out
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", out)
    if m:
      self.generated = int(m[-1][0].replace(",", ""))
      self.distinct = int(m[-1][1].replace(",", ""))
    else:
      m = re.findall(r"The number of states generated: ([\d,]+)", out)
      self.generated = int(m[-1].replace(",", "")) if m else 0
      self.distinct = 0
    m = re.findall(r"computed (\d+) initial state|Finished computing initial states: (\d+) distinct", out)
    self.initial = int(m[-1][0] or m[-1][1]) if m else 0


def run_tlc(module, cfg, env=None, workers=1, args=(), timeout=3000,
            heap="2g"):
  """Runs TLC on spec/<module>.tla with configuration text or file cfg."""
  tmp = tempfile.mkdtemp(prefix="vtlc_")
  try:
    if not cfg.endswith(".cfg"):
      path = os.path.join(tmp, "M.cfg")
      with open(path, "w") as f:
        f.write(cfg)
    else:
      path = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
           "-XX:ParallelGCThreads=2", f"-Djava.io.tmpdir={tmp}",
           "-cp", TLA_CP, f"-DTLA-Library={SPEC}", "tlc2.TLC",
           "-config", path, "-metadir", os.path.join(tmp, "meta"),
           "-workers", str(workers), "-noGenerateSpecTE", *args,
           os.path.join(SPEC, module + ".tla")]
    try:
      p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, cwd=tmp,
                         timeout=timeout)
    except subprocess.TimeoutExpired:
      raise MachineryError(f"TLC timed out on {module} {cfg[:40]}")
    return TLCResult(p.returncode, p.stdout)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


# TLC breaks long values into several lines
VERDICT = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*"(ACCEPT|REJECT)",\s*(\d+),\s*"([^"]*)"\s*>>')
TRACE_CFG = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"


def _validate_shard(module, traces, extra_cfg):
  fd, path = tempfile.mkstemp(prefix="vtrace_", suffix=".json")
  with os.fdopen(fd, "w") as f:
    json.dump({"traces": traces}, f)
  try:
    r = run_tlc(module, TRACE_CFG + extra_cfg, env={"TRACE_FILE": path},
                workers=1)
  finally:
    os.unlink(path)
  verdicts = {}
  for t, v, l, why in VERDICT.findall(r.out):
    t = int(t) - 1
    old = verdicts.get(t)
    # A trace is accepted if one way to explain it exists
    if old is None or old[0] == "REJECT" and (
        v == "ACCEPT" or int(l) > old[1]):
      verdicts[t] = (v, int(l), why)
  complete = "Model checking completed. No error has been found" in r.out
  if not complete:
    if r.rc in (75, 76, 77, 12, 13, 150, 151, 152, 153) or not verdicts:
      if len(traces) > 1:
        # Isolate the trace which can not be evaluated
        out, st = [], [0, 0]
        for tr in traces:
          o, s = _validate_shard(module, [tr], extra_cfg)
          out += o
          st = [st[0] + s[0], st[1] + s[1]]
        return out, st
      if r.rc in (75, 76, 77, 12, 13):
        if verdicts.get(0, ("",))[0] != "REJECT":
          m = re.search(r"Error: (.*?)(?:\n\n|\Z)", r.out, re.S)
          verdicts = {0: ("REJECT", 0, "not well-typed: "
                          + (m.group(1)[:300] if m else ""))}
      else:
        raise MachineryError(f"TLC failed (rc {r.rc}) on {module}:\n{r.out[-3000:]}")
    else:
      raise MachineryError(f"TLC failed (rc {r.rc}) on {module}:\n{r.out[-3000:]}")
  res = []
  for i, tr in enumerate(traces):
    if i not in verdicts:
      raise MachineryError(f"No verdict for trace {tr['id']} ({module}):\n{r.out[-2000:]}")
    res.append((tr, *verdicts[i]))
  return res, [r.distinct, r.generated]


def validate(module, traces, extra_cfg="", shards=None):
  """Validates traces against a trace specification.

  Returns [(trace, "ACCEPT"|"REJECT", event index, clause)], (distinct, generated)
  """
  if not traces:
    raise MachineryError(f"No traces to validate with {module}")
  for tr in traces:
    _wellformed(tr["cfg"])
    for i, e in enumerate(tr["ev"]):
      try:
        _wellformed(e)
      except MachineryError:
        # No specification knows such values
        tr["ev"] = tr["ev"][:i] + [{"op": "value out of range"}]
        break
  if shards is None:
    shards = max(1, min(NPROC, len(traces) // 4))
  parts = [traces[i::shards] for i in range(shards)]
  out, st = [], [0, 0]
  with cf.ThreadPoolExecutor(NPROC) as ex:
    for o, s in ex.map(lambda p: _validate_shard(module, p, extra_cfg), parts):
      out += o
      st = [st[0] + s[0], st[1] + s[1]]
  return out, st


def _wellformed(x, path=""):
  """TLC reads only 32-bit integers, strings, booleans, lists and objects."""
  if isinstance(x, dict):
    for k, v in x.items():
      _wellformed(v, path + "." + str(k))
  elif isinstance(x, (list, tuple)):
    for i, v in enumerate(x):
      _wellformed(v, path + f"[{i}]")
  elif isinstance(x, bool) or isinstance(x, str):
    pass
  elif isinstance(x, int):
    if abs(x) >= 2 ** 31:
      raise MachineryError(f"Integer too large in trace at {path}: {x}")
  else:
    raise MachineryError(f"Bad value in trace at {path}: {x!r}")


START = time.time()


class Driver:
  """Runs scenarios on the real code in separate python processes."""

  def __init__(self, name, env=None, devices=1, procs=4, timeout=150,
               total_timeout=2400):
    self.name, self.procs = name, procs
    self.timeout, self.total_timeout = timeout, total_timeout
    self.hangs = 0
    e = dict(os.environ)
    e.pop("PYTHONPATH", None)
    e.update(JAX_PLATFORMS="cpu", TF_CPP_MIN_LOG_LEVEL="3",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             PYTHONPATH=f"{REPO}:{DRIVERS}", PYTHONWARNINGS="ignore",
             HDF5_USE_FILE_LOCKING="FALSE")
    flags = [f for f in e.get("XLA_FLAGS", "").split()
             if "device_count" not in f]
    flags.append(f"--xla_force_host_platform_device_count={devices}")
    e["XLA_FLAGS"] = " ".join(flags)
    e.update(env or {})
    self.env = e

  def _run(self, scenarios):
    tmp = tempfile.mkdtemp(prefix="vdrv_")
    traces, todo, crashes = [], list(scenarios), 0
    try:
      while todo:
        inp, outp = os.path.join(tmp, "in.json"), os.path.join(tmp, "out.jsonl")
        if os.path.exists(outp):
          os.unlink(outp)
        with open(inp, "w") as f:
          json.dump({"scenarios": todo, "timeout": self.timeout,
                     "tmp": tmp}, f)
        log = open(os.path.join(tmp, "log"), "w+")
        p = subprocess.Popen(
          [PY, os.path.join(DRIVERS, self.name + ".py"), inp, outp],
          env=self.env, stdout=log, stderr=subprocess.STDOUT, cwd=tmp,
          start_new_session=True)
        timed_out = False
        try:
          p.wait(self.total_timeout)
        except subprocess.TimeoutExpired:
          timed_out = True
        try:
          os.killpg(p.pid, 9)
        except ProcessLookupError:
          pass
        p.wait()
        log.seek(0)
        text = log.read()
        log.close()
        done, started = {}, None
        if os.path.exists(outp):
          for line in open(outp):
            try:
              d = json.loads(line)
            except ValueError:
              continue
            if "start" in d:
              started = d["start"]
            else:
              done[d["id"]] = d
              started = None
        if started is None and not done:
          raise MachineryError(f"Driver {self.name} failed:\n{text[-3000:]}")
        if started is not None and started not in done:
          scn = next(s for s in todo if s["id"] == started)
          done[started] = {"id": started, "cfg": scn.get("cfg", {}),
                           "ev": [{"op": "crash"}], "log": text[-3000:]}
          crashes += 1
        missing = [s for s in todo if s["id"] not in done]
        for s in todo:
          if s["id"] in done:
            d = done[s["id"]]
            d["scenario"] = s
            traces.append(d)
        if missing and (timed_out or p.returncode == 0):
          raise MachineryError(f"Driver {self.name} incomplete:\n{text[-3000:]}")
        crashes += 1 if missing else 0
        self.hangs += sum(any(e.get("op") == "hang" for e in d["ev"]) for d in done.values())
        if crashes > 6 or self.hangs > 2 or (
            (crashes or self.hangs) and time.time() - START > 400):
          return traces   # Enough violations have been seen
        todo = missing
      return traces
    finally:
      shutil.rmtree(tmp, ignore_errors=True)

  def run(self, scenarios):
    ids = [s["id"] for s in scenarios]
    assert len(set(ids)) == len(ids), "duplicated scenario ids"
    n = max(1, min(self.procs, len(scenarios)))
    parts = [scenarios[i::n] for i in range(n)]
    with cf.ThreadPoolExecutor(n) as ex:
      return [t for ts in ex.map(self._run, parts) for t in ts]


class Check:
  def __init__(self, pid, tier, seed):
    self.pid, self.tier, self.seed = pid, tier, seed
    self.t0 = time.time()
    self.states = self.transitions = 0
    self.accepted, self.events = 0, 0
    self.samples, self.violations, self.notes = [], [], {}
    self.assumptions = []
    self.known = load_known(pid)
    self.known_seen = []
    self.design = []
    self.only = None

  @property
  def quick(self):
    return self.tier == "quick"

  def log(self, *a):
    print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

  # -- model checking of the design ----------------------------------------
  def model_check(self, module, cfg, workers=4, args=(), timeout=3000,
                  heap="4g", label=None):
    """Exhaustive TLC run; an error is a failure of the machinery since the
    design specification does not depend on the code."""
    if self.only is not None:
      return None
    r = run_tlc(module, cfg, workers=workers, args=args, timeout=timeout,
                heap=heap)
    if r.rc != 0 or "No error has been found" not in r.out:
      raise MachineryError(f"Design {module} ({label or cfg}) fails:\n{r.out[-4000:]}")
    self.states += r.distinct
    self.transitions += max(0, r.generated - r.initial)
    self.design.append({"module": module, "cfg": label or cfg.strip()[:60],
                        "distinct": r.distinct, "generated": r.generated})
    self.log(f"design {module} {label or ''}: {r.distinct} states, "
             f"{r.generated} generated")
    return r

  def refute(self, module, cfg, expect, label=None, workers=2, timeout=600):
    """A deliberately broken variant of the design: TLC has to find the
    counterexample (non-vacuity of the checked property)."""
    if self.only is not None:
      return
    r = run_tlc(module, cfg, workers=workers, timeout=timeout)
    if expect not in r.out or r.rc == 0:
      raise MachineryError(f"Broken variant of {module} ({label}) was not "
                           f"refuted:\n{r.out[-3000:]}")
    self.notes.setdefault("refuted_variants", []).append(label or expect)

  # -- behaviours generated from the specification ---------------------------
  def generate(self, module, cfg, num, depth, timeout=300, salt=0):
    """Behaviours of the specification, printed as JSON by the module."""
    r = run_tlc(module, cfg, args=["-simulate", f"num={num}", "-depth",
                                   str(depth), "-seed", str(self.seed * 7919 + salt)],
                timeout=timeout)
    out = []
    for line in re.findall(r'^<<\s*"BEHAVIOUR",\s*(".*")\s*>>$', r.out, re.M):
      out.append(json.loads(json.loads(line)))
    if not out:
      raise MachineryError(f"No behaviours from {module}:\n{r.out[-3000:]}")
    uniq, seen = [], set()
    for o in out:
      k = json.dumps(o, sort_keys=True)
      if k not in seen:
        seen.add(k)
        uniq.append(o)
    self.log(f"generated {len(uniq)} behaviours from {module}")
    self.notes["generated_behaviours"] = (
      self.notes.get("generated_behaviours", 0) + len(uniq))
    return uniq

  def enumerate(self, module, cfg, timeout=600):
    """All values printed by an exhaustive run of a generator module."""
    r = run_tlc(module, cfg, timeout=timeout)
    out = [json.loads(json.loads(l)) for l in
           re.findall(r'^<<\s*"BEHAVIOUR",\s*(".*")\s*>>$', r.out, re.M)]
    if not out or "No error has been found" not in r.out:
      raise MachineryError(f"Nothing enumerated by {module}:\n{r.out[-3000:]}")
    self.notes["generated_behaviours"] = (
      self.notes.get("generated_behaviours", 0) + len(out))
    return out

  # -- conformance -----------------------------------------------------------
  def conform(self, module, driver, scenarios, label="", extra_cfg="",
              shards=None):
    if self.only is not None:
      scenarios = [s for s in scenarios if s["id"] == self.only["id"]]
      if self.only["driver"] != driver.name or not scenarios:
        return []
    traces = driver.run(scenarios)
    t1 = time.time()
    slim = [{"id": t["id"], "cfg": t["cfg"], "ev": t["ev"]} for t in traces]
    full = {t["id"]: t for t in traces}
    res, st = validate(module, slim, extra_cfg, shards)
    self.states += st[0]
    self.transitions += max(0, st[1] - len(slim))
    acc = 0
    for tr, verdict, l, why in res:
      self.events += len(tr["ev"])
      if verdict == "ACCEPT":
        acc += 1
        if len(self.samples) < 6 and (acc in (1, 3)):
          self.samples.append({"spec": module, "id": tr["id"],
                               "cfg": tr["cfg"], "ev": _cut(tr["ev"])})
      else:
        self._violation(module, driver, full[tr["id"]], l, why)
    self.accepted += acc
    self.log(f"{label or module}: {acc}/{len(res)} traces accepted "
             f"({sum(len(t['ev']) for t in slim)} events, "
             f"validation {time.time() - t1:.1f}s)")
    return traces

  def _violation(self, module, driver, trace, l, why):
    sig = f"{trace['id']}|{why}"
    for k in self.known:
      if re.fullmatch(k["match"], sig):
        self.known_seen.append((k, sig))
        return
    self.violations.append((module, driver, trace, l, why))

  def finish(self):
    evdir = os.path.join(VERIF, "evidence")
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    if self.only is None:
      for old in glob.glob(os.path.join(rdir, f"{self.pid}-*.json")):
        os.unlink(old)
      cov = {"states": self.states, "transitions": self.transitions,
             "traces_validated_against_impl": self.accepted,
             "trace_events": self.events, "design_runs": self.design,
             "samples": self.samples or [{"note": "none accepted"}]}
      cov.update(self.notes)
      with open(os.path.join(evdir, f"{self.pid}.json"), "w") as f:
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                   "level": "model_checking", "coverage": cov,
                   "assumptions": self.assumptions,
                   "wall_s": round(time.time() - self.t0, 2),
                   "violations": len(self.violations)}, f, indent=1)
    for k in {k["text"] for k, _ in self.known_seen}:
      print(f"KNOWN-FINDING: property={self.pid} {k}")
    shown = 0
    for module, driver, trace, l, why in self.violations:
      shown += 1
      if shown > 8:
        continue
      name = re.sub(r"[^A-Za-z0-9_.-]", "_", trace["id"])[:80]
      path = os.path.join(rdir, f"{self.pid}-{name}.json")
      with open(path, "w") as f:
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                   "driver": driver.name, "spec": module, "id": trace["id"],
                   "rejected_event": l, "clause": why,
                   "event": trace["ev"][l - 1] if 0 < l <= len(trace["ev"]) else None,
                   "trace": trace,
                   "rerun": f"python3 check.py {self.pid} --replay {path}"},
                  f, indent=1)
      e = trace["ev"][l - 1] if 0 < l <= len(trace["ev"]) else {}
      print(f"  rejected: {module} trace {trace['id']} event {l}: {why} "
            f"{json.dumps(e)[:600]}")
      if "log" in trace:
        print("  " + trace["log"][-1500:].replace("\n", "\n  "))
      print(f"VIOLATION property={self.pid} replay={path}", flush=True)
    if shown > 8:
      print(f"({shown - 8} further violations)")
    self.log(f"{self.accepted} traces accepted, {len(self.violations)} "
             f"violations, {self.states} states")
    return 1 if self.violations else 0


def _cut(ev):
  s = json.dumps(ev)
  return ev if len(s) < 3000 else s[:3000] + "..."


def load_known(pid):
  """known_findings.txt: lines 'known: property=ID match=REGEX :: text'."""
  res = []
  path = os.path.join(VERIF, "known_findings.txt")
  if os.path.exists(path):
    for line in open(path):
      m = re.match(r"known: property=(\S+) match=(\S+) :: (.*)", line)
      if m and m.group(1) == pid:
        res.append({"match": m.group(2), "text": m.group(3)})
  return res
