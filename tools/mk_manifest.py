"""Writes MANIFEST.json from the table of claimed checks."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
CLAIMS = {
  "C01": (T + "recorded sweeps of the real mapping functions validated against FullMap.tla",
          "FullMap.tla: sweeps over all n, batch and cache sizes up to a bound are exhaustive; recorded sweeps (host/device data, masks, carries, repeated and failing sweeps) validated"),
  "C02": (T + "trace validation of the real loaders against the sampling schemes",
          "DataLoader.tla: sampling schemes exhaustive for n<=4; recorded batches of all n<=17 x batch sizes and generated histories checked against the spec"),
  "C03": (T + "spec-generated register/draw/save/load schedules replayed on the real loader, trace validation",
          "DataLoader.tla: streams, interleavings and checkpoints exhaustive for 2 chains; generated and systematic checkpoint histories validated"),
  "C04": (T + "spec-generated request schedules replayed on the real access functions, trace validation",
          "BatchAccess.tla: caches, tokens and interleavings exhaustive for small caches; generated histories of jit/vmap/scan/lax.cond accesses validated"),
  "C05": (T + "spec-generated histories with outdated and copied states replayed on the real code, trace validation",
          "BatchAccess.tla: stale states exhaustive for small histories; generated histories on 1 and 3 devices validated"),
  "C06": (T + "concurrent and nested mappings recorded from real threads and validated",
          "MapperPool.tla: acquisition and release of data states exhaustive for 3 threads; real thread schedules with slow loaders and failing mappings validated"),
  "C07": (T + "iterations of the real schedulers compared with Scheduler.tla (fixed-point arithmetic)",
          "Scheduler.tla: all small burn-in/thinning patterns exhaustive; recorded schedules over parameters, chains, and dynamics validated"),
  "C08": (T + "complete runs of the real mcmc with an integer solver validated against SolverRun.tla",
          "SolverRun.tla: runs with all patterns exhaustive for small lengths; recorded runs over strategies, collectors, chains, trees validated"),
  "C09": (T + "asynchronous schedules of the handshake model-checked; real runs with slow storage and delayed callbacks validated",
          "Handshake.tla refines SolverRun.tla (all interleavings of dispatch, callbacks, waiting); real runs with delays and threads validated"),
  "C10": (T + "spec-enumerated trees converted by the real code, results compared with PytreeIO.tla",
          "PytreeIO.tla: laws checked for all small trees, which are all replayed on the real code, together with random deep ones"),
  "C11": (T + "spec-generated histories of saves replayed on the real collectors; files read back and validated",
          "Store.tla: cells/counters model refines the required storage for every interleaving of two chains; generated histories with random sample trees validated against files, and HDF5 files read back via DataLoader.tla"),
  "C12": (T + "steps of the real solvers with scripted and real integrators validated against MHSolver.tla",
          "MHSolver.tla: stationarity for all small densities and forces, atomicity and freshness for all histories exhaustive; recorded steps validated, acceptance frequencies and independence of the noise by statistics (six standard errors)"),
  "C14": (T + "motions of the real integrators compared with Integrator.tla (exact without noise, mean and covariance with noise)",
          "Integrator.tla: reversibility, energy balance and noise reversal exhaustive over a finite field; recorded motions over masses, frictions, trees, temperatures compared exactly, random parts by mean and covariance (six standard errors)"),
  "C15": (T + "evaluations of the real potentials compared with Potential.tla (fixed-point arithmetic)",
          "Potential.tla: sum over sweeps and unbiasedness exhaustive for small datasets; recorded values, gradients, likelihoods and states over strategies, masks, data sources validated"),
  "C16": (T + "histories of the real adaption strategies compared with Adaption.tla (fixed-point arithmetic)",
          "Adaption.tla: covariance recursion exhaustive over a finite field; recorded histories over random trees validated"),
  "C13": (T + "steps and runs of the real solver with scripted and real integrators validated against ReplicaExchange.tla",
          "ReplicaExchange.tla: stationarity of the exchange and all histories of exchanges exhaustive for small models; recorded steps and complete runs validated, frequencies and independence of the noise by statistics (six standard errors)"),
  "C17": (T + "recorded step sizes of schedules and runs compared with DualAveraging.tla (fixed-point arithmetic)",
          "DualAveraging.tla: monotonicity, direction, freezing exhaustive for short histories over a grid of acceptance ratios; recorded histories of schedules, schedulers, scripted and real runs validated"),
  "C18": (T + "runs of several chains, list maps and identifiers of the real code validated against Chains.tla",
          "Chains.tla: isolation for all interleavings of small chains, inverse laws for all small lists exhaustive; recorded runs of all solvers alone and together (map/vmap/pmap, diverging neighbours, permutations), list maps and identifiers validated"),
  "C19": (T + "runs of the predefined samplers compared with the composition of components required by Alias.tla",
          "Alias.tla: every argument effective and no foreign argument effective, exhaustive over a grid of arguments; spec-generated arguments run with the real samplers and compared with the required composition, counters of potential evaluations, step-size range, registrations"),
  "C21": (T + "printed reports of runs and schedulers validated against Progress.tla",
          "Progress.tla: exactness and completeness of reports of two interleaved reporters exhaustive for small runs; recorded lines of schedulers and complete runs (all strategies) validated, results compared with runs without reports"),
  "C22": (T + "sequences of pytree operations of the real code compared exactly with TreeAlgebra.tla",
          "TreeAlgebra.tla: homomorphism and linear-algebra laws of the register machine exhaustive for small structures; recorded operation sequences on random trees compared exactly, eager/jit/vmap"),
}
NOT_APPLICABLE = {
  "C20": "Convergence in distribution of infinitely long runs is a statement about limits of real-valued Markov chains; no finite TLA+ behaviour decides it. Its finite ingredients are decided by C12, C13, C14, C15.",
}


def main():
  ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
  checks, na = [], []
  for i in ids:
    if i in CLAIMS:
      tech, note = CLAIMS[i]
      checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": tech, "level": "model_checking", "level_note": note})
    else:
      na.append({"property": i, "reason": NOT_APPLICABLE.get(
        i, "Check not built yet.")})
  m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
       "not_applicable": na}
  with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")


main()
