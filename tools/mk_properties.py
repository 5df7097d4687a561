#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to keep the text readable)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A full-data sweep visits every observation exactly once, in order",
"""Every mapping of a function over a complete dataset calls the function on consecutive batches of the
requested size in which each observation occurs exactly once as a valid entry and in dataset order, marks
all remaining filler entries as invalid, threads the carry sequentially through the calls, and returns
per-observation results aligned with the observations without fillers. This holds for host and device
data, for every batch size and cache size, under jit, and again for every later sweep with the returned
state.""",
["inputs", "configurations", "histories"],
"All dataset sizes, batch sizes <= dataset size, cache sizes, masked/unmasked mapping, with/without batch information, any number of consecutive sweeps and start offsets of device data.",
"Unit tests map once or twice over two dataset sizes with a host loader and a few batch sizes; second sweeps over non-divisible device data, interplay of cache refreshes with the sweep end and the mask/carry bookkeeping are never enumerated.",
["jax_sgmc/data/core.py", "jax_sgmc/data/numpy_loader.py"],
[("batch_scan loop, mask and filler removal", "jax_sgmc/data/core.py: full_reference_data"),
 ("ordered index generation", "jax_sgmc/data/numpy_loader.py: NumpyDataLoader._ordered_indices"),
 ("device slicing with offset", "jax_sgmc/data/core.py: _full_reference_data_device")],
[("idx_offset", "next observation of an ordered chain", "numpy_loader.py"), ("current_line", "position in cache / device dataset", "core.py CacheState")],
["full_reference_data(...)[1] results and carry", "full_data_mapper(...)[0] results"])

prop("C02", "Random mini-batches obey their sampling scheme",
"""Random chains only return rows of the dataset (as it was when the loader was created), with all fields of a row kept together, in batches of the
requested shape; with shuffling the returned observations are, batch after batch, a concatenation of complete
permutations of the dataset with all entries valid; with in-epoch shuffling each epoch consists of
ceil(N/batch) batches whose valid entries are exactly one permutation of the dataset and only the surplus
entries of the last batch are invalid. Without shuffling every observation can be drawn uniformly with
replacement and all entries are valid; requests for batches larger than the dataset, non-positive batch or cache sizes, in-epoch access without
shuffling and caching of device data are rejected with an error.""",
["inputs", "configurations", "histories"],
"All dataset sizes, batch sizes, cache sizes, schemes (draw, shuffle, in-epochs, device draw, tensorflow shuffle buffer), any number of draws.",
"Tests check shapes and one or two epochs for one batch size; the shuffle ring buffer has wrap-around states which are reached only after several epochs for specific N mod mb.",
["jax_sgmc/data/numpy_loader.py", "jax_sgmc/data/core.py", "jax_sgmc/data/tensorflow_loader.py"],
[("shuffle ring buffer", "numpy_loader.py: _shuffle_indices"), ("epoch shuffling", "numpy_loader.py: _shuffle_in_epochs"),
 ("uniform draws", "numpy_loader.py: _draw_indices; DeviceNumpyDataLoader.get_random_data"),
 ("argument checks", "core.py: random_reference_data; numpy_loader.py: register_random_pipeline")],
[("remaining_samples/draws/random_indices", "position within the shuffle buffer", "numpy_loader.py")],
["get_batches of registered chains", "random_reference_data batches and information"])

prop("C03", "Data chains are independent, reproducible and restorable from checkpoints",
"""The batches of a chain depend only on the dataset, the registration arguments and its seed (by default its chain
number), never on other chains of the same loader or on how their draws are interleaved. Restoring a
checkpoint of a chain makes it continue with exactly the batches and masks that followed when the
checkpoint was taken; taking or restoring checkpoints neither disturbs other chains nor alters the
checkpoint, so it can be restored any number of times at any later point.""",
["histories", "schedules", "crash_points"],
"All interleavings of register/draw/save/restore over several random and ordered chains; every batch index as checkpoint position.",
"Tests save and restore one chain once, directly after the save; repeated restores, restores after more draws, interleaved chains and wrap-around positions are not reached.",
["jax_sgmc/data/numpy_loader.py"],
[("per-chain rng and index state", "numpy_loader.py: register_random_pipeline"), ("save_state/load_state", "numpy_loader.py")],
[("chain dict", "rng, offset and shuffle buffer of one chain", "numpy_loader.py: NumpyDataLoader._chains")],
["get_batches sequences", "save_state / load_state"])

prop("C04", "Device caching never loses, repeats, reorders or mislabels mini-batches",
"""Requesting mini-batches through jit-compiled access functions with consecutively threaded states returns
exactly the batches, with exactly the validity masks, which the data loader produces for this chain, in
the same order and each exactly once, for every cache size; the accompanying information always states
the true number of observations and the batch size. The result does not depend on the access pattern (eager, jit, scan, several chains
interleaved) and the loader is asked for new batches only after all cached ones have been used.""",
["configurations", "histories", "schedules"],
"All cache sizes, batch sizes, chains, interleavings and lengths of access sequences, host loaders with and without masks.",
"Tests draw a few batches with one cache size and compare shapes or a short order; they do not enumerate refresh boundaries together with masks and interleaved chains.",
["jax_sgmc/data/core.py"],
[("cache refresh by callback", "core.py: _hcb_wrapper"), ("request bookkeeping", "core.py: _Requests")],
[("current_line", "next batch in the cache", "core.py: CacheState"), ("cached_batches/valid", "cache content", "core.py: CacheState")],
["random_reference_data(...)[1]", "get_batches calls of a host loader"])

prop("C05", "Outdated data states are detected or served safely, replicas get equal data",
"""A chain whose calls are verified (verify_calls, and always for full-data maps) never continues from an outdated
state: a refresh from a state that has already been refreshed raises an error without consuming data
from the loader and without affecting the up-to-date state. A chain without verification continues with the
next not yet delivered batches instead. If a replicated state is refreshed on k devices with device_count=k, all
k refreshes return identical data, the loader is asked exactly once, and further refreshes from that state
count as outdated; a device count exceeding the available devices is rejected.""",
["histories", "schedules"],
"All histories of states kept, reused and replicated by clients, for strict and non-strict chains and all device counts.",
"The only tests are skipped without several devices; re-use of a state after a refresh is not tested at all.",
["jax_sgmc/data/core.py"],
[("token protocol under a lock", "core.py: _Requests.__call__"), ("device count check", "core.py: batch_fn")],
[("_requests", "token expected next for each chain", "core.py: _Requests"), ("_cached_requests", "responses kept for replicas", "core.py: _Requests")],
["random_reference_data / full_reference_data called with kept states"])

prop("C06", "Concurrent and nested full-data mappings do not interfere",
"""Full-data mappings that acquire their data state by themselves can be executed repeatedly, nested in each
other and concurrently from several threads: each of them sees the complete dataset exactly once in
order, as if it was executed alone. At no time do two running mappings share a data state, and every finished
mapping makes its data state reusable for later mappings, so no more states are created than mappings run
simultaneously. For not vectorized functions the mapping returns one result per observation and hands the carry from batch to batch.""",
["schedules", "histories"],
"All interleavings of the batches of several simultaneous mappings, any number of repetitions, nesting and pickling of the mapper state in between.",
"Tests call a mapper sequentially in one thread, so at most one state is ever in use.",
["jax_sgmc/data/core.py"],
[("pool of unused states under a lock", "core.py: _FullDataHelper"), ("checkout/checkin callbacks", "core.py: full_data_mapper")],
[("_unused_states", "pool of states at a sweep boundary", "core.py: _FullDataHelper")],
["full_data_mapper(...)[0] from threads", "calls of a HostDataLoader"])

prop("C07", "Schedules are exact functions of the iteration",
"""At the k-th iteration (counting from zero) the scheduler reports the k-th value of the step-size schedule
(a(b+k)^-gamma, or the polynomial of the given decay connecting the first and the last step size), the configured constant
temperature, a burn-in flag that is zero exactly for the first n iterations, and an acceptance flag; defaults are step size 1, temperature 1, no
burn-in and accepting everything. Random thinning accepts exactly the requested number of distinct iterations,
all of them after burn-in, chosen with probability increasing with the step size, reproducibly for a given key and rejecting too large requests. The announced
number of samples equals the number of iterations passing both burn-in and thinning, and values given at initialization override the defaults
of the individual schedules; the progress display does not change any schedule.""",
["configurations", "inputs", "histories"],
"All iteration counts, burn-in lengths, thinning counts and keys, schedule parameters and per-chain overrides.",
"Tests check the flags at two iterations and a count for two sizes; the agreement of announced and real sample count and boundary iterations are not enumerated.",
["jax_sgmc/scheduler.py"],
[("combination and iteration counter", "scheduler.py: init_scheduler"), ("burn-in", "scheduler.py: initial_burn_in"),
 ("thinning", "scheduler.py: random_thinning"), ("step sizes", "scheduler.py: polynomial_step_size(_first_last)")],
[("state", "(current iteration, total iterations)", "scheduler.py: scheduler_state")],
["init_scheduler(...) get/update", "static_information.samples_collected", "progress bar output"])

prop("C08", "Exactly the accepted post-burn-in samples are collected, in order",
"""A run of a solver returns, for every chain and every saving strategy, exactly the states reached after the
iterations that passed burn-in and thinning, once each, in the order of the iterations and assigned to the
right chain; the reported sample count equals their number and no placeholder remains. The solver is advanced exactly
once per iteration with the schedule of that iteration, and the statistics it returns are passed on to the scheduler before the next iteration.""",
["histories", "configurations"],
"All keep patterns, iteration counts, numbers of chains, pytree shapes of samples, saving strategies (device, numpy, JSON, HDF5), additional schedulers.",
"Tests save in a hand-written scan or run solvers end-to-end and compare distributions; off-by-one pairing of schedule, state and saved sample is invisible to them.",
["jax_sgmc/solver.py", "jax_sgmc/io.py", "jax_sgmc/scheduler.py"],
[("update loop", "solver.py: mcmc"), ("conditional save", "io.py: save, no_save")],
[("saved_samples", "number of collected samples", "io.py: saving_state")],
["mcmc(...)(...) return value", "DataCollector.save calls"])

prop("C09", "When a run returns, all of its samples have been stored completely",
"""Although samples are transferred and stored asynchronously, at the moment a run hands its results
back every accepted sample of that chain has been processed by the data collector in order, finalization has
happened exactly once and after the last sample, and everything the collector is going to write (returned
arrays, npz, JSON and HDF5 files) is complete. Every run returns eventually, also with slow storage, with zero accepted
samples and if several chains or runs use the same collector.""",
["schedules"],
"All relative speeds of the main thread, the callback thread and the storage.",
"Timing in tests never delays the storage, so an early return is not observed.",
["jax_sgmc/io.py", "jax_sgmc/solver.py"],
[("finalize/finished handshake", "io.py: MemoryCollector, HDF5Collector, JSONCollector"), ("ordering of host callbacks", "io.py: save")],
[("_finished", "signal from callback thread to main thread", "io.py")],
["collector methods", "files at the time the run returns"])

prop("C10", "Conversion between pytrees and dictionaries preserves every leaf",
"""Transforming a pytree to a dictionary and back restores the identical tree, and the list of keys returned
for a tree names its leaves in the order in which the tree is flattened, each path unique and leading to that very leaf in
the dictionary. This holds for every nesting of dicts, lists, tuples, named tuples, empty
containers, None and nodes with registered rules, and for restoring subtrees; element i of a list or unnamed tuple is called
list_element_i and other nodes keep their field names.""",
["inputs"],
"All tree shapes, in particular sequences with more than ten elements and fields in non-alphabetical order.",
"There are no tests except two doctests with two-element lists.",
["jax_sgmc/io.py"],
[("pytree_to_dict / dict_to_pytree", "io.py"), ("pytree_dict_keys", "io.py"), ("dictionize rules", "io.py: register_dictionize_rule")],
[], ["pytree_to_dict, pytree_dict_keys, dict_to_pytree"])

prop("C11", "Stored sample files hold every sample under the right name, and can be read back",
"""After any interleaving of saves by several chains, the storage of each chain (returned arrays, npz file, JSON file or
HDF5 datasets) contains for each leaf of the sample, under the name derived from its path, exactly the saved
values of this chain in saving order with unchanged shape and dtype; JSON files hold all samples up to the
number in their name and appear after every write_frequency samples and at the end. Samples stored in HDF5
and loaded as reference data come back in the original tree structure with all leaves of an observation
belonging together.""",
["histories", "inputs", "configurations"],
"All interleavings of saves of several chains, sample trees, write frequencies, batch and cache sizes when reading.",
"No test covers the collectors' storage or the HDF5 loader.",
["jax_sgmc/io.py", "jax_sgmc/data/hdf5_loader.py"],
[("collectors", "io.py: MemoryCollector, JSONCollector, HDF5Collector"), ("reader", "data/hdf5_loader.py")],
[("_sample_count", "next index to be written per chain", "io.py")],
["npz/JSON/HDF5 files", "HDF5Loader.get_batches"])

prop("C12", "Metropolis-Hastings corrections accept and reject atomically",
"""In AMAGOLD and SGGMC an accepted proposal replaces position, momentum, model state and potential together; a
rejected one restores all of them to their previous values with the momentum reversed, while random data and
random key always advance, so that no noise or data is reused. The potential kept with the state is always the full-data potential
of the current position, and the proposal is accepted with the probability min(1, exp(-dU + accumulated energy))
for AMAGOLD and min(1, exp(-(dU + dK)/T)) for SGGMC, which is also the acceptance ratio reported to the user and to the scheduler; an
adapted mass is used in the next step and updated once per step with the resulting position.""",
["histories", "inputs"],
"All sequences of proposals and energies, accept/reject decisions, model states and temperatures.",
"Tests run the solvers end-to-end and compare distributions with large tolerances.",
["jax_sgmc/solver.py"],
[("acceptance step", "solver.py: amagold, sggmc")],
[("potential", "full potential of the current sample", "solver.py: AMAGOLDState, SGGMCState")],
["solver triple driven with a scripted integrator"])

prop("C13", "Replica exchange swaps complete chains by the corrected energy criterion",
"""In reSGLD both chains advance by one integrator step with their own schedule per iteration and are then swapped as a whole or left as they are,
with swap probability min(1, exp(d(U_cold - U_hot - d*s/F))) where d = 1/T_cold - 1/T_hot and s
is the stochastic-approximation estimate of the variance of the stochastic potential of the cold chain updated once per iteration. No state is
lost or duplicated by a swap and only the state of the cold position is reported as sample.""",
["histories", "inputs"],
"All sequences of energies, variances, temperatures and swap decisions.",
"Only end-to-end runs with large tolerances exist, which passed even with inverted swaps.",
["jax_sgmc/solver.py", "jax_sgmc/integrator.py"],
[("swap step", "solver.py: parallel_tempering"), ("variance of the potential", "integrator.py: langevin_diffusion")],
[("ssq_estimate", "variance estimate", "solver.py")],
["solver triple driven with a scripted integrator", "alias.re_sgld"])

prop("C14", "Integrators implement their update rule with fresh data and fresh noise",
"""Every inner step of an integrator uses new mini-batches of its own data chain (OBABO two, the others one per step), passes the
model state on from evaluation to evaluation, and changes position and momentum by its documented update rule: gradient, friction, mass,
temperature and step size enter with the documented coefficients for every parameter pytree, and the injected
Gaussian noise has zero mean and the documented variance, independent between steps, leaves and chains. The reported energies
are those of the same trajectory, so that with full data, vanishing friction and step size the energy is conserved and leapfrog trajectories are time-reversible.""",
["inputs", "configurations", "histories"],
"All step sizes, frictions, masses, temperatures, numbers of steps, parameter trees and batch sequences.",
"Tests only compare sampled distributions of a Gaussian or a regression with tolerances around 100%.",
["jax_sgmc/integrator.py"],
[("update rules", "integrator.py: obabo, reversible_leapfrog, friction_leapfrog, langevin_diffusion")],
[("momentum/positions/potential", "integrator state", "integrator.py")],
["integrator triples with linear potentials"])

prop("C15", "Potentials weight every observation once, add the prior once, for every strategy",
"""The stochastic potential of a batch equals -(N/n * sum of the log-likelihoods of the valid observations + log-prior)/temperature, where without mask all n entries are valid, and
the full potential equals -(sum over all N observations + log-prior)/temperature independent of how the data is split
into batches and caches; masked or filler observations have no influence. All evaluation strategies and batched likelihoods agree, also for single-observation batches,
per-observation likelihoods are returned in batch order, gradients correspond to the value, and the model state is passed in and
handed out unmixed.""",
["inputs", "configurations"],
"All dataset, batch and cache sizes, masks, strategies, stateful/stateless and batched/unbatched likelihoods, temperatures.",
"Tests compare few sizes, no masks with stateful likelihoods, no temperature.",
["jax_sgmc/potential.py", "jax_sgmc/data/core.py"],
[("scaling, masking and strategies", "potential.py: minibatch_potential"), ("sum over sweep", "potential.py: full_potential")],
[], ["minibatch_potential, full_potential with exact integer likelihoods"])

prop("C16", "Adaption strategies act on the flattened parameters and map back consistently",
"""Adaption strategies see parameters and gradients as one vector in a fixed order and their quantities are mapped back to the same leaves,
for every parameter tree. RMSprop tracks the exponential average of squared gradients v and scales by 1/(lambda+sqrt(v)) (noise by its square root); the mass
adaption keeps the initial mass until exactly the configured number of samples has been seen, then uses the inverse mass given by
their (co)variance with a square root whose product with its transpose is the mass, and never changes again; the
noise model splits the friction into an estimated gradient-noise part and the non-negative remainder.""",
["inputs", "histories"],
"All parameter trees, sample sequences, burn-in lengths, diagonal and dense variants.",
"Tests only exercise the flattening decorator on a toy strategy.",
["jax_sgmc/adaption.py", "jax_sgmc/util/tree_util.py"],
[("flattening decorator", "adaption.py: adaption"), ("strategies", "adaption.py: rms_prop, mass_matrix, fisher_information")],
[], ["strategy triples"])

prop("C17", "Step-size adaption follows dual averaging and freezes after burn-in",
"""The adaptive step size starts at the given initial value, follows the dual-averaging recursion of the observed acceptance ratios during burn-in, thus
moving up when acceptance exceeds and down when it falls short of the target, and stays exactly constant from the end of burn-in on, whatever acceptance ratios follow.
Parameters given at initialization of a chain are respected, and in a run the acceptance ratio of each Metropolis-Hastings step reaches the schedule exactly once and before the next step.""",
["histories", "configurations"],
"All sequences of acceptance ratios, burn-in lengths, targets and adaption constants.",
"The adaptive step size has no unit test.",
["jax_sgmc/scheduler.py", "jax_sgmc/solver.py"],
[("dual averaging", "scheduler.py: adaptive_step_size"), ("statistics passing", "solver.py: mcmc")],
[], ["adaptive_step_size update/get", "amagold/sggmc runs"])

prop("C18", "Chains are isolated: results do not depend on what runs next to them",
"""Running several chains in one call gives each chain the same samples as running it alone with the same initial state,
in the order in which the chains were passed, for sequential, vectorized and multi-device execution, and repeating a run from equal initial states
gives equal results. Splitting, stacking and mapping over lists of pytrees are
inverse to each other and keep the pairing, and identifiers survive their transport through device arrays
unchanged and unique.""",
["configurations", "inputs", "schedules"],
"All numbers of chains, strategies map/vmap/pmap with device data, tree shapes, identifiers.",
"Tests run single chains; pmap tests are skipped.",
["jax_sgmc/solver.py", "jax_sgmc/util/list_map.py", "jax_sgmc/util/uuid.py"],
[("strategies", "solver.py: mcmc"), ("list maps", "util/list_map.py"), ("identifier", "util/uuid.py")],
[], ["mcmc results", "list_vmap, pytree_list_to_leaves, pytree_leaves_to_list, JaxUUID"])

prop("C19", "Predefined solvers behave as configured by their arguments",
"""Each ready-made sampler uses the given batch size, cache size, integration steps, friction, mass, temperature and step-size range, runs the
requested number of iterations, drops the requested burn-in and returns exactly the requested number of samples (or all after burn-in) for
every chain in the given order, identically with samples kept on the device or on the host. Turning the progress bar on or
off or choosing another cache size does not change the samples, and initial model states are handed
to the likelihood.""",
["configurations"],
"All predefined samplers, argument combinations and numbers of chains.",
"Tests run one configuration per sampler and check only the distribution.",
["jax_sgmc/alias.py"],
[("wiring", "alias.py: sgld, re_sgld, amagold, sggmc, sghmc, obabo")],
[], ["alias.*(...)(...) results"])

prop("C20", "Long runs converge to the posterior distribution",
"""For suitable step sizes the distribution of the samples collected by each solver converges to the posterior defined by prior and likelihood (at the chosen temperature).""",
["inputs"], "All posteriors with suitable step sizes.",
"A finite number of samples cannot prove convergence; the tests sample two posteriors.",
["jax_sgmc/solver.py", "jax_sgmc/integrator.py"],
[("solvers", "solver.py"), ("integrators", "integrator.py")], [], ["samples"])

prop("C21", "Progress reports are accurate and do not influence the run",
"""Every enabled progress bar of every chain and schedule reports at its first and then at every K-th iteration, K = max(1, T // steps) for T iterations and about
`steps` requested reports: the number of the iteration, the percentage done, and how many of the announced samples have been kept up to and including this iteration. Schedules with a disabled
bar print nothing, and enabling or disabling bars, their number of steps or the number of chains never changes samples, statistics or
schedules.""",
["configurations", "schedules"],
"All run lengths, numbers of reports, burn-in/thinning patterns, chains, strategies and helper schedulers.",
"No test looks at the printed reports or compares runs with and without them.",
["jax_sgmc/scheduler.py", "jax_sgmc/solver.py"],
[("reports", "scheduler.py: progress_bar, init_scheduler"), ("collected samples", "solver.py: mcmc")],
[], ["standard output of init_scheduler(...) and solver.mcmc(...) runs, their results"])

prop("C22", "Pytree arithmetic agrees with vector arithmetic",
"""Sums, elementwise products, scalings, scalar products and matrix products of pytrees (also by diagonal and scalar tensors) equal the corresponding operation on the vectors obtained by
concatenating all leaves in the order of the flattened tree, and the result has the structure, shapes and types of
the operands, for every tree structure, including empty nodes, scalars and leaves without entries, eagerly,
under jit and vmap, and for any sequence of operations; the gradient of the scalar product is the other factor.""",
["inputs", "histories"],
"All tree structures and leaf shapes, all sequences of operations.",
"Tests use three fixed trees and single operations; the order of leaves in matrix products is not tested with keys out of order.",
["jax_sgmc/util/tree_util.py"],
[("operations", "util/tree_util.py: tree_add, tree_scale, tree_multiply, tree_dot, tree_matmul, tensor_matmul")],
[], ["results of the operations"])

if __name__ == "__main__":
    import os
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
