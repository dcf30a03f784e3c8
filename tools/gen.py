#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))


prop("C01", "Markov-chain sampling follows the exact Metropolis law of |psi|^mu",
     "Between any two recorded states of a Markov chain, the chain makes exactly the configured number of Metropolis updates of the proposed moves with respect to |psi|^mu at the current parameters, independently of the other chains, so recorded states follow |psi|^mu. "
     "This stays true across calls, after a change of the parameters (the chains are judged by the new amplitudes), for explicitly given parameters, for any exponent mu, number of chains, thinning, proposer, system shape and device/process layout; the reported acceptance ratio counts the accepted updates.",
     ["inputs", "histories", "configurations"],
     "for every logarithmic ansatz, exponent mu, proposer, number of chains, thinning, requested number, sequence of calls and parameter changes, and layout of devices and processes",
     "The tests compare one histogram of a 4-6 site RBM at fixed settings with a loose tolerance; a chain that reuses stale amplitudes, shares random numbers between chains or thins wrongly still passes.",
     ["jVMC/sampler.py", "jVMC/vqs.py"],
     [("Metropolis sweep", "jVMC/sampler.py MCSampler._sweep"), ("chain loop and thinning", "jVMC/sampler.py MCSampler._get_samples_mcmc / _get_samples"), ("refresh of stored amplitudes", "jVMC/sampler.py MCSampler._mc_init")],
     ["configurations returned by MCSampler.sample", "MCSampler.acceptance_ratio"],
     "runtime monitor of sampler event logs: every chain transition judged online against the exact Metropolis kernel (statistical oracle)",
     "Every observed transition is judged against the dense Metropolis kernel of the target and long runs against |psi|^mu with p<1e-10 alarms; deviations below statistical resolution of the run are not seen.")

prop("C02", "Update proposals are closed, symmetric and connect the space they are for",
     "Each built-in update proposal maps a configuration to a configuration of the same space (shape, integer type, allowed local values; conserved magnetisation or particle number where the move is made for a fixed sector), proposes s' from s as often as s from s', and by repetition reaches every configuration of that space. "
     "Spin flips change exactly one site, the zero-magnetisation move exchanges one up and one down spin (both optionally followed by a flip of all spins for the Z2-symmetric moves), and the POVM move changes exactly one site to any of the other outcomes, on one- and higher-dimensional lattices alike.",
     ["inputs", "configurations"],
     "for every built-in proposal, lattice shape and number of sites, start configuration and random key",
     "Tests use the proposals only inside one sampler run on a small chain; closure, symmetry and reachability are never examined and most lattice shapes are never used.",
     ["jVMC/sampler.py"],
     [("proposal functions", "jVMC/sampler.py propose_spin_flip, propose_spin_flip_Z2, propose_spin_flip_zeroMag, propose_POVM_outcome")],
     ["proposed configurations"],
     "runtime monitor on proposal events: exact closure per event, empirical proposal matrix against symmetry/connectivity",
     "Closure exact on each of ~10^5-10^6 proposals, symmetry at 8 sigma, connectivity by search in the observed graph.")

prop("C03", "Every sample set is complete, consistent and correctly reweighted",
     "A call for N samples returns at least N configurations in total (the same number on each device, which is a multiple of the number of chains and of the requested granularity), all valid configurations, together with the log-amplitudes of exactly these configurations and parameters and importance weights that sum to one over all devices and processes and are proportional to |psi|^(1/f - mu), f being the configured log-probability factor (equal weights for ansaetze that generate their own samples). "
     "Sampling with explicitly given parameters leaves the parameters of the state unchanged, equal random keys reproduce equal samples, different processes and calls draw different random numbers, and adding a constant to the log-amplitudes changes neither weights nor validity.",
     ["inputs", "histories", "configurations"],
     "for every ansatz (with and without its own generator), mu, logarithmic probability factor, requested number, granularity, seed, call history and layout",
     "Tests check only sums over one sampler at mu=2 or one mu; never uneven counts, granularities, several processes, amplitude offsets or histories of calls.",
     ["jVMC/sampler.py", "jVMC/vqs.py", "jVMC/mpi_wrapper.py"],
     [("sample bookkeeping", "jVMC/sampler.py MCSampler.sample / _get_samples_gen"), ("distribution of the requested number", "jVMC/mpi_wrapper.py distribute_sampling"), ("importance weights", "jVMC/sampler.py MCSampler.sample")],
     ["return value of MCSampler.sample", "NQS.parameters before/after"],
     "runtime contract monitor on every sampler call over call histories on device x MPI layouts",
     "Contract recomputed with NumPy from the returned data on each observed call; layouts up to 4 devices and 4 processes.")

prop("C04", "Autoregressive ansaetze are normalised and sample what they evaluate",
     "For every recurrent architecture (one- and two-dimensional, any cell type, depth, width, local dimension, probability exponent, real or complex output) with real-valued parameters, the probabilities of all configurations sum to one. "
     "Direct samples from such an ansatz, bare, as part of a two-network ansatz or inside a symmetrising wrapper, are independent draws from exactly the distribution that its amplitudes define.",
     ["inputs", "configurations"],
     "for every recurrent architecture, parameter vector, wrapper and random key",
     "Tests compare one histogram for a few settings; conditionals that depend on sites to the right, a wrong exponent for a cell type, or an orbit element that is never drawn are missed.",
     ["jVMC/nets/rnn1d_general.py", "jVMC/nets/rnn2d_general.py", "jVMC/nets/sym_wrapper.py", "jVMC/nets/two_nets_wrapper.py"],
     [("conditional normalisation", "jVMC/nets/rnn1d_general.py RNN1DGeneral.__call__, rnn2d_general.py RNN2DGeneral.__call__"), ("ancestral sampling", "RNN1DGeneral.sample, RNN2DGeneral.sample"), ("random group element", "jVMC/nets/sym_wrapper.py SymNet.sample")],
     ["log-amplitudes of the full basis", "samples of NQS.sample"],
     "runtime monitor: exhaustive normalisation sums and goodness-of-fit of recorded samples against the evaluated distribution",
     "Normalisation exact over the full basis of small systems; sampling judged at p<1e-10. Complex-parameter RNNs excluded (not normalised by construction).")

prop("C05", "Exact sampling enumerates every basis state once with its probability",
     "Provided every process gets at least one basis state, an exact sampler returns over all devices and processes every basis configuration with weight |psi(s)|^(1/f), f being the configured log-probability factor, normalised to total one, each state counted exactly once and padding entries carrying weight zero, with the log-amplitudes of these configurations at the current (or explicitly given) parameters. "
     "This holds for every shape, local dimension, layout, parameter history and any overall offset or dynamic range of the amplitudes, and leaves the parameters of the state unchanged.",
     ["inputs", "histories", "configurations"],
     "for every ansatz, lattice shape, local dimension, device/process layout and history of calls and parameter changes",
     "Tests use one device and one process and one system size divisible by it; padding, offsets and stale caches never occur.",
     ["jVMC/sampler.py"],
     [("basis enumeration and padding", "jVMC/sampler.py ExactSampler.get_basis"), ("normalisation", "ExactSampler.sample / _normalize")],
     ["return value of ExactSampler.sample"],
     "runtime conservation monitor: total weight of each basis state collected over all devices and processes",
     "All basis states accounted for on each call; sizes up to a few thousand states, layouts up to 4 devices / 4 processes.")

prop("C06", "Parallel reductions and work distribution equal the serial result",
     "Global sums, means, variances, covariances, broadcasts and gathers of distributed data return on every process the value a serial evaluation over all devices and processes gives (weighted where weights are given), for any shape, real or complex type and any, even per-process different, batch size. "
     "Distributing N work items hands out every item exactly once in order, with process shares that differ by at most one; requested sample numbers are rounded up so that each device of each process gets the same number, and selecting the devices to use takes effect for all of these.",
     ["inputs", "configurations"],
     "for every data shape and type, batch size per process, number of devices and processes, and choice of devices",
     "The test-suite runs on one process with one device, where every reduction is the identity.",
     ["jVMC/mpi_wrapper.py", "jVMC/global_defs.py"],
     [("reductions", "jVMC/mpi_wrapper.py global_sum, global_mean, global_variance, global_covariance"), ("work split", "distribute_sampling, first_sample_id"), ("device selection", "jVMC/global_defs.py set_pmap_devices")],
     ["return values on every rank"],
     "runtime differential monitor against a serial NumPy reference on device x MPI layouts",
     "Layouts up to 4 devices x 4 processes with uneven batches.")

prop("C07", "Sample statistics equal their weighted definitions",
     "Means, variances, covariances, covariance matrices, covariance-variances, element-wise transforms, subsets and raw observations of a weighted sample equal their definitions evaluated over all samples of all devices and processes, with weights normalised over the (sub)set that is used. "
     "This is so for scalars and vectors, real and complex data, arbitrary weights including exact zeros, constant or strongly offset data and uneven batches; the mean of an estimator and its gradient with respect to the parameters agree with the value and derivative of the sampled expectation value.",
     ["inputs", "configurations"],
     "for every data set, weight distribution, pair of data sets and layout",
     "Tests use a handful of uniform-weight arrays on one device; transposition, conjugation, weight and subset errors cancel there.",
     ["jVMC/stats.py"],
     [("centred observations and moments", "jVMC/stats.py SampledObs"), ("estimator gradient", "SampledObs.mean_and_grad")],
     ["return values of SampledObs methods"],
     "runtime differential monitor against a serial NumPy evaluation of the definitions on device x MPI layouts",
     "Orientation convention of off-diagonal covariance taken from the current API (real part and |.| also judged).")

prop("C08", "Amplitudes and gradients are batch/device independent and true derivatives",
     "The log-amplitude a state returns for a configuration is the value of its network at the current parameters, no matter how many configurations are evaluated together, which batch size is configured, where in the batch it stands or over how many devices the batch is spread. "
     "Gradients are the derivatives of the log-amplitude with respect to the flat parameter vector in its documented order (for complex parameters the real and imaginary parts separately unless the ansatz is holomorphic), equally independent of batching, also in dictionary form; an ansatz with real parameters is never treated as holomorphic.",
     ["inputs", "configurations"],
     "for every ansatz, parameter vector, number of configurations, batch size and number of devices",
     "Tests evaluate a few networks with one batch size that divides the sample number and check the gradient along single directions.",
     ["jVMC/vqs.py"],
     [("batched evaluation", "jVMC/vqs.py NQS.__call__, create_batches, eval_batched"), ("gradient flattening", "flat_gradient*, NQS.gradients, gradients_dict"), ("holomorphy test", "NQS._check_holomorphic")],
     ["return values of NQS.__call__, gradients, gradients_dict"],
     "runtime differential monitor: bare-network evaluation and finite differences along the flat coordinates",
     "Finite differences decide derivatives to 2e-6 relative.")

prop("C09", "The flat parameter vector is a faithful coordinate system of the state",
     "Writing a flat parameter vector and reading it back returns it unchanged, updating by a vector adds exactly it, and all amplitudes and samples depend on the state only through this vector, so two instances with equal vectors agree and each coordinate corresponds to the same coordinate of the gradient. "
     "No evaluation, gradient, sampling or estimator call changes it, and a state whose parameters were set before its first evaluation behaves like one set after.",
     ["inputs", "histories"],
     "for every ansatz (real, complex, mixed, two-network), vector and history of set/get/update/evaluate calls",
     "Tests do one set/get round trip for two networks.",
     ["jVMC/vqs.py"],
     [("parameter (un)flattening", "jVMC/vqs.py NQS._param_unflatten*, get_parameters, set_parameters, update_parameters")],
     ["NQS.get_parameters, NQS.parameters, amplitudes"],
     "runtime monitor: shadow vector and twin instance followed through random histories",
     "Histories of a few dozen operations per ansatz.")

prop("C10", "Operator matrix elements equal the composition of the declared local maps",
     "For every operator built from weighted strings of local operators, the returned configurations and matrix elements of a configuration, summed per configuration, equal those obtained by applying each string factor by factor from the right (each factor maps the local value s to its map[s] with its amplitude for s, fermionic factors with a sign -1 for each occupied site of higher index), multiplied by the prefactor at the given arguments and summed over strings. "
     "Elements of magnitude below 1e-6 may be dropped; the rule holds for scalar (Python or NumPy) and callable prefactors in any mixture and number, any local dimension, one- and two-dimensional lattices, repeated and identity factors, scalar multiples and sums of strings, terms added after first use, and every device/process layout.",
     ["inputs", "programs", "histories", "configurations"],
     "for every operator expression, basis configuration, set of call arguments, history of term additions and layout",
     "Tests evaluate a handful of fixed Hamiltonians on given states; ordering, signs, mixed dimensions, prefactor distribution and recompilation are not reached.",
     ["jVMC/operator/branch_free.py", "jVMC/operator/base.py"],
     [("string compilation", "jVMC/operator/branch_free.py BranchFreeOperator.compile"), ("element generation", "jVMC/operator/base.py Operator.get_s_primes"), ("operator algebra", "scal_opstr, OpStr handling in branch_free.py")],
     ["Operator.get_s_primes"],
     "runtime differential monitor: dense factor-by-factor reference on all basis states of randomly generated operators",
     "Random operators on up to ~10^3 basis states.")

prop("C11", "Local estimators equal sum_s' O_ss' psi(s')/psi(s) however they are computed",
     "For every operator, ansatz and set of configurations, the local estimator returned equals the sum over the operator's matrix elements times the ratio of amplitudes at the current parameters, whether computed at once or in batches of any size (dividing the sample number or not), with given or omitted log-amplitudes, through the estimator-function interface, for logarithmic or plain-amplitude ansaetze, with call arguments, for POVM and user-defined operators, on any layout. "
     "The expectation value over an exact sample is therefore the quantum expectation value.",
     ["inputs", "histories", "configurations"],
     "for every operator, ansatz, configurations, batch size, call arguments, interleaving of calls and layout",
     "Tests use one batch size and a few operators and compare only the summed energy.",
     ["jVMC/operator/base.py", "jVMC/vqs.py"],
     [("batched estimator", "jVMC/operator/base.py Operator.get_O_loc, get_O_loc_batched, get_O_loc_unbatched"), ("estimator function", "Operator.get_estimator_function"), ("amplitude ratios", "_get_O_loc")],
     ["Operator.get_O_loc and get_estimator_function results"],
     "runtime differential monitor against dense matrix-vector products over batch/argument histories",
     "Dense reference on up to a few hundred basis states.")

prop("C12", "POVM operators generate exactly the declared master equation",
     "For every set of declared unitary, dissipative and imaginary-time terms, the POVM operator's matrix elements equal, entry by entry, the image of the corresponding generator (commutator, Lindblad dissipator, or normalised anticommutator part) under the chosen POVM frame, with term strengths, site order, built-in and user-defined terms, terms sharing or overlapping sites and later additions all accounted for; generators of unitary and dissipative dynamics preserve total probability. "
     "The dictionaries and operators a user hands in are not modified, and POVM frame matrices satisfy their defining relations.",
     ["inputs", "programs", "configurations"],
     "for every POVM frame, lattice, set of terms and order of declaration",
     "Tests evolve two fixed models and compare curves to 1e-2.",
     ["jVMC/operator/povm.py"],
     [("frame and superoperators", "jVMC/operator/povm.py POVM, matrix_to_povm, get_dissipators, get_unitaries"), ("term assembly", "POVMOperator.add, POVMOperator.compile")],
     ["POVMOperator.get_s_primes, POVM attributes"],
     "runtime differential monitor: element-by-element comparison with the dense Liouvillian in the POVM frame",
     "Up to 4 sites (256 outcomes) in full.")

prop("C13", "POVM measurements return the quantum expectation values of the state",
     "For a sample of POVM outcomes, every reported mean, connected correlator at each distance, variance and Monte-Carlo error equals its definition evaluated on the weighted sample (with exact sampling: the quantum expectation values of the represented density matrix, the errors being zero), for built-in and user-added observables, all correlator distances up to the system size, one- and two-dimensional lattices and every device layout. "
     "Given samples are used as given; product-state distributions built by the helper represent the requested product state.",
     ["inputs", "configurations"],
     "for every state, observable set, sample, lattice and layout",
     "Tests measure one product state on one device.",
     ["jVMC/operator/povm.py"],
     [("measurement", "jVMC/operator/povm.py measure_povm"), ("observables", "POVM.add_observables / evaluate_observable"), ("product distribution", "get_1_particle_distributions")],
     ["measure_povm result"],
     "runtime differential monitor against density-matrix expectation values",
     "Random density matrices on up to 6 sites.")

prop("C14", "Symmetry orbits are groups and symmetrised states transform by their character",
     "The orbit built for a lattice and a set of symmetries contains each element of the group generated by the requested operations (translations, rotations, reflections, spin flip) exactly once, with factors that multiply as the requested character (a translation factor refers to the shift towards higher site index). "
     "If the factors form a character, a symmetrised ansatz is, up to a global constant, the factor-weighted sum of the bare amplitudes over the orbit (or the requested averaging of it), stays finite for large amplitudes, and so changes under any symmetry operation only by its factor; periodic convolutional networks are invariant under translations, and building a network from a description applies the described symmetries and leaves the description unmodified.",
     ["inputs", "configurations"],
     "for every lattice size, symmetry set, character, ansatz, parameter vector and configuration",
     "Tests compare orbits with a few hand-written ones and invariances on a few configurations.",
     ["jVMC/util/symmetries.py", "jVMC/nets/sym_wrapper.py", "jVMC/nets/cnn.py", "jVMC/util/util.py"],
     [("orbit construction", "jVMC/util/symmetries.py get_orbit_1D, get_orbit_2D_square, get_translation_orbit_*"), ("averaging", "jVMC/nets/sym_wrapper.py avgFun_*"), ("network construction", "jVMC/util/util.py init_net, get_net")],
     ["LatticeSymmetry.orbit/factor, amplitudes over orbits"],
     "runtime monitor: group axioms on every orbit, covariance of every amplitude along the orbit",
     "Lattices up to ~16 sites; all group products checked.")

prop("C15", "The TDVP update solves the regularised variational equation of its sample",
     "The update the time-dependent variational principle returns for a state, Hamiltonian, time and sampler solves the equation S x = rhs of exactly the sample it used: covariance matrix and force of that sample, the configured prefactor, real or imaginary part, diagonal shift, pseudo-inverse tolerances and signal-to-noise filter, which do what their documentation says; reported energy, its variance, residual, quantum-geometry error (for prefactors of modulus one), spectrum and SNR are those of this sample. "
     "The state's parameters are left unchanged by the computation, explicitly given parameters are honoured, and for a complete ansatz the exact evolution is reproduced.",
     ["inputs", "histories", "configurations"],
     "for every ansatz, Hamiltonian, sampler, option set, history of calls and layout (degenerate spectra excluded for the SNR)",
     "Tests compare a short evolution of one RBM with exact dynamics to 1e-2 and check one option set.",
     ["jVMC/util/tdvp.py"],
     [("equation", "jVMC/util/tdvp.py TDVP.get_sr_equation, get_tdvp_equation"), ("regularised solve", "TDVP.solve, _transform_to_eigenbasis"), ("diagnostics", "TDVP.get_residuals, get_snr, get_energy_*")],
     ["return value of TDVP.__call__, meta data, recorded sampler output"],
     "runtime monitor: sampler output recorded during the call, equation rebuilt and solved densely (NumPy) from it",
     "Tolerance-level comparison; parameters up to ~60.")

prop("C16", "The MinSR update is the minimum-norm least-squares solution of its sample",
     "The MinSR update is minus the minimum-norm least-squares solution of the centred, weighted equation O x = E of exactly the sample that was used (for real parameters the real one, of real and imaginary parts together), directions below the configured tolerance being left out, whichever of the dimensions is larger and for every ansatz, sampler, weight distribution and layout, so a small step lowers the sampled energy. "
     "Reported energy and variance are those of the sample; the parameters of the state are left unchanged and explicitly given ones are honoured.",
     ["inputs", "histories", "configurations"],
     "for every ansatz, Hamiltonian, sampler, tolerance and layout",
     "Tests run one ground-state search on one device with uniform weights.",
     ["jVMC/util/minsr.py", "jVMC/stats.py"],
     [("tangent kernel and solve", "jVMC/util/minsr.py MinSR.solve, tangent_kernel use")],
     ["return value of MinSR.__call__, recorded sampler output"],
     "runtime monitor: sampler output recorded during the call, least-squares problem rebuilt and solved densely from it",
     "Up to a few hundred samples/parameters.")

prop("C17", "Time steppers integrate y' = f(y,t) with their formula, order and error control",
     "Each stepper advances y by its documented formula (Euler: first order; Heun: second order; adaptive Heun: two half steps versus one full step with error control), evaluating the right-hand side at the correct times and intermediate states, without modifying the caller's vector, for NumPy and JAX vectors, real and complex, and for right-hand sides that return the vector they were given or keep one they returned. "
     "The adaptive stepper accepts only steps whose error in the chosen norm is within tolerance, returns the step it really took and a next step proposed by its rule within the growth/shrink limits, never exceeds the maximal step, and passes additional arguments through unchanged.",
     ["inputs", "histories"],
     "for every right-hand side, initial vector, step size, tolerance, norm and sequence of steps",
     "Tests integrate one linear equation and compare to 1e-2.",
     ["jVMC/util/stepper.py"],
     [("formulae", "jVMC/util/stepper.py Euler.step, Heun.step, AdaptiveHeun.step")],
     ["every call of the right-hand side", "returned vector and step"],
     "runtime trace monitor: every right-hand-side call recorded and the step replayed against the specification",
     "Trace specification replayed exactly on each step.")

prop("C18", "The output file is the faithful log of everything written",
     "After any history of writes, group changes, re-openings (append or truncate), manager instances on different files and restarts, the file contains exactly the records written, in order and unmodified, in the group that was active, with the data of other groups untouched. "
     "Stored network checkpoints are returned for the requested (or by default the last) time with exactly the stored parameters, the timings printed are the sums of the intervals measured since the last print, a record that does not fit the shape of those already stored is refused without damaging them, and only one process writes.",
     ["histories", "configurations"],
     "for every history of writes, groups, re-openings, restarts and checkpoint queries on any number of processes",
     "The test-suite writes no output file.",
     ["jVMC/util/output_manager.py"],
     [("append", "jVMC/util/output_manager.py OutputManager.write_dataset, write_observables, write_metadata"), ("groups", "set_group"), ("checkpoints", "write_network_checkpoint, get_network_checkpoint"), ("timings", "start_timing, stop_timing, add_timing")],
     ["the HDF5 file after every operation"],
     "runtime offline log checker: file read back after each operation and compared with a model log, incl. restarts",
     "Histories of up to a few dozen operations; not torn HDF5 writes inside the library.")

prop("C19", "Measured observables and ground-state searches report what was sampled",
     "Measuring a set of observables reports for each (in the given order, with its call arguments) the mean, variance and Monte-Carlo error of its local estimators on the sample drawn - zero error for exact sampling - leaving the state unchanged. "
     "A ground-state search with a variance tolerance below one performs the requested number of updates unless the energy variance falls to or below the tolerance, changes the parameters by exactly the step size times the update direction at each step, thereby descends to the ground state where the ansatz can represent it, and logs the requested observables before the first and after every step.",
     ["inputs", "histories", "configurations"],
     "for every observable set, sampler, ansatz, Hamiltonian, number of steps and layout",
     "Tests only check the final energy of one search.",
     ["jVMC/util/util.py"],
     [("measurement", "jVMC/util/util.py measure"), ("search loop", "jVMC/util/util.py ground_state_search")],
     ["measure result, parameters after each step, output file"],
     "runtime monitor: recorded samples and updates, results recomputed densely",
     "Systems of up to 6-8 sites.")

prop("C20", "Library networks compute their documented functions in double precision",
     "Restricted Boltzmann machines (real on one-dimensional configurations, complex), feed-forward networks, convolutional networks (periodic or open boundaries, any stride, filter size, channel numbers, one or two dimensions, real and complex) and two-network ansaetze return for every configuration the value of their defining formula at their parameters, to double precision and finite wherever the formula's value is representable for moderate arguments. "
     "Built-in activation functions equal their mathematical definitions (or documented polynomial approximations) for real and complex arguments, and gradients are consistent with the formula.",
     ["inputs", "configurations"],
     "for every architecture, parameter vector and configuration",
     "Tests evaluate a few networks and compare only among code paths, or with a few stored numbers.",
     ["jVMC/nets/rbm.py", "jVMC/nets/ffn.py", "jVMC/nets/cnn.py", "jVMC/nets/activation_functions.py", "jVMC/nets/two_nets_wrapper.py"],
     [("network formulae", "jVMC/nets/*.py __call__"), ("activation functions", "jVMC/nets/activation_functions.py")],
     ["amplitudes"],
     "runtime differential monitor against closed-form NumPy evaluations from the parameter tree",
     "Closed-form references derived from the documented formulae.")

prop("C21", "Results never depend on what was computed before",
     "Evaluations, gradients, local estimators, samples' coefficients and updates depend only on the current parameters, operator terms, call arguments and chosen devices: after any history of parameter changes, calls with other arguments, sample numbers, batch sizes or parameters, additions of operator terms and device switches, each result equals that of fresh objects. "
     "Objects that share a network or operator terms do not influence each other.",
     ["histories", "configurations"],
     "for every history of calls on shared ansaetze, operators, samplers and solvers, including device switches",
     "Tests build fresh objects and make one call each; stale caches and compiled functions never show.",
     ["jVMC/vqs.py", "jVMC/sampler.py", "jVMC/operator/base.py", "jVMC/global_defs.py", "jVMC/stats.py"],
     [("compiled-function caches", "jVMC/global_defs.py pmap_for_my_devices, device_list checks in vqs.py/sampler.py/operator/base.py"), ("operator recompilation flag", "jVMC/operator/base.py")],
     ["results of all public calls in a history"],
     "runtime history monitor: random mixed histories, every result recomputed statelessly",
     "Histories of 20+ steps on up to 4 devices.")


with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
cmd = "/opt/venv/bin/python /verif/run_check.py %s"
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -m py_compile run_check.py lib/vf.py lib/worker.py lib/zoo.py lib/tv.py && /opt/venv/bin/python -c 'import jax, flax, h5py, mpi4py, numpy, scipy'",
           "checks": [{"property": p["id"], "quick_cmd": cmd % p["id"], "thorough_cmd": "VERIF_TIER=thorough " + cmd % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
           "not_applicable": [], "notes": "No hooks in /repo: all monitors observe the public interface from outside (DESIGN.md)."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
