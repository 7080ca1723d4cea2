"""The properties, in one place: `python3 tools/gen.py` writes properties.jsonl and MANIFEST.json from this list."""


def P(id, title, statement, over, text, tests, files, mech, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                observe=observe, technique=technique, note=note)


PROPS = [
    P("C01", "Fermionic Hamiltonians have exactly their second-quantised matrix elements",
      "For every electron configuration, the Fermi-Hubbard and ab initio Hamiltonians deliver exactly the non-vanishing matrix "
      "elements of the second-quantised operator (hopping with its fermionic sign, on-site interaction, one- and two-electron "
      "integrals), each connected configuration lies in the same electron-number sector, and the operator is Hermitian. This "
      "holds for every graph (including no edges, repeated and reversed edges), every per-edge hopping, every set of "
      "integrals with the symmetry of real orbitals, every electron number, and through every query interface (single, batched, "
      "padded, dense, sparse).",
      ["inputs", "configurations"],
      "every configuration of every sector, every edge list and every unit integral over up to 3 (thorough: 4) orbitals, "
      "generic integrals over larger ones",
      "No test builds a fermionic Hamiltonian matrix; the sign of a hop depends on every electron in between.",
      ["GPSKet/operator/hamiltonian/hubbard.py", "GPSKet/operator/hamiltonian/ab_initio.py", "GPSKet/operator/fermion.py"],
      [("hopping parity", "GPSKet/operator/fermion.py: apply_hopping"),
       ("Hubbard connected elements", "GPSKet/operator/hamiltonian/hubbard.py: get_conn_flattened"),
       ("ab initio connected elements", "GPSKet/operator/hamiltonian/ab_initio.py: get_conn_flattened")],
      ["connected configurations and matrix elements of the operators", "dense/sparse matrices"],
      "explicit-state exploration of the real operators: the whole configuration graph (states = configurations, transitions = "
      "delivered matrix elements) is enumerated per sector and compared edge by edge with an explicit Fock-space model",
      "exhaustive within the stated sizes; linearity in the integrals extends the unit-integral basis to all integrals"),
    P("C02", "On-the-fly local energies are the exact local energies",
      "For every wavefunction and every sampled configuration of non-zero amplitude, the local energy the on-the-fly "
      "Hamiltonians (Hubbard, dense and sparse ab initio, J1-J2 Heisenberg) report equals the sum over connected configurations "
      "of matrix element times amplitude ratio. The value does not depend on whether the model uses cached fast updates, "
      "on the chunk size, nor on how the samples are laid out in chains; the energy, its variance and its gradient which a variational state reports are the averages of these local energies.",
      ["inputs", "configurations"],
      "every configuration of the enumerated sectors, wavefunctions given by tables of independent amplitudes, all update paths "
      "and chunkings",
      "The tests evaluate no local energy of these operators against a matrix; chunk padding and cached updates depend on batch sizes.",
      ["GPSKet/operator/hamiltonian/ab_initio.py", "GPSKet/operator/hamiltonian/ab_initio_sparse.py",
       "GPSKet/operator/hamiltonian/hubbard.py", "GPSKet/operator/hamiltonian/J1J2.py", "GPSKet/vqs/mc/mc_state/expect.py"],
      [("ab initio kernel", "GPSKet/operator/hamiltonian/ab_initio.py: local_en_on_the_fly"),
       ("sparse kernel", "GPSKet/operator/hamiltonian/ab_initio_sparse.py"),
       ("Hubbard kernel", "GPSKet/operator/hamiltonian/hubbard.py: local_en_on_the_fly"),
       ("Heisenberg kernel", "GPSKet/operator/hamiltonian/J1J2.py")],
      ["local energies and expectation values of the variational state"],
      "exhaustive exploration of configuration x update path x chunking x chain layout on the real kernels, every local energy "
      "compared with the explicit matrix model",
      "exhaustive within the stated sizes; amplitude tables are the most general wavefunction"),
    P("C08", "Determinant, Pfaffian, Jastrow and backflow amplitudes equal their definition",
      "For every electron configuration, the amplitude of each Slater, Slater-GPS, Slater-Jastrow, Jastrow, antisymmetrised GPS, "
      "Pfaffian, CPD-backflow, backflow and backflow-Jastrow model equals its defining antisymmetric expression in the parameters, including "
      "multiple determinants, symmetric copies and spin projection, whatever batch the configuration is evaluated in. "
      "Logarithms of Pfaffians are exact for every skew-symmetric matrix, singular and zero-pivot ones included, and so are their derivatives; "
      "spin projection with a sufficient quadrature yields a singlet.",
      ["inputs", "configurations"],
      "every configuration of representative sectors per model and option; every small skew-symmetric matrix over {-1,0,1} and "
      "every 6x6 pairing pattern",
      "Tests check antisymmetry of two models for a few random inputs; signs, pivoting and vanishing minors depend on the configuration.",
      ["GPSKet/models/slater.py", "GPSKet/models/pfaffian.py", "GPSKet/models/asymm_qGPS.py", "GPSKet/models/backflow.py",
       "GPSKet/models/backflow_jastrow.py", "GPSKet/models/cpd_backflow.py", "GPSKet/models/jastrow.py",
       "GPSKet/models/slater_jastrow.py", "GPSKet/models/slater_qGPS.py"],
      [("determinants", "GPSKet/models/slater.py: Slater"), ("Pfaffian", "GPSKet/models/pfaffian.py: log_pfaffian"),
       ("antisymmetrised GPS", "GPSKet/models/asymm_qGPS.py"), ("backflow", "GPSKet/models/cpd_backflow.py, backflow.py")],
      ["log amplitudes"],
      "exhaustive enumeration of all configurations (and of all small skew matrices) through the real models, compared with "
      "permutation-expansion reference models",
      "exhaustive over configurations within the stated sizes, at generic parameter points (amplitudes are polynomials in the parameters)"),
    P("C09", "GPS amplitudes follow their product formula and their symmetries",
      "For every configuration, a Gaussian process state (plain, plaquette, segmented; spins or electrons; kernel or projective "
      "symmetrisation) returns the logarithm of its defining sum of site products, summed over the symmetric copies it was "
      "given. Symmetrised states are invariant under the lattice automorphisms and under global spin flip.",
      ["inputs", "configurations"],
      "every configuration of lattices of up to 6 sites, every option",
      "Tests only cover the autoregressive variants; the amplitude depends on every site's occupancy and on every symmetry copy.",
      ["GPSKet/models/qGPS.py", "GPSKet/models/plaquetteqGPS.py", "GPSKet/models/segmented_qGPS.py"],
      [("qGPS", "GPSKet/models/qGPS.py: qGPS"), ("spin symmetries", "GPSKet/models/qGPS.py: get_sym_transformation_spin"),
       ("plaquettes", "GPSKet/models/plaquetteqGPS.py"), ("segments", "GPSKet/models/segmented_qGPS.py")],
      ["log amplitudes"],
      "exhaustive enumeration of all configurations through the real models, compared with brute-force product formulas and "
      "invariance under every group element",
      "exhaustive over configurations within the stated sizes, at generic parameter points"),
    P("C10", "The ASEP operator is the tilted Markov generator of the open exclusion process",
      "For every configuration of the chain, the operator's matrix elements are the (current-tilted) jump rates of the open "
      "asymmetric exclusion process and its diagonal is minus the total escape rate, so that untilted rows sum to zero. It "
      "reports itself Hermitian only if its matrix is, and all query interfaces (single, batched, padded, dense) agree.",
      ["inputs", "configurations"],
      "every configuration of chains up to 5 (thorough: 8) sites, every single rate and all two-value combinations",
      "There is no test of this operator; boundary and bulk rates only show in particular configurations.",
      ["GPSKet/operator/asep.py", "GPSKet/operator/hamiltonian/asep.py"],
      [("jump rates", "GPSKet/operator/hamiltonian/asep.py")],
      ["connected configurations and matrix elements", "dense matrix", "hermiticity flag"],
      "explicit-state exploration of the complete Markov chain: every configuration and every jump delivered by the real operator "
      "compared with an explicit process model",
      "exhaustive within the stated sizes; the operator is linear in the rates"),
    P("C11", "The J1-J2 builder yields the Heisenberg model on the requested lattice",
      "For every supported lattice (chains and grids, open, periodic or mixed), pair of couplings, magnetisation sector and sign rule, "
      "the built Hamiltonian equals the sum of nearest- and next-nearest-neighbour spin exchange terms, with the off-diagonal "
      "nearest-neighbour elements negated under the sign rule. The on-the-fly variant is the same operator.",
      ["inputs", "configurations"],
      "every configuration of chains up to 8 and grids up to 3x3/2x4 (thorough: 10, 3x4), all option combinations",
      "There is no test of the builder; wrong bonds or signs only show in individual matrix elements.",
      ["GPSKet/operator/hamiltonian/J1J2.py"],
      [("lattice and couplings", "GPSKet/operator/hamiltonian/J1J2.py: get_J1_J2_Hamiltonian")],
      ["dense/sparse matrices", "Hilbert space of the operator"],
      "explicit-state exploration: every configuration of each lattice and every matrix element of the real operator compared "
      "with an explicit bond-sum model",
      "exhaustive over the stated lattices and options"),
    P("C03", "Cached fast updates give the amplitude of a full evaluation",
      "Whenever a model offers fast updates, evaluating it for a list of changed sites on top of cached intermediates returns the same amplitude as "
      "evaluating the new configuration from scratch, for every configuration, every update of up to four sites, whatever the order of the sites, "
      "with unchanged sites or later repetitions of a site (carrying its old occupancy) in the list, per batch row; the cache it leaves behind is "
      "that of the new configuration, so this remains true along any history of updates.",
      ["configurations", "histories"],
      "every pair of configurations differing in up to four sites and every short history of updates, for each model with fast updates",
      "Tests never use fast updates; wrong caches only show for particular moves, repeated sites or after several moves.",
      ["GPSKet/models/qGPS.py", "GPSKet/models/plaquetteqGPS.py", "GPSKet/models/slater.py", "GPSKet/models/slater_qGPS.py", "GPSKet/models/asymm_qGPS.py",
       "GPSKet/models/cpd_backflow.py", "GPSKet/models/backflow.py", "GPSKet/models/autoreg_qGPS_full.py"],
      [("GPS updates", "GPSKet/models/qGPS.py, plaquetteqGPS.py"), ("determinant updates", "GPSKet/models/slater.py"),
       ("autoregressive updates", "GPSKet/models/autoreg_qGPS_full.py"), ("backflow updates", "GPSKet/models/cpd_backflow.py, backflow.py")],
      ["log amplitudes of cached and of direct evaluations"],
      "explicit-state exploration of the update graph of the real models: states are configurations with their cache, transitions all updates; "
      "all histories up to depth three, each compared with the cache-free model of the same configuration",
      "exhaustive within the stated sizes, at generic parameter points"),
    P("C04", "Autoregressive states are normalised, causal products of conditionals",
      "For every configuration, an autoregressive GPS (plain, fully variational, plaquette, modulus-phase; any per-site bond dimension; "
      "unconstrained, zero magnetisation, or fixed electron numbers through user-supplied counters) returns the amplitude defined by its conditionals: "
      "the conditionals at a site depend only on earlier sites, sum to one and vanish exactly for local states the sector forbids, the "
      "probabilities of all configurations of the sector sum to one, symmetrised states are the averages over the symmetric copies, and derivatives with respect to the "
      "parameters are finite and correct.",
      ["inputs", "configurations"],
      "every configuration and every prefix of up to 4 spins (6 with zero magnetisation) and 3 orbitals, each model class and option",
      "Tests check the total norm for one random model of one size; single conditionals, sectors and options are not covered.",
      ["GPSKet/models/autoreg_qGPS.py", "GPSKet/models/autoreg_qGPS_full.py", "GPSKet/models/autoreg_plaquetteqGPS.py"],
      [("masked products", "GPSKet/models/autoreg_qGPS.py"), ("full variant", "GPSKet/models/autoreg_qGPS_full.py"),
       ("plaquettes", "GPSKet/models/autoreg_plaquetteqGPS.py")],
      ["log amplitudes", "conditionals"],
      "explicit-state exploration of the prefix tree of every model: every prefix and continuation of the real conditionals and amplitudes compared "
      "with a brute-force model",
      "exhaustive over configurations within the stated sizes, at generic parameter points"),
    P("C05", "Direct sampling draws independent configurations from the exact distribution",
      "The direct sampler of autoregressive states returns every configuration of the space with exactly the probability |psi|^p of the (symmetrised, "
      "constrained) model, never a configuration outside of the space, and the configurations of one call and of successive calls are independent.",
      ["schedules", "configurations"],
      "every path of random decisions of the sampler for each autoregressive model class and option; all joint paths of two and four samples",
      "Tests compare a finite random sample statistically for one model; small biases and correlations stay below the noise.",
      ["GPSKet/sampler/autoreg.py"],
      [("sequential sampling", "GPSKet/sampler/autoreg.py: ARDirectSampler"), ("inverse transform", "GPSKet/sampler/autoreg.py: batch_choice")],
      ["samples"],
      "stateless exploration of the real sampler under a controlled random number generator: every draw is a choice point, all decision paths are "
      "executed and their exact probabilities summed per outcome",
      "exhaustive over decision paths; uniform numbers are partitioned at bisected breakpoints"),
    P("C06", "Metropolis moves obey detailed balance and reach the whole sector",
      "For every configuration, the hopping and exchange rules propose moves that stay in the space, with the documented (symmetric) probabilities, "
      "reporting every changed site; one sweep of the fast and of the plain sampler is exactly the Metropolis kernel for |psi|^p and reports the number of accepted moves, chains do not share "
      "randomness, and pure hopping connects the whole electron sector.",
      ["schedules", "configurations"],
      "every path of random decisions from every configuration of 2-4 orbitals or spins; complete sweeps of one to three steps",
      "Tests do not cover these samplers; a wrong proposal probability biases every expectation value without an error.",
      ["GPSKet/sampler/metropolis_fast.py", "GPSKet/sampler/fermionic_hopping.py", "GPSKet/sampler/rules/fermionic_hopping.py",
       "GPSKet/sampler/rules/exchange_with_update.py"],
      [("hopping rule", "GPSKet/sampler/rules/fermionic_hopping.py"), ("exchange rule", "GPSKet/sampler/rules/exchange_with_update.py"),
       ("sweep", "GPSKet/sampler/metropolis_fast.py: _sample_next")],
      ["proposed configurations", "chains after a sweep"],
      "stateless exploration of the real rules and samplers under a controlled random number generator: all decision paths from every "
      "configuration, exact transition matrix compared with the Metropolis model",
      "exhaustive over decision paths and configurations within the stated sizes"),
    P("C07", "The fermionic configuration space is indexed bijectively and sampled uniformly",
      "For every number of orbitals and electrons, the fermionic Hilbert space enumerates exactly the configurations of the sector, once each; state and "
      "number conversions invert each other; membership, equality, powers and local indices are consistent; random states lie in the sector and are uniformly distributed.",
      ["schedules", "configurations"],
      "every sector of up to 4 (thorough: 5) orbitals, every configuration, every path of random decisions of a random state",
      "No test covers the space; a missing or doubly counted configuration only shows in some sectors.",
      ["GPSKet/hilbert/discrete_fermion.py", "GPSKet/hilbert/random/discrete_fermion.py"],
      [("enumeration", "GPSKet/hilbert/discrete_fermion.py"), ("random states", "GPSKet/hilbert/random/discrete_fermion.py")],
      ["states, numbers, membership", "random states"],
      "exhaustive enumeration of all configurations through the real space, and stateless exploration of every decision path of its random states "
      "under a controlled random number generator",
      "exhaustive within the stated sizes"),
    P("C12", "Unique and stratified sampling states weigh every configuration correctly",
      "For every sequence of configurations the sampler delivers, the unique-samples state keeps exactly the first requested number of distinct "
      "configurations with their relative frequencies among the draws (stopping when they are complete or at the step limit), and the stratified state "
      "combines the deterministic set, with its probabilities under the chosen normalisation, with samples of the complement only; weights sum to one and "
      "expectation values, variances, gradients and local estimators of both kinds of operators are the weighted averages over that set.",
      ["histories", "schedules"],
      "every sequence of up to 6 drawn configurations for every batch size, chain count, requested number and step limit up to 4; every proposal and random "
      "draw of stratified states with every deterministic set of two spins",
      "No test covers these states; a wrong weight needs a particular order of repeated draws within and across batches.",
      ["GPSKet/vqs/mc/mc_state/state_unique_samples.py", "GPSKet/vqs/mc/mc_state/state_stratified_sampling.py"],
      [("unique samples", "GPSKet/vqs/mc/mc_state/state_unique_samples.py: MCStateUniqueSamples"),
       ("stratified samples", "GPSKet/vqs/mc/mc_state/state_stratified_sampling.py: MCStateStratifiedSampling")],
      ["samples with their weights", "expectation values, gradients"],
      "explicit enumeration of all draw histories: the sampler is replaced by a scripted environment which delivers every possible sequence of "
      "configurations to the real variational states",
      "exhaustive over draw sequences within the stated depth"),
    P("C13", "SR with RMSProp regularisation follows its update recursion",
      "Through every history of sample sets, each step of the VMC_SRRMSProp driver changes the parameters by the solution of (S + shift (sqrt(v) + eps)) d = g, "
      "where S is the centred covariance of the log-derivatives, g the energy gradient and v the bias-corrected moving average of the squared gradient "
      "(up to a common rescaling with the number of samples); constant and scheduled shifts, real and complex parameters, the real and complex Jacobian "
      "modes, chunks and several chains give the same rule, and the reported energy is the sample mean.",
      ["histories"],
      "every sequence of two sample sets of two spins and of three out of five sets, for every model kind and option set",
      "Tests never run the driver; errors in the moving average only show after several steps.",
      ["GPSKet/driver/VMC_SRRMSProp.py"],
      [("update", "GPSKet/driver/VMC_SRRMSProp.py: SRRMSProp"), ("driver", "GPSKet/driver/VMC_SRRMSProp.py: VMC_SRRMSProp")],
      ["parameters after each step", "energy"],
      "explicit enumeration of step histories: a scripted sampler delivers every sequence of sample sets to the real driver, every reached state is compared "
      "with a reference recursion",
      "exhaustive over sample histories within the stated depth"),
    P("C14", "minSR updates are minimum-norm stochastic reconfiguration steps",
      "For every set of samples that do not all coincide, on one or several chains and with the weights of unique-sample states, a step of minSRVMC applies the "
      "minimum-norm least-squares solution of the weighted, centred system O d = E_loc - E, for holomorphic, complex and real modes and independent of the chunk size, and "
      "reports the weighted mean and variance of the local energy.",
      ["histories", "inputs"],
      "every sequence of three and four samples of two spins on one and two chains, every weighted set of up to three configurations, every admissible chunk size, two successive steps",
      "Tests never run the driver; pairing samples with local energies matters only for several chains or chunks.",
      ["GPSKet/driver/minSR.py"],
      [("kernel matrix and update", "GPSKet/driver/minSR.py: minSRVMC._forward_and_backward"), ("statistics", "GPSKet/driver/minSR.py: _statistics")],
      ["parameters after each step", "energy and variance"],
      "explicit enumeration of sample sets: a scripted sampler delivers every sequence of samples to the real driver, the update is compared with a dense "
      "minimum-norm solution",
      "exhaustive over sample sets within the stated sizes"),
    P("C15", "State fitting draws batches from the target and descends the squared distance",
      "In every history of ARStateFitting steps, a mini-batch consists of distinct entries of the data set drawn with their probability |amplitude|^2 without replacement, "
      "independently in every step; the loss is the mean squared distance between the model and target amplitudes, the parameters follow its gradient through "
      "the optimiser, and after a reset the same seed repeats the same batches.",
      ["histories", "schedules"],
      "every sequence of two batches of one to three entries and of three batches of two, for each autoregressive model class",
      "Tests never run the driver; the distribution of batches cannot be seen in a few steps.",
      ["GPSKet/driver/autoreg_state_fitting.py", "GPSKet/driver/abstract_state_fitting.py"],
      [("batches and loss", "GPSKet/driver/autoreg_state_fitting.py: ARStateFitting._forward_and_backward"), ("data set and seed", "GPSKet/driver/abstract_state_fitting.py")],
      ["loss after each step", "parameters"],
      "stateless exploration of the real driver under a controlled random number generator: every sequence of batches is executed, losses, parameters and exact "
      "probabilities are compared with a reference recursion",
      "exhaustive over batch sequences within the stated depth"),
    P("C16", "Supervised fits recompute the exact Bayesian regression after any history",
      "After every history of fits (at any reference sites, data sets, weightings, priors), predictions, parameter assignments and in-place changes of the caller's "
      "arrays, the supervised GPS learners hold exactly the parameters of the Bayesian regression (Newton step for the generalised linear model) recomputed from scratch, and "
      "predict the amplitudes of those parameters. For the linear learners the log evidence and its derivatives with the precisions and the noise are those of "
      "the Gaussian model, maximising it never lowers it, every reference site keeps its own precisions, and each step of the growing relevance vector machine makes the best change of one precision.",
      ["histories", "inputs"],
      "every sequence of three operations for 60 learners and options; grids of hyperparameters; all single-feature changes in every growing step",
      "Tests fit a fixed data set once; stale cached site products or features need a certain sequence of operations to show.",
      ["GPSKet/supervised/supervised_qgps.py"],
      [("cached features", "GPSKet/supervised/supervised_qgps.py: set_kernel_mat, update_site_prod"), ("regression", "setup_fit, setup_fit_alpha_dep"), ("evidence", "log_marg_lik*"),
       ("growing", "compute_sparsity_quantities, update_precisions")],
      ["parameters, bias, predictions", "evidence and its derivatives"],
      "explicit enumeration of operation sequences on the real learner in lockstep with a reference that recomputes everything from the definition",
      "exhaustive over operation sequences within the stated depth"),
    P("C17", "PixelCNN states are normalised and causal for every kernel size",
      "For every kernel size, depth, exponent and parameter type, the conditional of a site of a PixelCNN state depends only on the preceding sites in row-major order, "
      "every conditional is normalised, the amplitude is their product and the state is normalised, also with a gauge constraint, which removes exactly the "
      "forbidden configurations. Vertical, horizontal and causal convolutions see exactly the pixels of their kernel window that come before.",
      ["inputs", "configurations"],
      "all configurations of 1x1 to 3x3 lattices for kernel sizes 1-5 and depths 0-3; every pair of pixels for the convolutions, dilations 1-2",
      "No test evaluates PixelCNN; a leak shows only in the sum over all configurations.",
      ["GPSKet/models/pixelcnn.py", "GPSKet/nn/causal_conv.py"],
      [("conditionals", "GPSKet/models/pixelcnn.py: conditionals_log_psi"), ("masks", "GPSKet/nn/causal_conv.py")],
      ["conditionals, amplitudes", "outputs of the convolutions"],
      "exhaustive enumeration of all configurations (all prefix classes) and of all pixel pairs through the real networks",
      "exhaustive over configurations and pixel pairs within the stated sizes"),
    P("C18", "The water data set survives crashes and concurrent generations",
      "For every basis and method get_H2O_dataset returns all configurations of the sector once with the amplitudes of the ground state in that orbital basis (the "
      "select_largest most probable ones if asked), whatever is in the data directory: after a kill at any file operation or with any torn write of earlier calls, after any "
      "history of calls for other bases and methods in the same directory, and while another process generates the same or another data set there.",
      ["crash points", "histories", "schedules"],
      "every kill point and torn write of a generation for each basis and method, every sequence of three calls, a second process at every file operation of the first",
      "No test generates the data set; a half-written cache needs a crash at a certain moment.",
      ["GPSKet/datasets/h2o.py"],
      [("cache", "GPSKet/datasets/h2o.py: _H2O_raw, _save"), ("selection", "GPSKet/datasets/h2o.py: get_H2O_dataset")],
      ["configurations and amplitudes returned after recovery"],
      "stateless exploration of the real code with fault injection: every crash state of the recorded file operations is materialised in a scratch directory and "
      "recovered from; preemption at every file operation",
      "exhaustive over file operations; torn writes at 16 lengths per file; the molecule in a minimal basis set"),
    P("C19", "Local density matrices are exact and give exact spin correlations",
      "For every wavefunction, sector and configuration, the local reduced density matrices returned by the on-the-fly ab initio local energy contract with any "
      "one- and two-electron integrals of eight-fold symmetry to the local energy of those integrals, the one-body matrix is exact element by element, neither depends on the integrals, "
      "cached updates or chunk size used in the evaluation; the matrices which python -m cpd_backflow.rdms writes are their averages over its samples for the best parameters of the experiment; and the spin correlations the cpd-backflow scripts derive from the averages are those of the state, for spin singlets, and their radial averages on the 6x6 sheet those of its central sites.",
      ["inputs", "configurations"],
      "all configurations of the sectors of 2-4 orbitals with tables of independent amplitudes, every class of integrals; all singlet eigenstates of generic Hamiltonians",
      "No test evaluates density matrices; a wrong sign of one string shows only for certain configurations and integrals.",
      ["GPSKet/operator/hamiltonian/ab_initio.py", "scripts/cpd-backflow/cpd_backflow/corrfunc.py", "scripts/cpd-backflow/cpd_backflow/rdms.py"],
      [("density matrices", "GPSKet/operator/hamiltonian/ab_initio.py: local_en_on_the_fly(return_local_RDMs=True)"), ("spin correlations", "scripts/cpd-backflow/cpd_backflow/corrfunc.py")],
      ["local density matrices", "spin correlations"],
      "exhaustive enumeration of configurations, update paths and integral classes through the real kernel, compared with explicit fermionic strings",
      "exhaustive over configurations and integral classes within the stated sizes"),
    P("C20", "Imaginary-time evolved states carry exactly the product of (1 - tau H)",
      "A state made by any sequence of imaginary-time steps with on-the-fly Hamiltonians, interleaved with changes of parameters, sampling and energy evaluations, has the amplitudes "
      "(1 - tau_k H_k)...(1 - tau_1 H_1) psi of the model with its present parameters, for every configuration, wavefunction, update path and chunk size; its local energies are "
      "those of the evolved state, its samples lie in the Hilbert space, and neither the original state nor its samples change.",
      ["histories", "inputs"],
      "every sequence of three operations (spin chain); histories of one and two steps for Hubbard and ab initio Hamiltonians",
      "No test evaluates an evolved state; nested steps with different times are where closures and stored times get mixed up.",
      ["GPSKet/supervised/imag_time_step.py"],
      [("evolved state", "GPSKet/supervised/imag_time_step.py: get_imag_time_step_vstate"), ("single step", "GPSKet/supervised/imag_time_step.py: ImagTimeStep")],
      ["amplitudes", "local energies", "parameters and samples of the original"],
      "explicit enumeration of operation sequences on the real states in lockstep with dense matrices",
      "exhaustive over operation sequences within the stated depth"),
    P("C21", "Geometric tensors weigh samples exactly and preconditioners follow their rule",
      "For every set of samples or weighted unique samples, the quantum geometric tensors of the library (unique samples; dense and on-the-fly with RMSProp diagonal) are the weighted centred covariance of "
      "the derivatives of log psi, mixed with the diagonal (1 - shift) S + shift (sqrt(ema) + eps), as a matrix, in products and in solutions, for complex and real "
      "parameters and any chunk size; SRDense returns the pseudo-inverse applied to the gradient, and in every history the SRRMSProp preconditioner's moving "
      "average decays, is bias-corrected and follows the schedule of the shift.",
      ["histories", "inputs"],
      "every sequence of three samples of two spins for each tensor and model, every sequence of two sample sets for the preconditioner",
      "Tests compare drivers with each other on one sample set; wrong weights show only for repeated samples.",
      ["GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py", "GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py", "GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py", "GPSKet/optimizer/sr_dense.py",
       "GPSKet/optimizer/sr_rmsprop.py"],
      [("tensors", "GPSKet/optimizer/qgt/"), ("preconditioners", "GPSKet/optimizer/sr_dense.py, sr_rmsprop.py, solvers.py")],
      ["dense tensors, products, solutions", "preconditioned gradients"],
      "explicit enumeration of sample sets delivered by a scripted sampler to the real state, compared with dense matrices; step histories in lockstep with a reference recursion",
      "exhaustive over sample sequences within the stated sizes"),
    P("C22", "Killed experiments resume and end as if they had never been interrupted",
      "For every point at which an ARGPS or CPD backflow optimisation (python -m argps.vmc, python -m cpd_backflow.vmc) is killed, and every torn write, the same command on the "
      "same working directory continues from the latest complete checkpoint and, given the same samples, ends with the parameters, optimiser and preconditioner state, number of "
      "steps, recorded metrics (header and every step), configuration, integrals, final evaluation and best parameters of an uninterrupted experiment.",
      ["crash points", "histories"],
      "a kill at and after every file operation, with empty, truncated and half-written files, of six small experiments",
      "The scripts have no tests; a checkpoint that lacks one moving average or repeats a step only shows after a kill between two particular writes.",
      ["scripts/ARGPS/argps/vmc.py", "scripts/ARGPS/argps/configs/common.py", "scripts/cpd-backflow/cpd_backflow/vmc.py", "scripts/cpd-backflow/cpd_backflow/systems.py",
       "scripts/cpd-backflow/cpd_backflow/configs/common.py"],
      [("ARGPS experiments", "scripts/ARGPS/argps/vmc.py"), ("CPD backflow experiments", "scripts/cpd-backflow/cpd_backflow/vmc.py")],
      ["files of the working directory"],
      "exhaustive crash-point exploration of the real scripts: kill at every file operation, rerun, compare the final directory with the uninterrupted run",
      "exhaustive over file operations of each experiment; torn writes at up to three lengths per file; one MPI rank; sampling replaced by the whole configuration space"),
    P("C23", "Experiment scripts build the systems, initial states and models they name",
      "For every configuration of the ARGPS and CPD backflow scripts within bounds: get_system returns the named Hamiltonian, element by element or up to a change of orthonormal orbitals or gauge "
      "(J1-J2 Heisenberg with its sign rule; Hubbard chains and grids with open, periodic and anti-periodic closure and the requested filling; molecules in the "
      "requested basis, with integrals below the pruning threshold removed, also when read back from the working directory); get_model of CPD backflow starts from the "
      "Hartree-Fock state, restricted, unrestricted or general, with environments of the orbitals most strongly coupled by exchange; get_model of ARGPS gives "
      "normalised autoregressive models, and models invariant under the requested symmetries.",
      ["inputs", "configurations"],
      "every lattice up to 6 sites (12 for single pairs), molecules of 2-4 orbitals, every basis, closure, model name, symmetry and dtype",
      "The scripts have no tests; a wrong sign on one bond or orbitals assigned to the wrong electrons only show for particular sizes, fillings and closures.",
      ["scripts/ARGPS/argps/systems.py", "scripts/ARGPS/argps/models.py", "scripts/cpd-backflow/cpd_backflow/systems.py", "scripts/cpd-backflow/cpd_backflow/models.py"],
      [("systems", "scripts/ARGPS/argps/systems.py, scripts/cpd-backflow/cpd_backflow/systems.py: get_system"), ("models", "scripts/ARGPS/argps/models.py, scripts/cpd-backflow/cpd_backflow/models.py: get_model")],
      ["dense Hamiltonians", "amplitudes on the whole sector", "environments"],
      "exhaustive enumeration of configurations of the scripts and of the resulting Hilbert spaces, compared with explicit constructions",
      "exhaustive over configurations within the stated sizes; localised orbitals are compared up to an orthogonal transformation"),
    P("C24", "Initialisers give their documented parameters for every type and shape",
      "For every key, shape, width and type of the parameters, however that type is spelled (Python, NumPy or JAX type, dtype object or name; given to the initialiser or to the call), "
      "the normal initialiser returns exp(i sigma z) for complex and 1 + sigma z for real parameters with one independent standard normal number z per parameter, the orthogonal "
      "initialiser returns independent matrices with orthonormal columns (rows, if they are wide) times the scale, and the models start from the same parameters and finite "
      "amplitudes for every spelling of their type.",
      ["inputs", "random draws"],
      "every table of three values per draw for up to four parameters, twelve spellings of five types, stacks of matrices up to 5x5",
      "The tests use one spelling of one type and never look at the initial parameters.",
      ["GPSKet/nn/initializers.py", "GPSKet/models/qGPS.py", "GPSKet/models/slater.py"],
      [("normal initialiser", "GPSKet/nn/initializers.py: normal"), ("orthogonal initialiser", "GPSKet/nn/initializers.py: orthogonal")],
      ["initial parameters", "initial amplitudes"],
      "explicit enumeration of all outcomes of the normal draws of the real initialisers (controlled random numbers), compared with the documented form",
      "exhaustive over tables of draws, types and shapes within bounds; keys 0-7 (0-63) for orthogonal matrices"),
]
