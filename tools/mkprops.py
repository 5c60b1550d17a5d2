#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Simulation runs redo exactly the requested stages and reuse the rest",
  "A simulation run recomputes the load profiles, the power-flow results and the noisy filtered measurements only for the stages requested by its flags (all three when none is given) and takes every other stage unchanged from what was last saved for that network, so each recomputed stage and the final data derive from the latest saved data of the stages before; a run that cannot complete keeps what it had completed and changes nothing else. "
  "The same configuration and the same upstream data always give the same stage result, whatever was run before, and a recomputed stage depends on nothing but its upstream data, the command line and the configuration. "
  "A run on one network, and the configuration itself, are never affected by runs on other networks.",
  ["histories", "configurations"],
  "every sequence of simulation commands over several networks, every subset of the stage flags, with configuration changes (seed, noise levels) in between",
  "The tests call single functions once with one configuration; none runs the command twice, with partial flags, after a configuration change or for a second network.",
  ["simulate_network.py", "src/simulation/run.py", "src/simulation/run3ph.py"],
  [("flag to stage decision", "simulate_network.py simulate: redo_loads/redo_netsim/redo_noise"),
   ("load/save of each stage", "src/simulation/run.py, run3ph.py generate_loads/simulate_net/add_noise_and_filter")],
  [("saved loads / power-flow / filtered / final archives", "per-network artifacts of each stage", "data/simulations_output/*.npz")],
  ["npz archives written for each stage"])

p("C02", "Identification runs redo, reuse or refuse exactly as the flags say",
  "An identification run identifies exactly the requested phase or sequence (or all three), compares against the matching sub-matrix of the simulated admittance, recomputes the standard or the Bayesian estimates only when asked to (both when neither flag is given) and otherwise returns and keeps the saved ones. "
  "Continuing a Bayesian identification starts from the saved estimate and appends the new iterations to the saved history, and the uncertainty analysis is written exactly when it is requested for synchronized single-phase data. "
  "Unsupported phase combinations, and phases for which there is no data, are refused before anything is written; the Bayesian identification of all three phases in phase values is refused after the standard estimates, and a run that cannot complete keeps what it completed.",
  ["histories", "configurations"],
  "every sequence of identification commands and flag combinations on single-phase and three-phase or sequence data, with changes of the regularization settings in between",
  "No test runs the identification command; the flag combinations, the phase selection and the continue path were never executed (several crashed).",
  ["identify_network.py", "src/identification/run.py", "src/identification/run3ph.py"],
  [("flag handling and phase selection", "identify_network.py identify"),
   ("load/save of estimates", "src/identification/run.py, run3ph.py standard_methods/bayesian_eiv/eiv_fim")],
  [("reference, standard, bayesian, uncertainty archives", "per-network identification artifacts", "data/simulations_output/*_results_*.npz")],
  ["npz archives", "raised exception of the command"])

p("C03", "Matrix vectorization, duplication and elimination operators are exact",
  "For every size n, vectorizing and unvectorizing, complex/real splitting of vectors and (dense or sparse) matrices, and deleting then re-inserting zero rows or columns are mutually inverse and compatible with products. "
  "The duplication and transformation operators rebuild every symmetric, respectively symmetric zero-row-sum, matrix from its reduced parameters, the elimination operators are their exact left inverses, and on an arbitrary matrix the symmetric elimination averages each pair of mirrored entries.",
  ["inputs"],
  "every matrix size and shape, real and complex entries, dense, CSR, CSC and COO storage, every set of deleted rows or columns",
  "The tests check one or two fixed sizes; index arithmetic of the triangular layout can be wrong for other sizes, other storage formats or other entries.",
  ["src/models/matrix_operations.py"],
  [("triangular index arithmetic", "duplication_matrix, transformation_matrix, elimination_sym_matrix, elimination_lap_matrix"),
   ("real/complex embeddings", "make_real_vector, make_complex_vector, make_real_matrix, make_complex_matrix"),
   ("undelete", "undelete")], observe=["returned arrays"])

p("C04", "Phase and sequence quantities convert consistently and invertibly",
  "For any number of nodes, converting measurements or admittances from phase to sequence values and back gives the original data, node by node, with zero, positive and negative sequence in that order and the usual a = exp(j120 deg) definition. "
  "Balanced positive-sequence voltages have only a positive-sequence component, and for a symmetric sequence-decoupled network whose positive and negative sequences agree, currents computed in the phase domain convert to the currents computed in the sequence domain.",
  ["inputs"],
  "every number of nodes and time steps and every complex measurement or admittance matrix",
  "No test covers the conversions at all.",
  ["src/simulation/lines.py"],
  [("Fortescue block transforms", "admittance_sequence_to_phase, admittance_phase_to_sequence, measurement_sequence_to_phase, measurement_phase_to_sequence")],
  observe=["returned arrays"])

p("C05", "A prior is exactly the stack of the beliefs added to it",
  "After any sequence of additions of exact, sparsity, adaptive-sparsity, contrast and ratio beliefs, a prior consists of exactly one weighted linear row, centre and order per belief, in the order of addition, with scalar, per-belief or default weights and orders, and a prior copied from another one starts equal to it and evolves independently. "
  "The quadratic model it provides at any point weighs each row by the inverse of its smoothed residual to the power two minus its order, and the dense and sparse variants agree.",
  ["histories", "inputs"],
  "every sequence of prior additions with any indices, values, weights and orders, and every evaluation point",
  "The tests add one or two beliefs with one weight form and most of them are outdated; sequences, copies, weight and order shapes and the sparse variant are not compared.",
  ["src/models/bayesian_prior.py", "src/models/smooth_prior.py"],
  [("row stacking", "BayesianPrior.add_*_prior"), ("orders stacking and sparse conversion", "SmoothPrior/SparseSmoothPrior.add_*_prior"),
   ("quadratic model", "SmoothPrior.log_distribution, SparseSmoothPrior.log_distribution")],
  [("L, mu, gamma", "rows, centres and orders of the beliefs", "prior object")], ["prior.L, prior.mu, prior.gamma", "log_distribution result"])

p("C06", "Priors built from estimates penalise the intended parameters only",
  "The prior built from a preliminary admittance estimate penalises the real and imaginary part of every off-diagonal admittance by the inverse of its own estimated magnitude, ties for every node the sum of its line admittances to the value implied by the estimate with the configured relative weight, and leaves diagonal entries free unless they are explicitly regularized. "
  "The lasso prior penalises every reduced parameter by the inverse of its estimated magnitude, and known-line and exact-knowledge priors constrain exactly the entries they are documented to know, centred on the (possibly deliberately perturbed) true values.",
  ["inputs", "configurations"],
  "every network size, every estimate without zero entries, general and Laplacian parametrisation, every option combination with per-row contrast",
  "No test builds these priors; index sets and centres depend on size, parametrisation and flags.",
  ["src/identification/run.py", "src/identification/run3ph.py"],
  [("index sets and weights", "build_lasso_prior, build_complex_prior, build_loads_id_prior, add_known_lines")],
  observe=["L, mu of the returned prior"])

p("C07", "Ordinary and total least squares recover and optimally fit the parameters",
  "When the outputs are exactly the product of full-rank inputs with a matrix, ordinary and total least squares both return that matrix. "
  "Otherwise ordinary least squares returns the minimiser of the output residual, and total least squares the parameters of the smallest joint perturbation of inputs and outputs that makes the data consistent, for real and complex data, vector and matrix outputs, leaving the given data unchanged.",
  ["inputs"],
  "every full-rank real or complex input matrix and every output matrix or vector for which the solution is unique",
  "The tests use a single random instance with loose tolerances and only nearly consistent data.",
  ["src/models/regression.py", "src/models/error_in_variable.py"],
  [("pseudo-inverse", "ComplexRegression.fit"), ("SVD block solution", "TotalLeastSquares.fit")],
  observe=["fitted_admittance_matrix"])

p("C08", "Bayesian regression follows its reweighting iteration and stopping rule",
  "Each iteration of the regularized regression solves the current reweighted regularized normal equations exactly in the reduced (symmetric or Laplacian) parameters, then reports as target the absolute residual cost plus the regularization times the prior penalty at the new estimate. "
  "It stops exactly at the first iteration after the first one whose target did not increase and changed by less than the absolute or the relative tolerance, or at the iteration limit, records every iteration once and in order, and returns the last estimate.",
  ["inputs", "histories", "configurations"],
  "every data set, prior, regularization value, tolerance pair, iteration limit and parametrisation",
  "The existing test only compares one converged estimate (and is outdated); iterates, targets and the stopping index are never checked.",
  ["src/models/regression.py", "src/models/abstract_models.py"],
  [("iteration and stop rule", "BayesianRegression.fit, _is_stationary_point")],
  [("iterations", "list of iteration number, parameters, target", "model.iterations")], ["model.iterations", "fitted_admittance_matrix"])

p("C09", "Errors-in-variables identification alternates exact optimal corrections",
  "Each iteration first finds the exact optimal voltage correction for the current parameters, using the inverse covariances given for the voltages and for the currents (or the orthogonal projection on the model when none is given), then solves the regularized weighted normal equations of the corrected data for the new parameters. "
  "The reported target is the weighted cost of both the current residuals and the voltage corrections plus the regularization times the prior penalty, iterations are recorded in order and end by the same stopping rule and limit as the regression, and the estimate keeps the requested symmetric or Laplacian structure.",
  ["inputs", "histories", "configurations"],
  "every data set, weight pair, prior, regularization, tolerance, iteration limit and parametrisation",
  "The only tests for it are outdated and fail; nothing checks the correction, the use of both weights, the cost or the stopping index.",
  ["src/models/error_in_variable.py"],
  [("alternating iteration", "BayesianEIVRegression.fit"), ("stop rule", "BayesianEIVRegression._is_stationary_point")],
  [("iterations", "list of iteration number, parameters, target", "model.iterations")], ["model.iterations", "fitted_admittance_matrix"])

p("C10", "Cartesian noise covariances match the polar noise model entry by entry",
  "For every measurement matrix, the naive, exact and measurement-conditioned covariances have at each measurement's own position (columns stacked, real block first) the variances and covariance given by the respective closed-form transformation of independent magnitude and phase noise, and nothing outside the four block diagonals. "
  "Per-series magnitude deviations apply to their own series, and the inverted form is exactly the inverse matrix.",
  ["inputs"],
  "every measurement matrix shape and value, every pair of deviations, scalar or per-series magnitude deviations, inverted or not",
  "The tests compare one or two fixed inputs statistically or in norm, with one noise level.",
  ["src/models/noise_transformation.py"],
  [("closed forms", "exact_noise_covariance, naive_noise_covariance, average_true_*"), ("block layout and inversion", "end of each function")],
  observe=["returned sparse matrix"])

p("C11", "Resampling interpolates, adds noise per series, and averages full blocks",
  "Resampled measurements are the block averages of the linear interpolation of each series on the new time grid, with one output row per complete block, and equal the noise-free ones when no noise is requested. "
  "Requested noise is added to each series with that series' own magnitude and phase deviations before averaging, is reproducible for a given seed, has no effect when the deviations are zero, and is relative to the magnitude and phase of each sample and linear in the deviations; Cartesian noise is relative to the mean absolute real and imaginary parts.",
  ["inputs", "configurations"],
  "every measurement matrix, old and new time grid, block length and noise function, scalar or per-series deviations",
  "The tests only check sample statistics of the noise for one matrix; the time grid, block and per-series logic is not tested.",
  ["src/simulation/noise.py"],
  [("interpolation and block mean", "filter_and_resample_measurement"), ("noise models", "add_polar_noise_to_measurement, add_cartesian_noise_to_measurement")],
  observe=["returned arrays"])

p("C12", "Load profiles assign whole households up to each node's nominal power",
  "Every generated load series is the sum, in MW or Mvar, of as many household profiles (drawn with replacement) as the node's nominal power divided by the mean 90th percentile profile power, rounded, over exactly the selected time windows in order, for active and reactive power and for each of three phases separately, identically from binary and text files. "
  "Gaussian loads have the nominal value as mean and a deviation proportional to it, nodes declared constant are blended towards their nominal value by the configured fraction and all other nodes are untouched, one time stamp per minute is produced, and the saved and returned loads are the same.",
  ["inputs", "configurations"],
  "every profile set, window selection, nominal power vector, constant node set and constantness",
  "The tests only check the moments of Gaussian loads for one vector.",
  ["src/simulation/load_profile.py", "src/simulation/run.py", "src/simulation/run3ph.py"],
  [("household assignment", "load_profile_from_numpy, load_profile_from_csv"), ("Gaussian loads", "generate_gaussian_load"),
   ("constant nodes and saving", "run.generate_loads, run3ph.generate_loads")],
  observe=["returned arrays", "sim_loads archive"])

p("C13", "Network editing and its admittance matrix stay consistent",
  "After any sequence of adding and removing buses and lines, the admittance matrix equals the one assembled from the lines in service between remaining buses (per unit, zero row sums, symmetric, ordered like the buses, whatever the bus numbers or line orientation), and building lines from an admittance matrix reproduces it. "
  "Passive nodes are exactly the buses other than the grid connection whose load is zero, per phase; three-phase networks behave likewise for their sequence parameters.",
  ["histories", "inputs", "configurations"],
  "every sequence of bus and line additions and removals, bus numbering, line parameters and statuses",
  "The tests build two fixed networks; removals, orientation, status, arbitrary numbering and round trips are untested.",
  ["src/simulation/network.py", "src/simulation/network_3ph.py", "src/simulation/abstract_network.py"],
  [("construction", "NetData.create_bus/create_line(s)/create_lines_from_ybus, NetData3P.create_*"), ("removal", "Net.remove_*"),
   ("admittance", "make_y_bus"), ("passive nodes", "Net.give_passive_nodes")],
  [("bus, line, load tables", "network elements", "pandapower tables")], ["make_y_bus()", "give_passive_nodes()"])

p("C14", "Removing unobserved nodes gives the exact equivalent network",
  "Eliminating nodes from an admittance matrix gives the Schur complement on the remaining nodes in their original order, independent of the order and of the grouping of the eliminations, and preserves symmetry and zero row sums. "
  "Reducing a simulated network removes exactly the passive and hidden nodes and, unless a Laplacian is requested, the grid connection, replaces each hidden node by the shunt given by its own mean current and voltage before eliminating it, and reports exactly the removed measurement columns, for single-phase, phase-wise and node-wise three-phase reduction.",
  ["inputs", "histories", "configurations"],
  "every network, position of the grid connection, set of hidden and passive nodes, elimination order and grouping",
  "No test reduces a network; index shifts depend on the relative position of the grid connection and the removed nodes.",
  ["src/simulation/abstract_network.py", "src/simulation/run.py", "src/simulation/run3ph.py"],
  [("Schur complement", "Net.kron_reduction"), ("reduction", "run.reduce_network, run3ph.reduce_network")],
  observe=["returned indices and matrix"])

p("C15", "The measurement stage scales noise to each sensor and keeps the averaging factor",
  "Sensor ratings are the safety factor times the squared nominal apparent power of each sensor's own node and phase, with the grid connection rated for the sum of all nodes, in the order of the measurements. "
  "Voltage noise is relative and current noise is scaled by the rating of its own sensor; the equivalent-noise option divides the deviations by the square root of the averaging factor on the averaged time grid while reporting the same averaging factor; clean and noisy data are filtered identically, saved, and reloaded unchanged.",
  ["inputs", "configurations"],
  "every network, noise parameters, measurement frequency and number of averaged steps, exact and equivalent noise, one and three phases",
  "No test runs this stage.",
  ["src/simulation/run.py", "src/simulation/run3ph.py"],
  [("ratings, equivalent noise, saving", "add_noise_and_filter")], observe=["returned tuple", "filtered_results archive"])

p("C16", "Three-sequence identification is the assembly of the single ones",
  "Identifying all three sequences gives, in each sequence's own rows and columns, exactly the estimates obtained by identifying that sequence alone with its own voltages, currents, ratings and starting point, and zero coupling between sequences. "
  "The combined history has one entry per iteration completed by all three sequences, combining their parameters in place and summing their targets, and phase-domain Bayesian identification is refused.",
  ["inputs", "configurations"],
  "every interleaving of sequence labels over the measurement columns, unequal column counts per sequence, and unequal numbers of iterations",
  "No test touches the three-phase identification.",
  ["src/identification/run3ph.py"],
  [("per-sequence assembly", "standard_methods, bayesian_eiv")], observe=["returned matrices and iterations", "archives"])

p("C17", "Error metrics are the stated norms for vectors and matrices",
  "The Frobenius, maximum, relative RMS and known-topology errors of an estimate are, for real or complex vectors and matrices of any shape, the stated norms of the difference, the relative ones as percentages of the true parameters' norm, the known-topology one restricted to the non-zero true parameters. "
  "They are zero exactly when the compared entries agree, and the combined metrics report each of them under its own name.",
  ["inputs"],
  "every pair of equally shaped real or complex vectors or matrices with a non-zero truth",
  "Only the Frobenius and maximum error tests are reliable, each with one fixed input.",
  ["src/models/error_metrics.py"], [("norms", "fro_error, max_error, rrms_error, map_error, error_metrics")], observe=["returned numbers"])

p("C18", "Built-in network templates are well-formed and mutually consistent",
  "Every built-in network has consecutively numbered nodes, exactly one grid connection, lines only between existing distinct nodes with positive impedance and length (or a defined line type), no duplicate lines, and is connected, so that its admittance matrix is a connected weighted Laplacian. "
  "The 33 and 21 node sub-networks are the corresponding parts of the 56 node network under their published node mapping, with equal line impedances and loads.",
  ["configurations"],
  "every built-in single-phase and three-phase template",
  "The tests instantiate one or two templates and never compare them.",
  ["src/simulation/net_templates.py", "src/simulation/net_templates_3ph.py"],
  [("template tables", "*_bus, *_net, bolognani_mapping*")], observe=["template tables", "built networks"])

p("C19", "Parameter sweeps run the intended experiments and restore the configuration",
  "A noise or sample-size sweep runs, for each of its seeds and values in order, the simulation, identification and plotting commands while exactly that seed and value are configured, and leaves the configuration files byte-identical afterwards, even when commands fail. "
  "Sweeps are repeatable, and unknown options change and run nothing.",
  ["histories", "fault_sequences"],
  "every sequence of sweep invocations with any options and any subset of failing commands",
  "Nothing tests the sweep script.",
  ["run_multiple_sims.sh", "conf/conf.py", "conf/simulation.py"],
  [("in-place configuration edits and their reversal", "run_multiple_sims.sh")], 
  [("seed, noise_level, days", "configured values", "conf/conf.py, conf/simulation.py")], ["commands run", "configuration files"])

p("C20", "Simulated currents and voltages satisfy the network equations and the loads",
  "At every simulated time step, the currents are the product of the voltages with the network's admittance matrix, every node other than the grid connection draws exactly its requested load of that step (per phase for three-phase networks), and the grid connection stays at nominal voltage and balances the total. "
  "Steps appear in the order of the load profiles, nodes in the order of the buses, the saved results equal the returned ones, and simulating leaves the network and the given profiles unchanged.",
  ["inputs", "configurations"],
  "every network topology and every feasible load profile with any number of steps",
  "The existing test checks one network with one load at the level of shapes.",
  ["src/simulation/simulation.py", "src/simulation/simulation_3ph.py", "src/simulation/run.py", "src/simulation/run3ph.py"],
  [("time series", "SimulatedNet.run, SimulatedNet3P.run"), ("current and voltage extraction", "get_current_and_voltage"), ("saving", "simulate_net")],
  observe=["returned voltages and currents", "sim_results archive"])

p("C21", "Reported result metrics are those of the saved estimates",
  "The metrics files written by the result report equal the error metrics between the saved reference admittance and each saved estimate, each file for its own method, converted to phase or sequence values exactly when the view differs from the identified quantities, and the absolute sparsity metrics compare, for each method under its own heading, the identified parameters that are no lines of the reference. "
  "Methods without saved results are skipped, and reporting changes none of the saved results.",
  ["configurations", "histories"],
  "every combination of saved results, identified phases or sequences, view flag and parametrisation",
  "Nothing tests the report.",
  ["plot_results.py"], [("metric selection and conversion", "plot_results.plot_results")], observe=["*_error_metrics.txt, sparsity_metrics.txt", "plot data archives"])

p("C22", "Each identification method receives the prepared data it documents",
  "Unless a Laplacian is identified, every method is given voltages and currents centred on their own time mean per series (for a Laplacian, voltages are centred on their global mean and currents left as they are), the symmetric average as starting point where it needs one, and the configured regularization and tolerances. "
  "Weighted Bayesian identification uses the inverse conditional covariances of the uncentred measurements, with current deviations scaled by the sensor ratings, or for unsynchronized data the magnitude and power-angle measurements, and the uncertainty analysis the covariances themselves. The estimates returned are those saved.",
  ["inputs", "configurations"],
  "every data set and combination of Laplacian, weighted, exact-prior, unsynchronized and iteration-limit options",
  "No test calls the identification stages.",
  ["src/identification/run.py", "src/identification/run3ph.py"], [("data preparation and calls", "standard_methods, bayesian_eiv, eiv_fim")], observe=["returned estimates and iterations", "archives"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
