#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they can be edited as text)."""
import json, os
S = "src/factorama/"
PY = "python_bindings/python/factorama/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))

prop("P01", "SO(3) exponential and logarithm are exact inverses on the whole group",
 "For every rotation vector, ExpMapSO3 returns a proper rotation matrix (orthonormal, determinant +1) equal to the rotation by that angle about that axis, and for every rotation matrix LogMapSO3 returns the rotation vector of norm at most pi whose exponential is that matrix. The inverse Jacobian used for orientation factors is the derivative of Log(Exp(d) R) with respect to d at d = 0, skew_symmetric(v) w is the cross product v x w and unskew inverts it. All of this holds for tiny angles, angles at the boundaries between the internal approximations, and angles up to and including pi.",
 ["inputs"], "all rotation vectors, including zero, 1e-12..1e-3, both sides of every approximation switch, and pi; all axes",
 "Tests check a few fixed rotations; the formulas switch between series, general and near-pi branches at thresholds that no listed test straddles.",
 [S+"random_utils.cpp", S+"random_utils.hpp"], [("ExpMapSO3/LogMapSO3/compute_inverse_right_jacobian_so3", S+"random_utils.cpp")],
 observe=["ExpMapSO3", "LogMapSO3", "compute_inverse_right_jacobian_so3", "skew_symmetric", "unskew"])

prop("P02", "Pose and rotation variables stay valid and follow every increment history",
 "After any sequence of apply_increment, set_value_from_vector and setter calls, a pose's position is the sum of the translation increments and its rotation is the product Exp(d_k)...Exp(d_1) R_0 of the rotation increments applied on the left; a rotation variable composes its increments the same way. Rotation matrix and stored rotation vector always describe the same proper rotation, and small increments accumulate like large ones. Constructing or setting a pose from a matrix or from a vector gives back that rotation.",
 ["histories", "inputs"], "all sequences of increments, sets and setter calls, with increments from 1e-12 rad to several turns",
 "Tests apply one or two moderate increments; drift, tiny increments, near-pi states and mixed setter/increment histories are not sampled.",
 [S+"pose_variable.cpp", S+"pose_variable.hpp", S+"rotation_variable.hpp"],
 [("left-multiplicative retraction", S+"pose_variable.cpp"), ("RotationVariable::apply_increment", S+"rotation_variable.hpp")],
 state=[("pose vector / dcm", "position, rotation vector and the cached rotation matrix", S+"pose_variable.hpp")],
 observe=["value()", "pos_W()", "rot_CW()", "dcm_CW()", "rotation()"])

prop("P03", "Plane, 2D pose, inverse-range, landmark and generic variables keep invariants",
 "After any history of increments and sets: a plane's normal is the normalised sum and stays unit length (an increment that cancels it is refused and changes nothing), with its distance and its signed point distance n.p+d consistent with its value; a 2D pose keeps theta in [-pi, pi], equal modulo 2 pi to the sum of what was applied, with its position and rotation matrix matching; an inverse-range variable stays within its current minimum and maximum and its point is origin + bearing / inverse range with a unit bearing. Landmark and generic variables are plain vector spaces: increments add exactly and sets store exactly.",
 ["histories", "inputs"], "all increment/set histories with angles of many turns, non-unit normals, out-of-range inverse ranges and user-changed clip bounds",
 "Unit tests make one call with ordinary numbers; wrap-around, renormalisation and clipping are only visible over histories and at extremes.",
 [S+"plane_variable.hpp", S+"pose_2d_variable.cpp", S+"inverse_range_variable.cpp", S+"landmark_variable.hpp", S+"generic_variable.hpp"],
 [("renormalise / wrap / clip after each write", S+"plane_variable.hpp")],
 observe=["value()", "unit_vector()", "distance_from_point()", "theta()", "dcm_2d()", "pos_2d()", "inverse_range()", "pos_W()"])

prop("P04", "Clones are independent, values round-trip and wrong sizes are rejected",
 "For every variable kind and state, clone() has the same id, type, size, name, value and constant flag, and changing either copy never changes the other. Setting a variable to its own value changes nothing observable. A value or increment vector of the wrong length throws and leaves the variable exactly as it was.",
 ["inputs", "histories"], "all variable kinds after any prior history, all wrong lengths",
 "Tests clone one variable kind at rest and probe wrong sizes for a few kinds only.",
 [S+"base_types.hpp", S+"pose_variable.cpp", S+"rotation_variable.hpp", S+"landmark_variable.hpp", S+"inverse_range_variable.cpp", S+"generic_variable.hpp", S+"plane_variable.hpp", S+"pose_2d_variable.cpp"],
 [("clone / set_value_from_vector / apply_increment", S+"base_types.hpp")], observe=["clone()", "value()", "exceptions"])

prop("P05", "Every factor's residual is its documented measurement error divided by sigma",
 "For every factor kind, variable state and parameter set, compute_residual returns the documented error model (bearing, projected bearing, inverse-range bearing, prior, between in world or local frame, velocity, orientation log, point-to-plane with optional distance scaling, 2D bearing/range/pose, coordinate transform) divided by its sigma, with angle errors wrapped to [-pi, pi]. Both residual overloads return the same residual_size() numbers. Evaluating a residual never changes a variable. The weight and observation accessors state the sigma and measurement the factor was built with.",
 ["inputs", "configurations"], "all factor kinds, admissible variable types, flags and parameters, over the whole value range including angle wrap-around and boundary geometry",
 "Tests evaluate one or two hand-picked configurations per factor, mostly at zero residual.",
 [S+"bearing_observation_factor.cpp", S+"bearing_projection_factor_2d.cpp", S+"inverse_range_bearing_factor.cpp", S+"generic_prior_factor.hpp", S+"generic_between_factor.cpp", S+"linear_velocity_factor.cpp", S+"pose_prior_factors.cpp", S+"rotation_prior_factor.hpp", S+"pose_between_factors.hpp", S+"plane_factor.cpp", S+"plane_prior_factor.cpp", S+"bearing_observation_factor_2d.cpp", S+"range_bearing_factor_2d.cpp", S+"pose_2d_prior_factor.cpp", S+"pose_2d_between_factor.cpp", S+"coordinate_transform_factor.hpp"],
 [("compute_residual of each factor", S)], observe=["compute_residual() (both overloads)", "residual_size()"])

prop("P06", "Every factor's Jacobians are the derivative of its residual",
 "For every factor kind and smooth state, compute_jacobians yields one block per variable in variables() order, equal to the derivative of the residual along that variable's own increment (for a plane, whose increments renormalise, zero along its normal; generic prior, between and velocity factors over vector-space variables or pose positions). Blocks are residual_size() by variable size, and empty exactly for constant variables, whatever the output vector held before the call. Factors that refuse a degenerate geometry throw instead of returning a wrong block.",
 ["inputs", "configurations"], "all factor kinds, every subset of constant variables, any prior content of the output buffers, the whole smooth value range",
 "Existing Jacobian tests sample one pose per factor with all variables free and fresh output vectors.",
 [S+"bearing_observation_factor.cpp", S+"bearing_projection_factor_2d.cpp", S+"inverse_range_bearing_factor.cpp", S+"generic_prior_factor.hpp", S+"generic_between_factor.cpp", S+"linear_velocity_factor.cpp", S+"pose_prior_factors.cpp", S+"rotation_prior_factor.hpp", S+"pose_between_factors.cpp", S+"pose_between_factors.hpp", S+"plane_factor.cpp", S+"plane_prior_factor.cpp", S+"bearing_observation_factor_2d.cpp", S+"range_bearing_factor_2d.cpp", S+"pose_2d_prior_factor.cpp", S+"pose_2d_between_factor.cpp", S+"coordinate_transform_factor.hpp"],
 [("compute_jacobians of each factor", S)], observe=["compute_jacobians()", "apply_increment()", "compute_residual()"])

prop("P07", "Residuals vanish at noise-free truth and do not depend on the world frame",
 "For any scene, a factor whose measurement was computed from the true states has zero residual at those states, and a residual that compares quantities only through relative geometry is unchanged when all poses, landmarks and planes are moved by the same rigid transform of the world. Adding whole turns to any 2D angle measurement, prior or pose angle changes no residual.",
 ["inputs"], "all scenes, all rigid world transforms, all whole-turn offsets",
 "Tests place a handful of scenes at the origin frame; invariance relates pairs of executions, which example tests do not form.",
 [S+"bearing_observation_factor.cpp", S+"bearing_projection_factor_2d.cpp", S+"inverse_range_bearing_factor.cpp", S+"pose_between_factors.hpp", S+"plane_factor.cpp", S+"bearing_observation_factor_2d.cpp", S+"range_bearing_factor_2d.cpp", S+"pose_2d_between_factor.cpp", S+"pose_2d_prior_factor.cpp"],
 [("measurement models", S)], observe=["compute_residual()"])

prop("P08", "The graph residual is exactly the stack of all factor residuals",
 "For every finalized graph, the full residual vector is the concatenation of each factor's residual in the order the factors were added, of length num_residuals(), at the current variable values, whichever of the residual calls is used and however often variables change between calls. A caller-supplied vector of any prior size and content gives the same result.",
 ["inputs", "histories"], "all graphs over all factor kinds, id assignments and insertion orders; all interleavings of value changes and evaluations",
 "Tests build a few fixed graphs and evaluate them once.",
 [S+"factor_graph.cpp"], [("finalize_structure row assignment", S+"factor_graph.cpp"), ("compute_full_residual_vector", S+"factor_graph.cpp")],
 state=[("factor placement", "row offset and size of each factor", S+"factor_graph.hpp"), ("cached residual", "last full residual", S+"factor_graph.hpp")],
 observe=["compute_full_residual_vector()", "residual()", "num_residuals()"])

prop("P09", "Dense and sparse graph Jacobians equal the assembled factor blocks, always",
 "For every finalized graph, both the dense and the sparse Jacobian contain each factor's Jacobian block at that factor's rows and each variable's columns and zero everywhere else, with no columns for constant variables. This stays true when they are evaluated repeatedly and in any order while values change, after constant flags or the graph's content change and the structure is finalized again, and for copies of a graph.",
 ["inputs", "histories"], "all graphs; all histories of evaluate dense/sparse, change values, toggle constants, add variables and factors, re-finalize, copy",
 "Sparse evaluation takes a different path on the second call and after re-finalization; tests compare dense and sparse on one graph at one point.",
 [S+"factor_graph.cpp", S+"factor_graph.hpp"],
 [("compute_full_jacobian_matrix", S+"factor_graph.cpp"), ("compute_sparse_jacobian_matrix / copy_sparse_data_to_eigen_matrix", S+"factor_graph.cpp")],
 state=[("sparse pattern and data", "row indices and values per column reused between calls", S+"factor_graph.hpp"), ("validity flags", "whether cached matrices belong to the current structure", S+"factor_graph.hpp")],
 observe=["compute_full_jacobian_matrix()", "compute_sparse_jacobian_matrix()", "jacobian()", "sparse_jacobian()"])

prop("P10", "Graph-level get, set and increment act on each free variable's own segment",
 "For every finalized graph, get_variable_vector is the concatenation of the free variables' values in insertion order; setting the graph from a vector stores each segment in its variable, and reading it back returns it up to the variables' own normalisation; apply_increment of a vector equals applying each segment to its own variable. Constant variables are never touched, and a vector of the wrong length throws without changing any variable.",
 ["inputs", "histories"], "all mixes of variable kinds, constant flags, ids and insertion orders; all vectors, right and wrong sized",
 "Tests use two-variable graphs with the default ordering.",
 [S+"factor_graph.cpp"], [("get_variable_vector / set_variable_values_from_vector / apply_increment", S+"factor_graph.cpp")],
 observe=["get_variable_vector()", "set_variable_values_from_vector()", "apply_increment()", "value()"])

prop("P11", "Graph structure rules: unique ids, lookups, and refusal of invalid structures",
 "Any history of additions behaves like two insertion-ordered lists with unique ids: duplicate variable or factor ids throw and change nothing, lookups by id, lists, per-type lists, counts and column placements always agree with what was added. Finalizing throws when a factor refers to a free variable that is not in the graph or when there are fewer residuals than free values, and succeeds otherwise with num_values and num_residuals the exact sums. Evaluations before finalizing, after an addition that was not finalized, or after a failed finalize throw instead of returning stale or partial results.",
 ["histories", "programs"], "all sequences of add, finalize, evaluate, look up and constant toggles, with ids of any sign and magnitude",
 "Tests check single violations in isolation, not the state left behind by a history of valid and invalid calls.",
 [S+"factor_graph.cpp", S+"factor_graph.hpp"], [("add_variable / add_factor", S+"factor_graph.cpp"), ("finalize_structure", S+"factor_graph.cpp")],
 state=[("finalized flag", "whether placements describe the current content", S+"factor_graph.hpp")],
 observe=["exceptions", "get_variable()", "get_all_variables()", "get_all_factors()", "get_variables_of_type()", "num_variables()", "num_values()", "num_residuals()", "variable_placement()"])

prop("P12", "Constant variables are never moved by optimization and take no columns",
 "Whatever the graph, method, settings and outcome, optimizing leaves every constant variable's value where it was, and the result for the other variables is the one obtained by optimizing the problem with those values fixed. A constant variable has no covariance. Making it free again and re-finalizing lets it move.",
 ["inputs", "configurations", "histories"], "all graphs and all subsets of constant variables, both methods, successful and failed runs, flag changes between runs",
 "Tests hold one pose constant in one problem.",
 [S+"sparse_optimizer.cpp", S+"factor_graph.cpp"], [("placement dim 0 and skipped increments", S+"factor_graph.cpp"), ("step application and rollback", S+"sparse_optimizer.cpp")],
 observe=["value() before and after optimize()", "num_values()", "estimate_covariance()"])

prop("P13", "Levenberg-Marquardt never raises the cost; reported statistics are truthful",
 "For every graph and setting, Levenberg-Marquardt never ends with a higher cost than it started with, iteration by iteration. For both methods the reported initial and final chi2 and residual norm equal those recomputed from the variables at the start and the end, the iteration count never exceeds the maximum, the status is never left RUNNING, an invalid result never carries SUCCESS, and the damping parameter stays within the configured maximum.",
 ["inputs", "configurations"], "all graphs including hard, noisy and rank-deficient ones; all settings of iterations, tolerances, damping factors, learning rate",
 "Tests run a few well-behaved problems with default settings and inspect the final value only.",
 [S+"sparse_optimizer.cpp", S+"sparse_optimizer.hpp"], [("LM accept / reject with rollback", S+"sparse_optimizer.cpp"), ("statistics update", S+"sparse_optimizer.cpp")],
 state=[("current_stats_, initial_stats_", "what the optimizer reports", S+"sparse_optimizer.hpp")],
 observe=["initial_stats_", "current_stats_", "graph residual at current values"])

prop("P14", "Linear problems are solved exactly",
 "For every full-rank graph whose factors are linear in its free variables, Gauss-Newton with unit learning rate reaches the weighted least-squares solution in its first step from any starting point and reports success, and Levenberg-Marquardt converges to the same solution. The final chi2 is the minimum.",
 ["inputs"], "all full-rank linear graphs over vector variables, positions and 3D poses with fixed orientation, all sigmas and starting points",
 "Tests solve a few tiny linear problems with unit weights.",
 [S+"sparse_optimizer.cpp", S+"factor_graph.cpp"], [("normal equations and LDLT solve", S+"sparse_optimizer.cpp")],
 observe=["value() after optimize()", "current_stats_"])

prop("P15", "Well-posed nonlinear problems converge to the truth, by either method",
 "For every well-posed, observable scene with noise-free measurements, both methods started near the truth report success and recover every free variable, and started exactly at the optimum they stay there and report success. With noisy measurements they reach a stationary point whose cost is no greater than the cost at the truth, and both methods agree on it.",
 ["inputs", "configurations"], "all scenes over all factor kinds with well-conditioned geometry, both methods, 2D and 3D",
 "Integration tests run a handful of scripted scenes and most use one method.",
 [S+"sparse_optimizer.cpp"]+[S+"bearing_observation_factor.cpp", S+"pose_between_factors.hpp", S+"range_bearing_factor_2d.cpp"],
 [("Gauss-Newton and LM iterations", S+"sparse_optimizer.cpp"), ("factor models", S)],
 observe=["value() after optimize()", "current_stats_"])

prop("P16", "Unsolvable problems are reported, never turned into garbage estimates",
 "When the normal equations are singular (a free variable no factor constrains, or an unobservable direction), Gauss-Newton reports an invalid result with a failure status and leaves every variable finite and at its last good value; Levenberg-Marquardt leaves unconstrained directions where they were. Whatever happens, no variable ever becomes NaN or infinite, an error raised by a factor during an iteration ends the run as FAILED instead of escaping or hanging, and a step to where a factor has no residual (NaN) is never kept: Gauss-Newton returns to the last good values and reports FAILED, Levenberg-Marquardt rejects the step.",
 ["inputs", "fault_sequences"], "all rank-deficient graphs, degenerate geometry that factors refuse at any iteration, both methods",
 "Tests include one singular problem per method.",
 [S+"sparse_optimizer.cpp"], [("factorization and pivot checks", S+"sparse_optimizer.cpp"), ("exception handling in optimize", S+"sparse_optimizer.cpp")],
 observe=["current_stats_.valid / status", "value()"])

prop("P17", "Covariances are the blocks of the inverse information at the current estimate",
 "After optimize and prepare_to_estimate_covariances, the covariance of every free variable is its diagonal block of the inverse of J^T J at the current estimate, symmetric and flagged valid; it is flagged invalid for null, constant or foreign variables, before any preparation and when the information is singular. This holds for every run of an optimizer that is used again, set up on another graph, or whose graph changed and was re-optimized, for either method and any number of iterations including zero; after the structure changes, a covariance still flagged valid is that of the new structure.",
 ["inputs", "histories", "configurations"], "all graphs, both methods, all histories of setup / optimize / prepare / query / change / optimize again",
 "Tests query covariances after a single run of one problem.",
 [S+"sparse_optimizer.cpp"], [("prepare_to_estimate_covariances / estimate_covariance", S+"sparse_optimizer.cpp")],
 state=[("cached factorization", "what the queries are answered from", S+"sparse_optimizer.hpp")],
 observe=["estimate_covariance()"])

prop("P18", "The factor self-test gives the right verdict and has no side effects",
 "detailed_factor_test accepts every graph of library factors at a well-scaled smooth state, and rejects every graph in which some factor's Jacobian is wrong by clearly more than the tolerance, has the wrong shape or count, or is non-empty for a constant variable, wherever that factor is, and its report counts and names exactly the factors and variables that are wrong, with their errors. It and the numerical Jacobian helper leave every variable's value unchanged, also when a factor raises an error half way, and the numerical Jacobian approximates the true derivative with empty blocks exactly for constants.",
 ["inputs", "programs"], "all graphs mixing library factors with user-defined factors whose Jacobians are right or wrong in one entry",
 "Tests use it as a tool on correct factors; the negative verdict is barely exercised.",
 [S+"factor_graph.cpp", S+"numerical_jacobian.hpp"], [("detailed_factor_test", S+"factor_graph.cpp"), ("ComputeNumericalJacobians", S+"numerical_jacobian.hpp")],
 observe=["detailed_factor_test()", "value()"])

prop("P19", "Results do not depend on ids, insertion order, reuse or verbosity",
 "Renumbering ids or permuting the order in which variables and factors are added changes neither the chi2 nor, for well-posed problems, the estimate and covariances beyond rounding. Running the same problem again gives bit-identical results, an optimizer that was used before gives the same result as a fresh one after setup, and verbose output changes nothing but output.",
 ["inputs", "histories", "configurations"], "all well-posed graphs, all permutations and id assignments, all previous uses of the optimizer",
 "Tests use consecutive ids in one order and fresh optimizers.",
 [S+"factor_graph.cpp", S+"sparse_optimizer.cpp"], [("placement by insertion order, lookup by id", S+"factor_graph.cpp"), ("optimizer state reset", S+"sparse_optimizer.cpp")],
 observe=["value()", "current_stats_", "estimate_covariance()"])

prop("P20", "Huber kernel: Jacobian is the derivative of the robustified residual",
 "For every residual, the Huber kernel returns it unchanged while its norm is at most delta and otherwise keeps its direction and gives it norm sqrt(delta * norm). Applied to a factor's Jacobians it yields the derivative of that robustified residual, leaves them unchanged inside the threshold, and leaves the empty blocks of constant variables empty.",
 ["inputs"], "all residuals and Jacobian lists, deltas of every scale, norms on both sides of the threshold",
 "No existing test covers the kernels.",
 [S+"kernels.hpp"], [("HuberKernel", S+"kernels.hpp")], observe=["apply_to_residual()", "apply_to_jacobians()"])

prop("P21", "The Python API computes what the mathematics and the C++ API define",
 "For every variable, factor and graph built from Python, values, residuals, Jacobians, structure queries, optimizer settings, statistics, estimates and covariances agree with an independent model, every constructor argument (by position, keyword or default) reaches the right parameter, and C++ errors arrive as Python exceptions that leave the objects usable. Objects fetched from a graph are the objects that were added, with their concrete type.",
 ["inputs", "programs", "configurations"], "all classes and argument forms exposed to Python, all graphs",
 "Python tests construct each class once with defaults and check a few numbers.",
 [PY+"_factorama.cpp", PY+"__init__.py"], [("pybind11 bindings", PY+"_factorama.cpp")], observe=["Python API return values and exceptions"])

prop("P22", "No sequence of Python calls can crash or read freed memory",
 "Whatever order Python creates, drops, garbage-collects and queries variables, factors, graphs, optimizers, settings and the arrays they return, the interpreter never crashes, no freed memory is read and every object still reachable keeps the value it should have. None, an object of another type, or a variable or array of the wrong size in place of a required argument raises an exception (a covariance of None is reported as invalid).",
 ["programs", "histories"], "all interleavings of creation, deletion, collection and use through the Python API",
 "Tests keep every object alive in local variables until the end.",
 [PY+"_factorama.cpp"], [("ownership and keep-alive policies", PY+"_factorama.cpp")], observe=["process exit", "AddressSanitizer", "array contents"])

prop("P23", "PlotFactorGraph draws every graph truthfully and without errors",
 "For every graph, in 2D and 3D, with or without covariances, measurements and between factors, PlotFactorGraph returns the axis it was given or created without raising, leaves the graph's values unchanged, and draws one marker per plottable variable at that variable's position, inside the view, to one scale, with a legend entry per kind drawn. Covariance outlines have the position covariance's centre, axes and area, bearing and range lines start at the pose and end in the measured direction (at the measured range, or at the landmark's distance for pure bearings), between lines join the two poses, and orientation arrows start at the pose and point along its axes.",
 ["inputs", "configurations"], "all graphs over all variable and factor kinds, all option combinations, given or created axes",
 "Plot tests check that a few scripted graphs yield a figure, not where things are drawn.",
 [PY+"__init__.py"], [("PlotFactorGraph and helpers", PY+"__init__.py")], observe=["matplotlib artists on the returned axis"])

prop("P24", "Stopwatch accumulates exactly the running time of any start/stop/reset history",
 "After any sequence of start, stop, reset and elapsed calls, elapsed is the total time between effective starts and stops since the last reset, plus the running segment if running; repeated starts do not restart a running segment, repeated stops add nothing, reset stops and zeroes, and reading never changes it. The sum is right to rounding for any number of segments from a nanosecond to a year, copies run on independently, and setting the system's date changes none of it.",
 ["histories"], "all call sequences with arbitrary delays between them",
 "Tests run three fixed sequences.",
 [S+"stopwatch.hpp"], [("Stopwatch", S+"stopwatch.hpp")], state=[("running flag, accumulated time", "stopwatch state", S+"stopwatch.hpp")], observe=["elapsed()"])

prop("P25", "No valid sequence of C++ API calls has undefined behaviour",
 "Any program that builds variables, factors and graphs with valid arguments, in any order and with any values, sizes, ids and flags, and then evaluates, changes, re-finalizes, copies, prints, tests, optimizes and queries covariances runs without memory errors, without undefined behaviour, without hanging and without any outcome other than a result or a std::exception.",
 ["programs", "histories", "inputs"], "all API programs over valid arguments, including error paths and reuse after exceptions",
 "Tests run scripted, successful programs without sanitizers.",
 [S+"factor_graph.cpp", S+"sparse_optimizer.cpp"], [("whole C++ API", S)], observe=["AddressSanitizer and UndefinedBehaviorSanitizer", "termination"])

prop("P26", "Every optimizer iteration takes exactly the step its settings define",
 "Each Gauss-Newton iteration moves the free variables by learning_rate times the solution of the normal equations at the estimate it starts from; each Levenberg-Marquardt iteration by learning_rate times the solution of (J'J + lambda I) dx = -J'r for the first lambda of the sequence defined by the settings (initial_lambda; times lambda_up_factor after a rejected trial, never above max_lambda; times lambda_down_factor after an accepted one) that lowers the cost, each tried from the iteration's starting estimate. A run ends with success at the first iteration whose step norm is below step_tolerance or whose residual norm improves by less than residual_tolerance (both absolute), and goes on otherwise until max_num_iterations or a failure; a run with a lower limit is exactly the beginning of the run with a higher one.",
 ["inputs", "configurations", "histories"], "all graphs, both methods, all tolerances, learning rates and damping settings, every iteration",
 "Tests look at the end of converged default runs, where wrong steps, damping or termination still arrive at the optimum.",
 [S+"sparse_optimizer.cpp"], [("single_step_gauss_newton, single_step_levenberg_marquardt, optimize", S+"sparse_optimizer.cpp")], observe=["variables after each iteration", "statistics", "status"])

prop("P27", "Separate graphs do not influence each other, in turns or in threads",
 "Programs that work on separate graphs, variables, factors and optimizers observe exactly the same values, bit for bit, whether they run alone, step by step in turns with others, or at the same time in other threads, and share no unsynchronised state. Variables, factors and graphs that nobody changes can be read from several threads at once (values, clones, residuals, lookups, and the Jacobians of factors with analytic derivatives) with the results of a single thread.",
 ["schedules", "programs", "histories"], "all interleavings of programs over disjoint objects, and of concurrent readers of the same objects",
 "Tests run one graph at a time in one thread.",
 [S+"factor_graph.cpp", S+"sparse_optimizer.cpp", S+"numerical_jacobian.hpp"], [("all library state", S)], observe=["all evaluation results and statistics", "ThreadSanitizer"])

prop("P28", "What the library prints is true",
 "print_structure, print_variables, print_jacobian_and_residual, print_all_covariances, the report of detailed_factor_test and every verbose optimizer report state the actual counts, values, matrices, rank, condition number, ineffective columns, iteration numbers, residual norms before and after each iteration, step norms, chi2, damping, attempts, status, improvement, verdicts, errors, times (parts that ran take time, and add up to no more than the whole) and covariances of the objects they describe, in the order of the graph, and printing changes nothing.",
 ["inputs", "histories", "configurations"], "all graphs and runs, including reused optimizers, failed steps and rank-deficient problems",
 "Tests silence or ignore the output.",
 [S+"factor_graph.cpp", S+"sparse_optimizer.cpp"], [("print_* functions and verbose output", S+"factor_graph.cpp"), ("verbose reports", S+"sparse_optimizer.cpp")], observe=["standard output"])

prop("P29", "The Python stubs and call signatures are the truth",
 "Everything the Python package offers is declared in its .pyi stubs and the other way round, with the same base classes, enumeration members and properties. Whatever the stubs' annotations allow is accepted, by position, by keyword under the declared name and in any mixture, with the same meaning each way; leaving an argument out means its declared default; results have the declared types and shapes; a settable property reads back what was set and changes nothing else, others refuse; an argument of an undeclared type (another class, text, a wrong shape; for bool anything with a truth value counts) raises TypeError.",
 ["inputs", "configurations"], "all classes, methods, properties, functions and enumerations of the stubs, all argument values and forms their types allow",
 "The stub test compares the lists of top-level names only.",
 [PY+"_factorama.pyi", PY+"__init__.pyi", PY+"_factorama.cpp"], [("stubs", PY+"_factorama.pyi"), ("pybind11 signatures", PY+"_factorama.cpp")], observe=["accepted calls, results and their types, exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
