#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that edits stay reviewable)."""
import json, os
S = "src/factorama/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or [], "hook_needed": None}})
FACT = [S + f for f in ["bearing_observation_factor.cpp","bearing_observation_factor.hpp","bearing_observation_factor_2d.cpp",
  "bearing_projection_factor_2d.cpp","coordinate_transform_factor.hpp","generic_between_factor.cpp","generic_prior_factor.hpp",
  "inverse_range_bearing_factor.cpp","inverse_range_bearing_factor.hpp","linear_velocity_factor.cpp","plane_factor.cpp",
  "plane_prior_factor.cpp","pose_2d_between_factor.cpp","pose_2d_prior_factor.cpp","pose_between_factors.cpp",
  "pose_between_factors.hpp","pose_prior_factors.cpp","range_bearing_factor_2d.cpp","rotation_prior_factor.hpp"]]
VARS = [S + f for f in ["pose_variable.cpp","pose_variable.hpp","pose_2d_variable.cpp","pose_2d_variable.hpp","landmark_variable.hpp",
  "generic_variable.hpp","rotation_variable.hpp","inverse_range_variable.cpp","inverse_range_variable.hpp","plane_variable.hpp"]]
OPT = [S + "sparse_optimizer.cpp", S + "sparse_optimizer.hpp"]
GRAPH = [S + "factor_graph.cpp", S + "factor_graph.hpp"]
PYB = ["python_bindings/python/factorama/_factorama.cpp"]

prop("C01", "Each factor reports one correctly shaped Jacobian block per variable",
 "Whatever the caller's list of matrices contains beforehand, a factor's Jacobian evaluation that returns normally leaves exactly one block per declared variable, in declaration order. The block of a variable held constant is empty; every other block has as many rows as the factor's residual and as many columns as that variable's dimension.",
 ["inputs","histories","configurations"], "every built-in factor, every subset of constant variables, every previous content of the output list",
 "Tests call compute_jacobians with a fresh or same-shaped list; reused, oversized or undersized lists and most constant/non-constant combinations are never tried.",
 FACT, [{"name":"compute_jacobians overrides","where":S+"*_factor*.{hpp,cpp}"}], ["Factor::compute_jacobians","FactorGraph::compute_sparse_jacobian_matrix"])
prop("C02", "Residuals and Jacobians never contain leftover or uninitialised entries",
 "Every entry of every residual and of every Jacobian block a factor produces is determined only by the factor's parameters and the current variable values. No entry keeps a value left in the caller's buffer by an earlier evaluation, and none is uninitialised memory, on any path through the evaluation.",
 ["inputs","histories","configurations"], "every entry of every block, every mode of every factor, every buffer history",
 "The graph reuses its Jacobian buffers between iterations; tests start from zeroed or fresh buffers, so a stale entry reads as the right value.",
 FACT, [{"name":"setZero / full assignment before partial writes","where":S+"*_factor*.{hpp,cpp}"}], ["Factor::compute_jacobians","Factor::compute_residual"])
prop("C03", "The two ways of computing a factor's residual give the same result",
 "For every factor and every state, the residual returned by value equals the residual written into a caller-supplied buffer of the factor's residual size, component by component. Both fail on the same states.",
 ["inputs","configurations"], "every built-in factor, every variable value, every mode flag",
 "Tests compare the two forms at a few states only; the optimizer uses one and the numerical-derivative checks use the other.",
 FACT, [{"name":"compute_residual overload pairs","where":S+"*_factor*.{hpp,cpp}"}], ["Factor::compute_residual"])
prop("C04", "Each factor's Jacobian is the derivative of its residual",
 "At every non-degenerate state, the Jacobian block a factor reports for a non-constant variable is the exact derivative of its residual with respect to the increment that variable applies. This includes sign, scale, frame of reference, row and column placement, and zero blocks where the residual does not depend on the variable. Only a degenerate state (a distance or range below its small limit) is refused.",
 ["inputs","configurations"], "every built-in factor, every mode flag, every regular variable value",
 "Finite-difference tests sample a few states (often symmetric or near identity) with loose tolerances and leave several modes, rotations and constants untested.",
 FACT+VARS, [{"name":"analytic Jacobians","where":S+"*_factor*.{hpp,cpp} compute_jacobians"},{"name":"increment conventions","where":S+"*_variable.{hpp,cpp} apply_increment"}],
 ["Factor::compute_jacobians","Variable::apply_increment"])
prop("C05", "A factor declares exactly the variables its residual depends on",
 "The value of a factor's residual depends on no variable that the factor does not list, and every variable it lists is used by its residual. The order of the list is the order of the Jacobian blocks, so the graph's sparsity pattern covers every dependency.",
 ["inputs","configurations"], "every built-in factor, every mode flag",
 "An omitted dependency only shows when that variable moves in an optimisation; tests check lists of a few factors.",
 FACT, [{"name":"variables() overrides","where":S+"*_factor*.{hpp,cpp}"}], ["Factor::variables"])
prop("C06", "Evaluating a factor, or asking anything of the graph, changes no variable",
 "Computing residuals or Jacobians of a factor or a graph, reading accessors, printing, placing variables and estimating covariances never change the value or constness of any variable. Only the documented setters, increment application and the optimisation steps do.",
 ["inputs","histories"], "every evaluation and query entry point, all code it can reach",
 "Tests look at outputs and rarely re-check that all inputs are bit-for-bit unchanged afterwards.",
 FACT+GRAPH+OPT, [{"name":"const evaluation functions","where":S+"*_factor*.{hpp,cpp}"},{"name":"graph evaluation","where":S+"factor_graph.cpp"}], ["FactorGraph::compute_*","Factor::compute_*"])
prop("C07", "Residuals and Jacobians scale with the inverse of the declared sigma",
 "Each residual component and the whole corresponding Jacobian row are proportional to one over the sigma declared for that kind of component (position, angle, range, bearing, normal, distance), so doubling a sigma halves exactly its rows. No row uses another component's sigma or uses its own more or less than once.",
 ["inputs","configurations"], "every built-in factor, every sigma argument, every residual row and Jacobian entry",
 "Most tests use sigma 1 or equal sigmas, where a missing, doubled or swapped weight is invisible.",
 FACT, [{"name":"weight members","where":S+"*_factor*.{hpp,cpp}"}], ["Factor::compute_residual","Factor::compute_jacobians"])
prop("C08", "Planar angles and angular residuals always stay wrapped",
 "The heading of a planar pose is in [-pi, pi] after construction and after every write or increment. Every angular residual of the planar factors is the wrapped difference: its unweighted value lies in [-pi, pi] for every heading and every measurement.",
 ["inputs","histories"], "every heading, measurement and history of writes",
 "Tests cross the +-pi seam at a handful of values in a few factors.",
 [S+"pose_2d_variable.cpp",S+"pose_2d_prior_factor.cpp",S+"pose_2d_between_factor.cpp",S+"bearing_observation_factor_2d.cpp",S+"range_bearing_factor_2d.cpp"],
 [{"name":"wrap_angle","where":S+"pose_2d_*.cpp, *_factor_2d.cpp"}], ["Pose2DVariable::theta","compute_residual"])
prop("C09", "A variable's derived state always agrees with its value vector",
 "After construction and after every setter or increment, everything a variable reports (rotation matrix, rotation vector, unit normal, offset, position) is consistent with its value vector: writing the value it reports back into it changes nothing. Plane normals keep unit length and inverse ranges stay within their configured limits.",
 ["inputs","histories"], "every variable class, every sequence of construction, setters and increments",
 "Tests check one accessor after one write; a cache not refreshed on one path shows only in a later evaluation.",
 VARS, [{"name":"recompute / renormalise / clip on write","where":S+"*_variable.{hpp,cpp}"}], ["Variable::value","PoseVariable::dcm_CW","RotationVariable::rotation","PlaneVariable::unit_vector"])
prop("C10", "A wrong-sized vector is rejected before anything changes",
 "Setting a variable from a vector, or applying an increment to it, with a vector whose length is not the variable's dimension throws and leaves the variable untouched. The same holds for the graph-wide operations and the length of the vector of all non-constant values.",
 ["inputs","histories"], "every variable class and graph-wide write, every vector length",
 "Assertions are compiled out of release builds; tests try wrong lengths on a few classes only.",
 VARS+GRAPH, [{"name":"size checks in writers","where":S+"*_variable.{hpp,cpp}, factor_graph.cpp"}], ["Variable::set_value_from_vector","Variable::apply_increment","FactorGraph::apply_increment","FactorGraph::set_variable_values_from_vector"])
prop("C11", "Graph evaluation needs a finalised, current structure",
 "Computing residuals or Jacobians, applying increments or printing the structure throws unless the structure was finalised after the last variable or factor was added. A finalisation that fails leaves the graph not finalised, and finalising again discards every result cached for the previous structure.",
 ["histories"], "every order of add, finalise, failed finalise and evaluate calls",
 "Tests follow the one documented order; adding after finalising or finalising twice is not tried.",
 GRAPH, [{"name":"finalised flag and caches","where":S+"factor_graph.cpp"}], ["FactorGraph::finalize_structure","FactorGraph::add_factor"])
prop("C12", "Identifiers are unique and registering is all-or-nothing",
 "Adding a variable or factor whose identifier is already present, or an empty handle, throws and leaves the graph exactly as it was; otherwise it is afterwards present in every lookup and listing. Every variable and factor carries the identifier it was constructed with, also in its clones.",
 ["inputs","histories"], "every sequence of additions; every constructor of every class",
 "Tests add one duplicate and check for the exception, not the state afterwards or every constructor.",
 GRAPH+VARS+FACT, [{"name":"duplicate checks","where":S+"factor_graph.cpp add_variable/add_factor"}], ["FactorGraph::add_variable","FactorGraph::add_factor","FactorGraph::get_variable"])
prop("C13", "Dense, sparse and vector views agree on where everything is placed",
 "The dense Jacobian, the sparse Jacobian, the residual vector, the placement queries and the vector get, set and increment operations all use the same row of every residual and the same column of every variable component, also when the evaluation is repeated. Constant variables occupy no column, and a block that does not fit its place is reported by an exception instead of being written elsewhere; when every block fits, none of these operations fails.",
 ["inputs","histories","configurations"], "every graph shape, mix of constant variables and number of repeated evaluations",
 "Tests compare dense and sparse results on a few graphs, mostly on the first evaluation.",
 GRAPH, [{"name":"placement maps and sparse fill","where":S+"factor_graph.cpp finalize_structure, compute_sparse_jacobian_matrix"}], ["FactorGraph::compute_full_jacobian_matrix","FactorGraph::compute_sparse_jacobian_matrix","FactorGraph::get_variable_vector"])
prop("C14", "Constant variables are never moved",
 "No graph-wide write and no optimisation step, successful, rejected or failed, changes the value of a variable marked constant.",
 ["inputs","histories","configurations"], "every graph-wide write and optimiser step, every path through them",
 "Tests check one constant variable after a successful run; the rollback and failure paths are not looked at.",
 GRAPH+OPT, [{"name":"is_constant guards","where":S+"factor_graph.cpp, sparse_optimizer.cpp"}], ["SparseOptimizer::optimize","FactorGraph::apply_increment"])
prop("C15", "A Levenberg-Marquardt step never leaves the problem worse",
 "An increment tried by a Levenberg-Marquardt step is kept only if it strictly lowers the cost; otherwise every variable is put back to its earlier value before another increment is tried or the step ends. The damping parameter is raised after every failed attempt, never above the configured maximum, and lowered only after an accepted one.",
 ["inputs","histories"], "every path through the attempt loop, including failed factorisations and solves",
 "Well-conditioned test problems accept the first attempt; rejected, singular and exhausted attempts are hardly reached.",
 OPT, [{"name":"attempt loop","where":S+"sparse_optimizer.cpp single_step_levenberg_marquardt"}], ["SparseOptimizer::optimize","OptimizerStats::damping_parameter"])
prop("C16", "No failed factorisation or solve is ever used",
 "The optimiser and the covariance estimator use a factorisation or the solution of a linear system only after that very factorisation or solve was checked to have succeeded. When it did not, no variable is changed by it and the failure is reported in the status, retried with more damping, or reported as an invalid covariance. An optimisation step also uses a factorisation only after its pivots were found neither smaller than 1e-14 nor further apart than a factor of 1e12.",
 ["inputs","fault_sequences"], "every use of the linear solver, every path",
 "A failing solve needs special numeric input; tests include one singular system.",
 OPT, [{"name":"info() checks","where":S+"sparse_optimizer.cpp"}], ["SparseOptimizer::optimize","SparseOptimizer::estimate_covariance"])
prop("C17", "The optimiser's final status is truthful",
 "When an optimisation returns, its status is never the running state, statistics are marked valid exactly when the status is success, and every error inside an iteration, including a thrown one, ends as a non-success status rather than escaping or being lost. A run whose residual is not a finite number never ends as success, and neither does one that ends with a residual at least as large as the initial one after a step that raised it, unless that step was shorter than the step tolerance.",
 ["inputs","fault_sequences","histories"], "every way out of the iteration loop",
 "Tests check success on good problems and one singular case, not every exit.",
 OPT, [{"name":"status and valid writes","where":S+"sparse_optimizer.cpp optimize"}], ["SparseOptimizer::current_stats"])
prop("C18", "Every optimisation starts afresh",
 "Starting an optimisation resets the statistics, all timers and the completion and covariance caches, so nothing reported after it comes from an earlier run, other settings or an earlier graph. Configuring the optimiser with a graph discards everything cached for the previous one.",
 ["histories"], "every sequence of setup, optimise and covariance calls on one optimiser",
 "Tests use each optimiser object for one run.",
 OPT, [{"name":"per-run initialisation","where":S+"sparse_optimizer.cpp optimize, setup"}], ["SparseOptimizer::optimize","SparseOptimizer::setup"])
prop("C19", "A covariance is reported valid only when it really was computed",
 "The covariance query sets its validity result on every return; it is true exactly when a non-empty, finite, symmetric matrix is returned. It is never true for a missing, constant or unknown variable, before an optimisation completed, before the estimation was prepared, or after a failed solve.",
 ["inputs","histories","fault_sequences"], "every return path of the covariance query, every call order",
 "Tests query a few valid and two invalid variables after a successful run.",
 OPT, [{"name":"validity flag","where":S+"sparse_optimizer.cpp estimate_covariance"}], ["SparseOptimizer::estimate_covariance"])
prop("C20", "Timers are stopped on every way out of the phase they measure",
 "Each timer the optimiser starts is stopped again on every path that leaves the measured phase by return, break, continue or falling through, so the reported time breakdown never includes other phases.",
 ["inputs","fault_sequences"], "every path through the optimisation steps that ends without an exception",
 "Timer state is private and tests do not inspect the breakdown, least of all on error paths.",
 OPT+[S+"stopwatch.hpp"], [{"name":"stopwatch start/stop pairs","where":S+"sparse_optimizer.cpp"}], ["SparseOptimizer::optimize verbose summary"])
prop("C21", "Numerical differentiation restores every variable",
 "The finite-difference Jacobian helper restores each variable it perturbs to the value it had before, on every normal return, and skips constant variables entirely. It yields one block per declared variable, in order, empty exactly for constant ones.",
 ["inputs","configurations"], "every factor type, every mix of constant variables",
 "Tests compare the resulting matrices, not the state afterwards.",
 [S+"numerical_jacobian.hpp"], [{"name":"save / perturb / restore","where":S+"numerical_jacobian.hpp"}], ["ComputeNumericalJacobians"])
prop("C22", "Independent graphs share no mutable state",
 "Two graphs and optimisers built from distinct objects can be used from different threads, or one after the other, without affecting each other: the library keeps no mutable global, static or cached state shared between objects and uses no source of randomness or ambient time in its results.",
 ["schedules","histories"], "every function of the library, every interleaving",
 "Tests are single-threaded; a shared cache shows only under interleaving or cross-object use.",
 FACT+VARS+GRAPH+OPT, [{"name":"state lives in objects only","where":S+"*"}], ["whole library"])
prop("C23", "Every variable and factor type has a name, and Python knows it",
 "Each enumerated variable and factor type has its own non-empty name, which is the enumerator's own and distinct from all others, and a variable's or factor's default name is made of its type's name and its identifier. Different variable classes report different types. Every type value that a built-in class reports is exported to Python under the same name; no two Python names denote the same value and no exported value has the wrong name.",
 ["programs","configurations"], "every enumerator, every built-in class",
 "Existing static assertions skip the last enumerators, never compare names, and do not see the binding tables.",
 [S+"base_types.hpp"]+PYB, [{"name":"name tables","where":S+"base_types.hpp"},{"name":"enum bindings","where":PYB[0]}], ["Variable::name","Factor::name","factorama.FactorType"])
prop("C24", "Python objects cannot outlive or doubly own the C++ objects behind them",
 "No function exposed to Python hands ownership of an object to Python that C++ still owns, and every view or reference it returns keeps its owner alive. A factor built in Python keeps the variables it refers to alive, and None is refused where a variable is required.",
 ["histories","programs"], "every bound function and constructor, every garbage-collection order",
 "The tests keep all objects referenced until the end, so a dangling or doubly freed object never shows.",
 PYB, [{"name":"return value policies, keep_alive, holder types","where":PYB[0]}], ["python bindings"])
prop("C25", "Plotting only uses what the bindings provide",
 "Whatever a graph contains, the plotting helpers only use names that exist: every attribute they read from a variable or factor selected by its type exists on every bound class that can reach that place, every library class, function or enumerator they mention is exported, and every call passes the arguments its target takes. They read no attribute from an argument that was left out, and index no fixed-size array beyond its size.",
 ["inputs","programs"], "every plotting branch, every bound class",
 "Plot tests exercise a few factor types; a wrong attribute in another branch raises only when such a factor is drawn.",
 ["python_bindings/python/factorama/__init__.py"]+PYB, [{"name":"type dispatch in plotting","where":"python_bindings/python/factorama/__init__.py"}], ["factorama.PlotFactorGraph"])
prop("C26", "Type stubs, bindings and C++ agree",
 "Every class, method, property, enumerator and function bound to Python appears in the type stubs with the same parameter names, types and defaults, and the stubs declare nothing that is not bound. Every bound name denotes the C++ entity of that name, no argument carries the name of another parameter of the C++ function, and a default in Python is the default of the C++ function. Every field of the optimiser settings and statistics is readable and writable from Python under its own name.",
 ["programs"], "every bound entity and every stub entry",
 "The stub test compares a sample of names at class level, not signatures or fields.",
 PYB+["python_bindings/python/factorama/_factorama.pyi","python_bindings/python/factorama/__init__.pyi"], [{"name":"bindings and stubs","where":"python_bindings/python/factorama"}], ["factorama package","mypy users"])
prop("C27", "Every solver option takes effect",
 "Each documented optimiser setting influences the algorithm it is documented for: the method choice, iteration limit, step and residual tolerances, initial and maximum damping, the damping factors in their right direction and the learning rate in both methods, and verbosity only affects printing.",
 ["configurations"], "every setting, both algorithms",
 "Tests set a few options away from their defaults and do not see whether the others are consulted.",
 OPT, [{"name":"settings reads","where":S+"sparse_optimizer.cpp"}], ["SparseOptimizer::optimize"])
prop("C28", "Cloning gives an independent copy of the same kind",
 "Cloning a variable yields an object of the same dynamic class with the same identifier, value, limits, derived state and constness, and no later change to either object is visible in the other.",
 ["inputs","histories"], "every variable class",
 "Tests clone some classes and compare the value only.",
 VARS, [{"name":"clone overrides","where":S+"*_variable.{hpp,cpp}"}], ["Variable::clone"])
prop("C29", "Degenerate geometry raises an error instead of dividing by zero",
 "When a distance, norm, range or angle that a Jacobian or rotation-map computation divides by is zero or below its limit, the computation throws or takes a well-defined branch. It never divides by a possibly zero distance, norm, angle or sine without having checked that same quantity first.",
 ["inputs"], "every division by a state-dependent quantity in Jacobians and rotation maps",
 "Tests place landmarks at ordinary distances; coincident points are tried for a few factors only.",
 FACT+[S+"random_utils.cpp",S+"pose_variable.cpp"], [{"name":"minimum distance checks","where":S+"*_factor*.cpp"},{"name":"small-angle branches","where":S+"random_utils.cpp"}], ["Factor::compute_jacobians","ExpMapSO3","LogMapSO3"])
prop("C30", "The robust kernel's Jacobian scaling is the derivative of its residual scaling",
 "For the Huber kernel, the transformation applied to Jacobians is the exact derivative of the transformation applied to the residual, on both sides of the threshold, and the residual is unchanged at or below the threshold.",
 ["inputs"], "every residual, threshold and Jacobian",
 "No test covers the kernels.",
 [S+"kernels.hpp"], [{"name":"HuberKernel","where":S+"kernels.hpp"}], ["HuberKernel"])
prop("C31", "Objects hand out no writable access to their internals",
 "No public accessor of a variable or factor returns a writable reference, pointer or view of stored state, so a variable only changes through its setters and increments and a factor's measurement and weights never change after construction. The only exception is the documented setters of a variable's limits.",
 ["programs","histories"], "every public member of every variable and factor class",
 "A leaked reference is harmless until somebody writes through it.",
 VARS+FACT, [{"name":"accessor return types","where":S+"*_variable.hpp, *_factor*.hpp"}], ["public accessors"])
prop("C32", "Gauss-Newton and Levenberg-Marquardt converge to a local minimum",
 "On a well-posed problem with a good starting point, both algorithms reach a stationary point of the least-squares cost within the iteration limit.",
 ["inputs"], "every well-posed problem",
 "Tests sample a few problems.",
 OPT, [{"name":"iteration loop","where":S+"sparse_optimizer.cpp"}], ["SparseOptimizer::optimize"])
prop("C33", "Rotation exponential and logarithm are inverse to each other numerically",
 "For every rotation vector shorter than pi, taking the exponential and then the logarithm returns the vector to within floating-point accuracy, also near zero and near pi.",
 ["inputs"], "every rotation vector",
 "Tests sample some angles.",
 [S+"random_utils.cpp"], [{"name":"ExpMapSO3, LogMapSO3","where":S+"random_utils.cpp"}], ["ExpMapSO3","LogMapSO3"])
prop("C34", "Reported covariances are the marginal blocks of the inverse information matrix",
 "The covariance reported as valid for a variable equals that variable's own diagonal block of the inverse of the undamped information matrix J'J of the last linearisation of the completed optimisation, whatever was optimised, prepared or queried before.",
 ["inputs"], "every graph",
 "Tests compare a few small graphs.",
 OPT, [{"name":"estimate_covariance","where":S+"sparse_optimizer.cpp"}], ["SparseOptimizer::estimate_covariance"])
prop("C35", "A sparse solve costs time proportional to the graph, not to its square",
 "The time per iteration grows roughly linearly with the number of factors for graphs of bounded connectivity.",
 ["inputs","configurations"], "every graph size",
 "The benchmark is run by hand.",
 GRAPH+OPT, [{"name":"sparse structure reuse","where":S+"factor_graph.cpp"}], ["SparseOptimizer::optimize"])
prop("C36", "Residuals implement the documented measurement model",
 "For every built-in factor and every state, the residual is the documented comparison of prediction and measurement divided by sigma: the documented frame (world or local), direction of transform, sign, order of components and unit (angle, range, signed plane distance) are those of the header documentation. No regular state is refused.",
 ["inputs","configurations"], "every state, measurement and constructor option of every factor class",
 "A residual with the wrong frame or sign vanishes at the same point in the symmetric configurations tests use, and its Jacobian can be consistent with it.",
 FACT, [{"name":"compute_residual of each factor","where":S+"*_factor*.cpp"}], ["compute_residual"])
prop("C37", "Every optimisation step solves the normal equations of the current linearisation",
 "In every iteration the linear system that is factorised and solved is built from the residual and Jacobian at the present variable values: the matrix is J'J, plus the same damping on every diagonal entry for Levenberg-Marquardt, and the right-hand side is -J'r. The solution times the learning rate is added exactly once to every non-constant variable, each taking the components of its own columns.",
 ["inputs","histories"], "every graph, every iteration of both methods, every earlier failed or rejected attempt",
 "Convergence tests pass with a stale Jacobian, a wrong right-hand side scale or an increment applied to the wrong columns of equal size, only more slowly.",
 OPT, [{"name":"single_step_gauss_newton, single_step_levenberg_marquardt","where":S+"sparse_optimizer.cpp"}], ["SparseOptimizer::optimize"])
prop("C38", "The reported statistics describe the variables the optimisation leaves",
 "When an optimisation returns without an exception, the reported chi-squared and residual norm are those of the residual at the variable values it leaves behind, not those of a rejected trial step or of an earlier iterate, and the initial statistics are those of the values it started from. The reported step length is the length of the last increment that was kept (zero when the last iteration kept none), and the iteration count is the number of iterations that kept one, plus at most the one that ended without.",
 ["inputs","histories"], "every graph and every sequence of accepted, rejected and failed steps",
 "Tests print the statistics or compare them loosely after runs that end with an accepted step.",
 OPT, [{"name":"optimize","where":S+"sparse_optimizer.cpp"}], ["SparseOptimizer::current_stats_","SparseOptimizer::initial_stats_"])
prop("C39", "Factors accept only variables they can evaluate",
 "Every constructor of every factor class, given any combination of variable classes, sizes, component indices and vector lengths its signature admits, either refuses by an exception or constructs a factor that can be evaluated: computing its residual and Jacobian never reads or writes outside a vector or matrix, never combines operands of different size, and produces blocks of the declared shape. The same holds for the construction of every variable class from a vector of any length.",
 ["inputs","configurations"], "every constructor, every variable class and size it admits, every index and vector length",
 "Tests construct factors from variables that fit; the size assertions are compiled out of the release build, so a misfit reads past the value without any failure.",
 FACT+VARS, [{"name":"constructors","where":S+"*_factor*.cpp, "+S+"*_variable.cpp"}], ["GenericBetweenFactor::GenericBetweenFactor","GenericPriorFactor::GenericPriorFactor","RangeBearingFactor2D::RangeBearingFactor2D","PlaneFactor::PlaneFactor"])
prop("C40", "A failed evaluation never passes for a result",
 "When evaluating the graph's residual or Jacobian (dense, sparse or joint) ends in an exception, whatever factor it comes from and whatever was evaluated before, the exception reaches the caller, no variable has moved, and each cached accessor (residual(), jacobian(), sparse_jacobian()) afterwards throws or returns the result of one complete evaluation, never a mixture; the validity flags agree with the accessors; and the next evaluation that succeeds gives what a fresh graph would. The numerical differentiation helper restores the variable it perturbs when the factor throws.",
 ["inputs","histories","fault_sequences"], "every factor that can fail, every earlier evaluation history",
 "No test lets a factor fail in the middle of an evaluation and then reads the cache.",
 GRAPH+[S+"numerical_jacobian.hpp"], [{"name":"cached evaluation","where":S+"factor_graph.cpp"},{"name":"ComputeNumericalJacobians","where":S+"numerical_jacobian.hpp"}], ["FactorGraph::residual","FactorGraph::jacobian","FactorGraph::sparse_jacobian","ComputeNumericalJacobians"])
prop("C41", "The Jacobian self test passes exactly the right Jacobians",
 "detailed_factor_test() returns true exactly when for every factor the analytic Jacobian list has one block per variable, empty for constant variables and otherwise of the shape of the numerical one, and every entry is a finite number that differs from the numerical one by less than the tolerance: the given tolerance times the greatest absolute entry of the numerical block, but at least 0.01. Verbosity does not change the verdict and no variable is moved.",
 ["inputs","configurations"], "every analytic Jacobian, right or wrong, of every factor of the graph",
 "Tests run the self test on correct factors, where it must pass; a test that always passes would satisfy them.",
 GRAPH, [{"name":"detailed_factor_test","where":S+"factor_graph.cpp"}], ["FactorGraph::detailed_factor_test"])
prop("C42", "Plotting leaves the graph as it was",
 "PlotFactorGraph and its helpers only look: with any options, for any graph and optimiser, no library member they call and no attribute they assign changes a variable's value or constancy, a factor, or the variables, factors and structure of the graph. (Numerical caches of the graph and the optimiser's covariance cache may be filled.)",
 ["inputs","configurations"], "every graph of built-in variables and factors, every combination of plotting options",
 "The tests draw a few graphs and look at the axis returned, never at the graph afterwards.",
 ["python_bindings/python/factorama/__init__.py"]+PYB, [{"name":"plotting helpers","where":"python_bindings/python/factorama/__init__.py"}], ["PlotFactorGraph"])
prop("C43", "Variables and factors hold exactly what they are given",
 "After construction, and after every setter, a variable's accessors report exactly the value that was passed (unit normals and bearings normalised, headings wrapped, inverse ranges clipped to the limits) and every part the setter does not name is unchanged, whether the variable is constant or not. Applying an increment adds it component by component to positions, points, generic values, headings, inverse ranges and plane parameters (then wrapped, clipped or normalised), and multiplies a rotation from the left by the increment's exponential. A factor's accessors report the measurement it was constructed with and one over its sigmas.",
 ["inputs","histories"], "every value and every earlier state of every variable class; every constructor argument of every factor class",
 "Tests set a handful of values; a setter that alters another component, or only does what it says for some values, passes them.",
 [S+f for f in ("pose_variable.cpp","pose_2d_variable.cpp","rotation_variable.hpp","landmark_variable.hpp","generic_variable.hpp","plane_variable.hpp","inverse_range_variable.cpp","range_bearing_factor_2d.hpp","bearing_observation_factor.hpp")], [{"name":"variable setters and increments","where":S+"pose_variable.cpp"}], ["Variable::set_value_from_vector","Variable::apply_increment","PoseVariable","Pose2DVariable","PlaneVariable","InverseRangeVariable","RotationVariable"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
