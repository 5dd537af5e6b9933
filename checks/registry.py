"""property id -> how it is decided"""
import facts, parallel
import model as M, factor_checks as FC, factor_checks2 as F2, factor_checks3 as F3, var_checks as V, small_checks as S, graph_checks as GC, opt_checks as OC, opt_history as OH
import accept as AC, failure as FL, given as GV
import decl_checks as DC, py_checks as PY, py_stubs as PS, py_plot as PP

ASSUME = ["clang 18's parse of the translation units is the program that is built (same standard, NDEBUG)",
          "arithmetic is treated as exact real arithmetic: rounding is outside the property",
          "library calls (Eigen, std) behave as documented; constructs without a transfer function are abstained from, never judged"]


def pack(acc, pid):
    return {"viol": acc.viol.get(pid, {}), "obl": acc.obl.get(pid, 0), "inst": acc.inst.get(pid, set()), "abst": acc.abst.get(pid, {})}


def check(pid, fac=(), var=(), whole=(), deep=()):
    """fac: fn(m, cls, cfg, acc, full) per factor configuration; var: fn(m, cls, acc) per variable class; whole: fn(m, acc)"""
    def run(F, tier):
        m = M.Model(F)
        tasks = []
        for c in m.facs:
            if not fac:
                break
            cf = FC.configs(m, c)
            for k, cfg in enumerate(cf):
                for f in fac:
                    tasks.append(("%s" % (FC.cfgname(m, c, cfg)),
                                  lambda acc, f=f, c=c, cfg=cfg, k=k: f(m, c, cfg, acc, k == 0 or tier == "thorough"), (pid,)))
        tasks = tasks[::-1]
        for c in m.vars:
            for f in var:
                tasks.append((M.short(c), lambda acc, f=f, c=c: f(m, c, acc), (pid,)))
        for k, f in enumerate(list(whole) + (list(deep) if tier == "thorough" else [])):
            tasks.append(("%s %d" % (pid, k), lambda acc, f=f: f(m, acc), (pid,)))
        acc = parallel.run(tasks, FC.Acc, 480 if tier == "quick" else 800)
        if pid in ("C04", "C09"):
            for fn, msg in m.H.problems:
                acc.v(pid, "rotation helper %s" % (fn["q"] if isinstance(fn, dict) else fn), msg, "%s:%s" % (fn["file"], fn["line"]) if isinstance(fn, dict) else fn)
        return pack(acc, pid)
    return run


def factor_check(pid, fns):
    return check(pid, fac=fns)


CHECKS = {}


def reg(pid, run, rule, technique, note, assumptions=None):
    CHECKS[pid] = {"run": run, "rule": rule, "technique": technique, "note": note}
    if assumptions:
        CHECKS[pid]["assumptions"] = ASSUME + assumptions


AI = "abstract interpretation of the typed AST (value-numbering domain)"

reg("C01", factor_check("C01", [lambda m, c, cfg, acc, full: FC.jacobian_lists(m, c, cfg, acc, full)]),
    "Abstract interpretation of compute_jacobians of every factor class, for every constructor configuration, every subset of constant variables and every state class of the caller's list: the list must end with one block per variable, each of shape residual_size x variable size, or empty for a constant variable, and no access may fall outside the list.",
    AI, "Every trace of every factor's compute_jacobians over the enumerated pre-states of the caller's list and constant subsets; loops are unrolled exactly because sizes are concrete.")
reg("C02", factor_check("C02", [lambda m, c, cfg, acc, full: FC.jacobian_lists(m, c, cfg, acc, full), lambda m, c, cfg, acc, full: FC.residuals(m, c, cfg, acc)]),
    "Definedness dataflow: every element of the caller's buffers starts as a distinct 'stale'/'uninitialised' value; after the evaluation no element of the residual or of any Jacobian block may still depend on such a value.",
    AI, "Every residual and Jacobian entry on every trace, for each state class of the caller's buffers.")
reg("C03", factor_check("C03", [lambda m, c, cfg, acc, full: FC.residuals(m, c, cfg, acc)]),
    "Value numbering of both residual overloads of every factor class on the same symbolic state: sizes equal residual_size() and every row has the same value number on every trace.",
    AI, "Equality is decided in the algebra of value numbers for all real inputs, per trace; a difference that cannot be decided is an abstention.")
reg("C04", factor_check("C04", [lambda m, c, cfg, acc, full: FC.derivative(m, c, cfg, acc)]),
    "Exact differentiation of the residual's value numbers along the tangent obtained from each variable's own apply_increment, compared entry by entry with the value numbers compute_jacobians writes.",
    AI, "Exact symbolic derivative for all non-degenerate inputs of every trace; rotation logarithms are differentiated with the closed-form inverse Jacobian, which the rotation helpers are separately shown to implement.")
reg("C05", factor_check("C05", [lambda m, c, cfg, acc, full: FC.dependence(m, c, cfg, acc)]),
    "Dependence analysis: the set of variables whose state occurs in any residual row's value number on any trace must be exactly the set listed by variables(), without duplicates.",
    AI, "Semantic dependence (after cancellation), per constructor configuration.")

reg("C07", check("C07", fac=[lambda m, c, cfg, acc, full: F2.sigmas(m, c, cfg, acc)]),
    "Homogeneity dataflow: every residual row and every Jacobian row, as a value number in the sigma parameters, must be homogeneous of degree -1 in exactly the sigma declared for that kind of component and of degree 0 in all others.",
    AI, "Every row of every residual and Jacobian trace, per constructor configuration; the kind of a component is found from which part of the state and measurement the row measures.")
reg("C08", check("C08", fac=[lambda m, c, cfg, acc, full: F2.angles(m, c, cfg, acc)], var=[lambda m, c, acc: F2.headings(m, c, acc) if c.endswith("Pose2DVariable") else None]),
    "Interval analysis of value numbers, refined by the comparisons taken on each trace: the heading cell of the planar pose after every constructor and mutator, and every unweighted angular residual, must lie in [-pi, pi].",
    "interval abstract interpretation", "All traces of constructors and mutators of planar poses and of all planar factors, for unbounded real inputs.")
reg("C09", check("C09", var=[V.derived]),
    "Invariant analysis of every variable class: after every constructor and from any state satisfying the invariant after every public mutator, derived fields must have the value number determined by the value vector, writing value() back must be a fixed point of every accessor, plane normals must have squared length one and inverse ranges must lie in their limits.",
    AI, "Inductive over histories: each mutator is analysed from an arbitrary state satisfying the invariant.")
reg("C10", check("C10", var=[V.lengths], whole=[GC.lengths]),
    "Guard analysis: every set_value_from_vector and apply_increment of the variables and of the graph, run on an abstract vector of each wrong length class, must throw with the state cells unchanged and without an out-of-bounds access first.",
    AI, "All variable classes, several wrong lengths each.")
reg("C28", check("C28", var=[V.clones]),
    "Ownership and copy analysis: clone() of every variable class must return a new object of the same dynamic class whose every field has the value number of the original, sharing no storage cell with it.",
    AI, "Every field including those of base classes, for free and constant originals.")
reg("C29", check("C29", fac=[lambda m, c, cfg, acc, full: F2.divisions(m, c, cfg, acc)], whole=[lambda m, acc: F2.helper_divisions(m, acc)]),
    "Guard dominance on value numbers: every division by a distance, norm, range, angle or sine reached on a trace must be implied non-zero by the comparisons already taken on that trace.",
    AI, "Every division by a non-constant quantity on every trace of factor evaluations and rotation helpers; library-internal normalisations included.")
reg("C36", check("C36", fac=[lambda m, c, cfg, acc, full: F3.measurement(m, c, cfg, acc)]),
    "Comparison of the residual's value numbers with the documented measurement model of the factor class, for all real inputs on every non-degenerate trace.",
    AI, "Factor classes with a documented closed form; classes without one are listed as abstentions.")

GRAPH = "Canonical graph shapes (identifiers out of order, constant variables first, last and between, factors on constants only, equal sizes) with symbolic values; code that treats all variables and factors alike behaves on other sizes as on these."
reg("C06", check("C06", fac=[lambda m, c, cfg, acc, full: GC.factor_observers(m, c, cfg, acc)], var=[GC.var_observers], whole=[GC.observers]),
    "Effect analysis: the state cells of every variable are compared before and after every public member of every factor, every public const member of every variable, and every evaluation, accessor and print of the graph.",
    AI, "All traces of all factor members; graph queries on canonical shapes.")
reg("C11", check("C11", whole=[GC.structure]),
    "Typestate analysis of the graph: on every history that leaves it without a current structure (new, extended, failed finalisation of four kinds, also after a good one) each evaluation must throw; after a second finalisation every cached accessor must throw and every evaluation must match the new structure.",
    "typestate analysis by abstract interpretation", GRAPH)
reg("C12", check("C12", fac=[lambda m, c, cfg, acc, full: GC.factor_ids(m, c, cfg, acc)], var=[GC.own_ids], whole=[GC.identifiers]),
    "Effect analysis of add_variable and add_factor for duplicates, empty handles and new identifiers: a throwing call leaves every field of the graph as it was, a normal one is visible in every lookup; constructors and clones keep the identifier.",
    AI, GRAPH)
reg("C13", check("C13", whole=[GC.placement]),
    "Provenance analysis: every factor block and every variable component is given a value of its own and followed through residual vector, dense and sparse Jacobian (first and repeated evaluation, both map orders), placement queries and the vector get, set and increment operations; misfitting blocks must be rejected.",
    AI, GRAPH)
reg("C21", check("C21", whole=[S.numerical]),
    "Effect and value analysis of every instantiation of the finite-difference helper against a factor with a general quadratic residual (for which the central difference is the exact derivative) and against every variable class.",
    AI, "All constant subsets of several shapes, several states of the caller's list, all variable classes.")
reg("C30", check("C30", whole=[S.kernels]),
    "Exact differentiation of the value numbers of apply_to_residual compared with the value numbers apply_to_jacobians writes, on both sides of the threshold.",
    AI, "Residuals of one to three entries, all real inputs; empty blocks must be left alone.")

OPT = "optimize() as a whole for any number of iterations: traces over a canonical graph of free and constant variables with an abstract linear solver (each factorisation and solve may succeed or fail, diagonals arbitrary), joined at loop heads by widening until no new state appears."
FIX = "fixpoint abstract interpretation of the whole optimisation loop"
X = OC.exploration
BIG = ("six variables, two constant, four factors", [(11, 1, True), (7, 2, False), (3, 3, False), (9, 1, False), (4, 2, True), (5, 1, False)],
       [(4, 2, (1, 2)), (2, 1, (3, 1)), (8, 3, (0, 5)), (6, 1, (4, 0))])


def XB(method, mode):
    return lambda m, acc: OC.run_all(m, acc, method, mode, BIG, 20000)


reg("C14", check("C14", whole=[X("LM", "plain"), X("LM", "throw"), X("GN", "plain"), GC.constants], deep=[XB("GN", "plain"), XB("LM", "plain")]),
    "Effect analysis: at every write the graph's vector operations or the optimiser make to a constant variable the value number written must be the one it has.",
    FIX, OPT + " Graph-wide vector operations on all canonical shapes.")
reg("C15", check("C15", whole=[X("LM", "plain"), X("LM", "throw")], deep=[XB("LM", "plain")]),
    "Typestate of the tried increment: on every trace of optimize() the variables at the next factorisation and at the return are the last accepted ones or those plus the whole increment, the latter only where the trace found the new cost strictly lower; the damping on the factorised matrix follows the documented rule after every failed and accepted attempt.",
    FIX, OPT)
reg("C16", check("C16", whole=[X("LM", "plain"), X("GN", "plain"), OH.histories], deep=[XB("GN", "plain"), XB("LM", "plain")]),
    "Typestate of the linear solver: solve() and the factor diagonals are used only in the state 'last factorisation checked successful'; no variable is written with a value derived from a failed solve, and a trace whose last factorisation or solve failed does not end as success.",
    "typestate analysis (fixpoint abstract interpretation)", OPT)
reg("C17", check("C17", whole=[X("LM", "nan"), X("LM", "throw"), X("LM", "plain"), X("GN", "nan"), X("GN", "throw"), X("GN", "plain")]),
    "At every return of optimize() on every trace, including traces where a factor throws and traces where residuals are not numbers: status is not RUNNING, valid is set exactly with SUCCESS, an exception never ends as success or escapes, a residual that is not finite never ends as success.",
    FIX, OPT + " NaN is modelled as a value for which every comparison but != is false.")
reg("C18", check("C18", whole=[OH.histories]),
    "Taint analysis over call histories: every number the optimiser holds after a first run becomes a stale value; after the next run no reported statistic and no timer may depend on one; and no covariance may be reported valid after a new optimisation, a new graph or a new structure began.",
    "taint analysis over call histories", "First call on one trace, its results havocked; second call on every trace (Gauss-Newton) or on six fixed traces (Levenberg-Marquardt), one iteration.")
reg("C19", check("C19", whole=[OH.histories]),
    "Typestate of the covariance estimator: the flag is analysed at every return of estimate_covariance after each of the call histories (too early, unprepared, failed factorisation, failed solve, infinite entries, missing, constant, unknown variable, extended graph); valid requires a non-empty matrix of the variable's size, syntactically symmetric whatever the solver returns, whose entries were all decided finite on that trace.",
    "typestate analysis by abstract interpretation", "Every trace of prepare_to_estimate_covariances and estimate_covariance after 20 histories.")
reg("C34", check("C34", whole=[OH.histories]),
    "Value numbering: with the solver's inverse as a symmetric matrix of unknowns, each entry of a covariance reported valid must be the entry of the inverse at the variable's own columns, and the factorised matrix must be J'J of the graph's last Jacobian.",
    AI, "Both free variables of the canonical graph, every trace of preparation and query; that the solver's result is the inverse is the library's contract.")
reg("C20", check("C20", whole=[X("LM", "plain"), X("GN", "plain")], deep=[XB("GN", "plain")]),
    "Typestate of every stopwatch: on every trace of optimize() a stopwatch that is started is stopped before another is started, before its loop goes round and before the return.",
    "typestate analysis (fixpoint abstract interpretation)", OPT)
reg("C27", check("C27", whole=[X("LM", "plain"), X("GN", "plain"), OH.silent, OH.options]),
    "Dependence analysis of every field of OptimizerSettings: which decision or value on the traces depends on it and in which direction; iteration limits 0, 1, 2 bound the steps; verbose and silent traces that decide alike have the same effects.",
    "dependence analysis by abstract interpretation", OPT + " Limits and tolerances on all traces of up to two iterations with at most one rejected step.")
reg("C37", check("C37", whole=[X("LM", "plain"), X("GN", "plain")], deep=[XB("GN", "plain"), XB("LM", "plain")]),
    "Value numbering at every factorisation and solve of the optimisation loop: the matrix minus J'J of the present values is a multiple of the identity (zero for Gauss-Newton), the right-hand side is -J'r, and the write-back adds the learning rate times the components at each variable's own columns.",
    FIX, OPT)
reg("C38", check("C38", whole=[X("LM", "plain"), X("GN", "plain")], deep=[XB("LM", "plain")]),
    "At every return of optimize() the value numbers of chi2 and residual_norm must be those of the residual at the variable values present then, and the initial ones those at entry; delta_norm that of the increment last kept (zero if none), and the iteration count the number of iterations that kept one (one more allowed).",
    FIX, OPT)

reg("C22", check("C22", whole=[DC.shared_state]),
    "Effect analysis: every variable with static or namespace storage must be immutable or never written by library code (address taken counts), no class may have a mutable static member, no function may call a source of randomness or ambient state, and a clock reading may only end in a duration that is reported, never in a decision or a numeric result.",
    "effect analysis over all declarations and call sites", "Every declaration with static storage and every call of every function of the library; together with object-only state this excludes interference between independent objects for every interleaving.")
reg("C23", check("C23", whole=[DC.type_names]),
    "Abstract interpretation of the naming functions on every enumerator and of type() of every class, compared with the enumerator tables of the binding module: names non-empty, pairwise distinct and the enumerator's own, default object names derived from them, variable types distinct per class, Python exports complete, equal in value and name.",
    AI, "Every enumerator, every built-in class, every py::enum_ value.")
reg("C24", check("C24", whole=[PY.lifetimes]),
    "Ownership analysis of every def, constructor, property and factory of the extension module: holder types against how C++ shares the class, the return value policy against what the returned expression refers to, keep-alive against what the constructed object stores without owning, and refusal of None where a stored handle is dereferenced unchecked.",
    "ownership and lifetime analysis of the binding declarations", "Every bound entity; aliasing of array views is followed through the bound lambda or member function; pybind11's policies are modelled as documented.")
reg("C25", check("C25", whole=[PP.plotting]),
    "Abstract interpretation of the plotting module's syntax tree in a type domain (sets of bound classes per expression, narrowed by the type tests taken, disjunctive states): every attribute read, every call's arguments and every fixed-size index must exist on every class that can arrive there, every library name must be exported and every local name bound.",
    "type-state abstract interpretation of the Python syntax tree", "Every branch of the plotting helpers against every bound factor class with every variable class its constructor accepts; values of unknown origin are not judged.")
reg("C26", check("C26", whole=[PS.compare]),
    "Structural comparison of three declaration sets: the bindings read from the typed AST of the extension module, the syntax trees of the type stubs, and the C++ declarations: presence, parameter names, order, default-ness and default values, types, staticness, read-only or writable, enumerators, and the argument names against the C++ parameters they bind to.",
    "cross-language declaration comparison", "Every bound entity and every stub entry, both directions.")
reg("C31", check("C31", whole=[DC.encapsulation]),
    "Escape analysis: the return type of every public member of every variable and factor class, followed through the returned expression to the storage it refers to: a non-const reference, pointer, view or block must not be rooted in a field of the object; public data members and attributes assignable from Python must not exist (but for the documented limits).",
    "escape analysis of accessor return expressions", "Every public member function and field of every variable and factor class.")

reg("C39", check("C39", whole=[AC.part(k) for k in range(AC.PARTS)]),
    "Bounds analysis over the constructors' whole domain: every combination of variable classes, sizes, indices and vector lengths the signature admits is either refused by a throw, or every evaluation of the constructed factor stays inside every vector and matrix and combines only operands of equal size, giving blocks of the declared shape.",
    AI, "Sizes 1-4 of generic variables, every other variable class, start indices -1 to 2, vectors one entry too short, fitting, and too long.")

reg("C40", check("C40", whole=FL.FAILED + [FL.numeric_failures]),
    "Typestate of the cached results over failing calls: every evaluation of a canonical graph is made to fail at every factor (residual, Jacobian, misfitting block) after zero, one or two complete evaluations; then each cached accessor must throw or give the entries of one complete evaluation, its validity flag must agree with it, no variable may have moved, and the next complete evaluation must be that of a fresh graph. The differencing helper must restore the variable when any of its evaluations throws.",
    "typestate analysis by abstract interpretation", "Every evaluation entry point of FactorGraph times every factor position, on three canonical graphs; every evaluation of the differencing helper.")
reg("C41", check("C41", whole=[FL.self_test]),
    "Value numbering of the self test's verdict: linear factors of known slope whose analytic blocks are off by an unknown d in one entry; on every trace the interval of d implied by the comparisons taken must lie inside the tolerance where the test passes and outside where it fails; missing, extra, misshaped and non-finite blocks must fail.",
    AI, "All real d at several entries, with and without deviations of the other entries, four combinations of tolerance and magnitude; every misshape of every block; verbose and silent.")
reg("C42", check("C42", whole=[PP.plotting]),
    "Effect analysis of the plotting module: at every call of a bound member reachable in the type-state interpretation of the module, the transitive effects of the C++ functions it can reach (overriders included) must not include a write to a variable's or factor's fields or to the graph's containers of variables, factors and placements; no attribute of a library object may be assigned.",
    "transitive effect analysis over the call graph", "Every library call in every branch of the plotting helpers on every kind of object that can arrive there; receivers of unknown kind are judged by the member's name when every member of that name has an effect.")
reg("C43", check("C43", fac=[lambda m, c, cfg, acc, full: GV.factor_accessors(m, c, cfg, acc)], var=[GV.given]),
    "Value numbering of every accessor after every constructor, setter and increment of every variable class, from an arbitrary earlier state, free and constant: it must be the documented function of the arguments and of what was reported before; accessors not named by a setter must report what they did. Weights and observations of factors against the constructor arguments.",
    AI, "All real arguments and states of every non-degenerate trace of every public mutator and constructor; members without documented effect are abstained from.")
