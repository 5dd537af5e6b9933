"""Obligations on histories of optimiser calls: fresh starts (C18), validity (C19) and value (C34) of covariances, and the effect of
every setting (C27).  Earlier calls are run on one fixed trace (their results are then havocked or irrelevant), the last calls on
every trace."""
import algebra as al, interp as I, model as M, stubs, opt_checks as OC
from algebra import C, Fr, ZERO, ONE, Poly
from interp import Cell, Mat, Obj, Vec, Map, Sparse, Opaque, Str, Unsupported, UB, Throw, PathEnd
from graph_checks import Graph, G, dense, layout
from opt_checks import O, SHAPE, SMALL, field, status, settings, solver_hooks, optimizer, prepare, enum
from merge import known_sign, assume

OTHER = ("two free variables of other sizes", [(7, 1, False), (4, 3, False)], [(1, 2, (0, 1)), (0, 3, (1,))])


class Run:
    """one optimiser over stubs; quiet() runs calls on the first trace only"""

    def __init__(self, m, p, acc, method="GN", shape=SHAPE, maxit=1, verbose=False):
        self.m, self.p, self.acc = m, p, acc
        self.it, self.w, self.g, self.o, self.mon, self.S = prepare(m, p, acc, method, "history", shape, maxit=maxit, verbose=verbose)
        self.mon.stepping = True
        self.mon.judged = {"C16"}
        self.mon.opt, self.mon.g, self.mon.S = self.o, self.g, self.S
        self.real = p.choose
        self.finite = {}
        self.it.finite_hook = self.fin
        self.calm = False
        base = self.it.coeff_hook

        def coeff(it, name, vals):
            if self.calm and base(it, name, vals) is not None:
                return ONE
            return base(it, name, vals)
        self.it.coeff_hook = coeff
        for w in ("start", "stop", "reset"):
            self.it.hooks.pop("factorama::Stopwatch::" + w, None)

    def fin(self, it, p):
        if p.is_const():
            return True
        if self.calm:
            return True
        k = repr(sorted(p.t.items(), key=repr))
        if k not in self.finite:
            self.finite[k] = (p, it.path.choose(2) == 0)
        return self.finite[k][1]

    def quiet(self, fn):
        self.p.choose = lambda n, order=None: (order or [0])[0]
        self.calm = True
        try:
            return fn()
        finally:
            self.p.choose = self.real
            self.calm = False

    def optimize(self, throwing=False):
        self.mon.stepping = True
        self.mon.rounds = 0
        if throwing:
            self.w.thrower = ("compute_residual", self.w.n.get("compute_residual", 0) + 1)
        try:
            self.it.method(self.o, "optimize")
        except Throw:
            if not throwing:
                raise
        finally:
            self.w.thrower = None
            self.mon.stepping = False

    def prepare(self):
        self.mon.stepping = False
        self.it.method(self.o, "prepare_to_estimate_covariances")

    def jtj(self):
        """information matrix of the linearisation the graph holds"""
        J = self.it.method(self.g.o, "sparse_jacobian")
        r, c, e = dense(self.it, J)
        return [[sum((e[k][i] * e[k][j] for k in range(r)), ZERO) for j in range(c)] for i in range(c)]

    def estimate(self, v):
        flag = Cell(True)          # a return that forgets the flag leaves the worst value in it
        P = self.it.method(self.o, "estimate_covariance", [v, flag])
        return P, flag.v


def loc(m, name):
    fs = [f for f in m.F.methods(O, name) if "body" in f]
    return "%s:%s" % (fs[0]["file"], fs[0]["line"]) if fs else O


def judge(r, v, hist, expect, pids=("C19", "C34")):
    """estimate for v on every trace; expect: 'invalid' or 'either'"""
    acc, it, m = r.acc, r.it, r.m
    at = loc(m, "estimate_covariance")
    who = "no variable" if v is None else "a constant variable" if v.tag.const else "a variable the graph does not have" if v not in r.g.vs else "a free variable"
    nm = "%s, queried for %s" % (hist, who)
    for pid in pids:
        acc.i(pid, nm)
        acc.o(pid)
    r.finite.clear()
    P, flag = r.estimate(v)
    if not isinstance(flag, bool):
        acc.v("C19", "flag not set", "%s: estimate_covariance returns without setting its validity flag" % nm, at)
        return
    if not isinstance(P, Mat):
        raise Unsupported("covariance of type %s" % type(P).__name__)
    acc.o("C19", 4)
    if not flag:
        if P.rows * P.cols:
            acc.v("C19", "matrix although invalid", "%s: a %dx%d matrix is returned together with an invalid flag" % (nm, P.rows, P.cols), at)
        return
    if expect == "invalid":
        acc.v("C18" if "C18" in pids else "C19", "valid: %s" % hist, "%s: a covariance is reported valid" % nm, at)
        return
    e = it.mpolys(P)
    if P.rows != P.cols or P.rows == 0 or P.rows != v.tag.dim:
        acc.v("C19", "size", "%s: a %dx%d matrix is reported valid" % (nm, P.rows, P.cols), at)
        return
    n = P.rows
    if any(e[i * n + j] != e[j * n + i] for i in range(n) for j in range(n)):
        acc.v("C19", "not symmetric", "%s: the matrix reported valid is symmetric only if the solver's result happens to be" % nm, at)
    ok = set()
    for p, f in r.finite.values():
        if f:
            ok |= p.atoms()
    if any(al.has_kind(x, "bad") for x in e):
        acc.v("C19", "failed solve", "%s: the result of a failed solve or factorisation is reported valid" % nm, at)
        return
    if any(x.atoms() - ok for x in e):
        acc.v("C19", "finiteness", "%s: a matrix is reported valid although its entries were not checked to be finite" % nm, at)
    # value
    s = r.mon.inv
    cols, msg, _ = layout(r.g)
    if cols is None:
        raise Unsupported("placement: " + msg)
    acc.o("C34", 2)
    hr, hc, H = dense(it, s.H)
    want = r.jtj()
    if hr != len(want) or [[x for x in row] for row in H] != want:
        acc.v("C34", "information matrix", "%s: the factorised matrix is not J'J of the last linearisation" % nm, at)
        return
    k = cols[1][v.tag.id]

    def inv(i, j):
        return M.latom("Inv.%d.%d@%d" % (i, j, s.k), kind="inv")
    for i in range(n):
        for j in range(n):
            acc.o("C34")
            x = e[i * n + j]
            y = x
            for a, b in [(inv(max(p, q), min(p, q)), inv(min(p, q), max(p, q))) for p in range(hr) for q in range(p)]:
                y = subst(y, a, b)
            if y != inv(min(k + i, k + j), max(k + i, k + j)):
                acc.v("C34", "block", "%s: entry (%d,%d) of the covariance is %s instead of entry (%d,%d) of the inverse information matrix" % (nm, i, j, al.pstr(y, 4), k + i, k + j), at)
                return


def subst(p, a, b):
    ia, = a.atoms()
    if ia not in p.atoms():
        return p
    out = ZERO
    for m, c in p.t.items():
        t = C(c)
        for i, e in m:
            f = b if i == ia else Poly.atom(i)
            for _ in range(e):
                t = t * f
        out = out + t
    return out


def taint(it, o):
    """every number the optimiser holds, apart from its settings, becomes a stale one"""
    n = [0]
    seen = set()

    def go(v, top):
        if isinstance(v, Cell):
            if isinstance(v.v, Poly):
                n[0] += 1
                v.v = M.latom("stale%d" % n[0], kind="stale")
            elif isinstance(v.v, int) and not isinstance(v.v, bool):
                pass
            else:
                go(v.v, top)
            return
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, Mat):
            for c in v.cells:
                go(c, top)
        elif isinstance(v, Sparse):
            for c in v.d.values():
                go(c, top)
        elif isinstance(v, Vec):
            for c in v.c:
                go(c, top)
        elif isinstance(v, Obj):
            for k, c in v.f.items():
                if v is o and (k in skip):
                    continue
                go(c, top)
    skip = {k for k, c in o.f.items() if isinstance(c.v, Obj) and c.v.cls in ("factorama::OptimizerSettings", G) or not isinstance(c.v, (Obj, Mat, Sparse, Vec, Poly))}
    skip |= {k for k, c in o.f.items() if isinstance(c.v, bool)}
    go(o, True)
    return n[0]


def stale(it, v):
    bad = []

    def go(x, path):
        if isinstance(x, Cell):
            x = x.v
        if isinstance(x, Poly):
            if al.has_kind(x, "stale"):
                bad.append(path)
        elif isinstance(x, Mat):
            for n, c in enumerate(x.cells):
                go(c, path)
        elif isinstance(x, Obj):
            for k, c in x.f.items():
                go(c, path + "." + k if path else k)
    go(v, "")
    return bad


def histories(m, acc):
    at = loc(m, "estimate_covariance")

    def scenario(name, body, pids=("C18", "C19", "C34"), limit=400, **kw):
        def run(p):
            r = Run(m, p, acc, **kw)
            body(r)
        for p, res, err in I.explore(run, limit):
            if isinstance(err, UB):
                acc.v("C19", "%s: %s" % (name, err.what), "%s: %s" % (name, err), str(err.loc))
            elif err is not None:
                for pid in pids:
                    acc.a(pid, name, str(err))

    def v(r, k=0):
        return r.g.free()[k]

    def steps(r, *names):
        for n in names:
            if n == "optimize":
                r.quiet(r.optimize)
            elif n == "prepare":
                r.quiet(r.prepare)

    for kind, pick in (("null", lambda r: None), ("const", lambda r: next(x for x in r.g.vs if x.tag.const)), ("alien", lambda r: r.w.var(99, 2, False, "alien"))):
        scenario("after preparation", lambda r, pick=pick: (steps(r, "optimize", "prepare"), judge(r, pick(r), "after preparation", "invalid", ("C19",))))
    scenario("before any optimisation", lambda r: judge(r, v(r), "before any optimisation", "invalid", ("C19",)))
    scenario("prepared before any optimisation", lambda r: (r.prepare(), judge(r, v(r), "prepared before any optimisation", "invalid", ("C19",))))
    scenario("not prepared", lambda r: (steps(r, "optimize"), judge(r, v(r), "optimised but not prepared", "invalid", ("C19",))))
    for k in (0, 1):
        scenario("optimised and prepared", lambda r, k=k: (steps(r, "optimize"), r.prepare(), judge(r, v(r, k), "optimised and prepared", "either")), limit=1500)
    for meth, shape in (("LM", SMALL), ("LM", OTHER)):
        scenario("Levenberg-Marquardt, optimised and prepared", lambda r: (steps(r, "optimize"), r.prepare(), judge(r, v(r), "optimised with Levenberg-Marquardt and prepared", "either")), limit=1500, method=meth, shape=shape)
    scenario("Levenberg-Marquardt twice", lambda r: (steps(r, "optimize", "prepare", "optimize"), r.prepare(), judge(r, v(r), "optimised with Levenberg-Marquardt twice and prepared", "either")), limit=1500, method="LM", shape=SMALL)
    scenario("prepared twice", lambda r: (steps(r, "optimize", "prepare"), r.prepare(), judge(r, v(r), "prepared twice", "either")), limit=1500)
    scenario("optimised again", lambda r: (steps(r, "optimize", "prepare", "optimize"), judge(r, v(r), "optimised again after the preparation", "invalid", ("C18", "C19"))))
    scenario("optimised and prepared again", lambda r: (steps(r, "optimize", "prepare", "optimize"), r.prepare(), judge(r, v(r), "optimised and prepared again", "either")), limit=1500)
    scenario("throwing second optimisation", lambda r: (steps(r, "optimize", "prepare"), r.quiet(lambda: r.optimize(True)), judge(r, v(r), "second optimisation threw", "invalid", ("C18", "C19"))))

    def again(r):
        steps(r, "optimize", "prepare")
        r.quiet(lambda: r.optimize(True))
        r.prepare()
        judge(r, v(r), "prepared after a second optimisation threw", "invalid", ("C18", "C19"))
    scenario("prepared after a throwing optimisation", again)

    def newgraph(r, *then, shape=OTHER):
        steps(r, "optimize", "prepare")
        g2 = Graph(m, r.it, r.w, shape)
        if then:
            r.quiet(lambda: g2.call("compute_sparse_jacobian_matrix"))
        st, _ = settings(m, r.it, r.w, "GN", maxit=1)
        r.it.method(r.o, "setup", [g2.o, st])
        r.g = g2
        for t in then:
            t(r)
        judge(r, v(r), "configured with another graph%s" % (" and prepared" if then else ""), "invalid", ("C18", "C19"))
    scenario("another graph", newgraph)
    scenario("another graph, prepared", lambda r: newgraph(r, Run.prepare))
    scenario("another graph of the same shape", lambda r: newgraph(r, shape=SHAPE))
    scenario("another graph of the same shape, prepared", lambda r: newgraph(r, Run.prepare, shape=SHAPE))

    def extended(r, shape=None):
        steps(r, "optimize", "prepare")
        x = r.w.var(1, 2, False, "new")
        r.g.vs.append(x)
        f = r.w.fac(30, 2, [x, r.g.vs[0]])
        r.g.fs.append(f)
        r.g.add_variable(x)
        r.g.add_factor(f)
        r.g.call("finalize_structure")
        for k in range(len(r.g.free())):
            judge(r, v(r, k), "graph extended and finalised again after the preparation", "invalid", ("C18", "C19"))
    scenario("extended graph", extended)

    def swapped(r):
        steps(r, "optimize", "prepare")
        a, b = r.g.vs[1], r.g.vs[2]
        r.it.method(a, "set_constant", [False])
        r.it.method(b, "set_constant", [True])
        r.g.call("finalize_structure")
        judge(r, v(r), "other variables made constant and finalised again after the preparation", "invalid", ("C18", "C19"))
    scenario("constants changed", swapped)

    def freed(r):
        steps(r, "optimize", "prepare")
        a = r.g.vs[1]
        r.it.method(a, "set_constant", [False])
        judge(r, a, "a constant variable made free after the preparation", "invalid", ("C19",))
    scenario("constant made free", freed)

    def unfinished(r):
        steps(r, "optimize", "prepare")
        x = r.w.var(1, 2, False, "new")
        r.g.add_variable(x)
        a = r.g.vs[0]
        try:
            judge(r, a, "graph extended but not finalised after the preparation", "either", ("C19",))
            judge(r, x, "graph extended but not finalised after the preparation", "invalid", ("C19",))
        except Throw:
            pass
    scenario("extended, not finalised", unfinished)

    # fresh start: nothing of an earlier run is left in what is reported
    def fresh(r, settings2=None, policy=None):
        steps(r, "optimize", "prepare")
        n = taint(r.it, r.o)
        acc.i("C18", "second optimisation (%s)" % ("Levenberg-Marquardt" if settings2 else "Gauss-Newton"))
        if settings2:
            st, _ = settings(m, r.it, r.w, settings2, maxit=1)
            r.it.method(r.o, "setup", [r.g.o, st])
        if policy is not None:
            n = [0]

            def choose(k, order=None):
                n[0] += 1
                return (policy[min(n[0], len(policy)) - 1]) % k
            r.p.choose = choose
        r.optimize()
        r.p.choose = r.real
        for part in ("initial_stats_", "current_stats_"):
            acc.o("C18")
            for b in stale(r.it, field(r.o, part)):
                acc.v("C18", "stale %s" % b, "after a second optimisation %s.%s still depends on the first one" % (part, b), loc(m, "optimize"))
        for k, c in r.o.f.items():
            if isinstance(c.v, Obj) and c.v.cls.endswith("Stopwatch"):
                acc.o("C18")
                if stale(r.it, c.v):
                    acc.v("C18", "timer %s" % k, "the time in %s still contains that of the earlier optimisation" % k, loc(m, "optimize"))
    scenario("fresh start", fresh, limit=600)
    # Levenberg-Marquardt has too many traces here: the traces that always, never or now and then take the first alternative
    for k, pol in enumerate(([0], [1], [2], [0, 0, 1, 2, 1, 0, 1, 2, 0, 1, 1], [1, 0, 2, 1, 1, 2], [2, 1, 0, 2, 0, 1])):
        scenario("fresh start LM %d" % k, lambda r, pol=pol: fresh(r, "LM", pol), shape=SMALL)

    def printing(r):
        steps(r, "optimize")
        before = [list(r.w.value(x)) for x in r.g.vs]
        r.it.method(r.o, "print_all_covariances")
        acc.o("C19")
        if before != [list(r.w.value(x)) for x in r.g.vs]:
            acc.v("C19", "printing changes variables", "print_all_covariances changes a variable", loc(m, "print_all_covariances"))
    scenario("printing", printing, shape=SMALL, limit=200)


# ---------------------------------------------------------------------------------------------------------- settings (C27)
FIELDS = {"method": "", "max_num_iterations": "", "step_tolerance": "", "residual_tolerance": "", "initial_lambda": "", "max_lambda": "", "lambda_up_factor": "",
          "lambda_down_factor": "", "learning_rate": "", "verbose": "", "check_rank_deficiency": ""}


def reads(m):
    """settings fields read anywhere in the library"""
    seen = set()
    names = {f["name"] for f, c in m.interp(I.Path([])).fields("factorama::OptimizerSettings")}

    def go(x, write):
        if isinstance(x, dict):
            if x.get("k") == "member" and (x.get("rec") or x.get("cls") or "").endswith("OptimizerSettings"):
                seen.add(x.get("name") or x.get("f"))
            for y in x.values():
                go(y, write)
        elif isinstance(x, list):
            for y in x:
                go(y, write)
    for f in m.F.fn.values():
        if "body" in f and "/src/factorama/" in f.get("file", "") and not (f.get("rec") or "").endswith("OptimizerSettings"):
            go(f["body"], False)
    return names, seen


def options(m, acc):
    at = loc(m, "optimize")
    names, seen = reads(m)
    for n in sorted(names):
        acc.o("C27")
        acc.i("C27", "setting %s" % n)
        if n not in seen:
            acc.v("C27", "setting %s is never read" % n, "no function of the library reads OptimizerSettings::%s" % n, at)
    for meth in ("GN", "LM"):
        limits(m, acc, meth, at)


def limits(m, acc, meth, at):
    long = {"GN": "Gauss-Newton", "LM": "Levenberg-Marquardt"}[meth]
    res = {}
    for k in (0, 1, 2):
        out = []

        def run(p):
            it, w, g, o, mon, S = prepare(m, p, acc, meth, "%s with %d iterations" % (long, k), SMALL, maxit=k)
            mon.judged = {"C27"}
            mon.opt, mon.g, mon.S = o, g, S
            cost = []
            base = it.coeff_hook
            it.coeff_hook = lambda it, n, v: ONE if base(it, n, v) is not None else None      # always well conditioned
            mon.pick = lambda n: (mon.outcomes.append(0), 0)[1]
            mon.begin(it, g, o, S)
            ev = []
            oc = mon.on_compute
            mon.on_compute = lambda *a: (ev.append(len(it.path.signs)), oc(*a))[1]
            rejects = [0]

            def write(o2, meth2, old, new, l):
                if meth2 == "set_value_from_vector":
                    rejects[0] += 1
                    if rejects[0] > 1:
                        raise PathEnd()
                return OC.Monitor.on_write(mon, o2, meth2, old, new, l)
            mon.on_write = write
            it.method(o, "optimize")
            mon.settle(None)
            out.append(((al.CTX, list(it.path.signs.items())), base_names(mon.initial[0].v), ev, mon.steps, status(m, field(o, "current_stats_.status")), it.to_int(field(o, "current_stats_.current_iteration"))))
        for p, r, err in I.explore(run, 1500):
            if err is not None:
                acc.a("C27", "%s, limit %d" % (long, k), str(err))
        res[k] = out
        acc.i("C27", "%s, iteration limit %d, one rejected step at most" % (long, k))
        acc.o("C27", len(out))
        for facts, first, ev, steps, st, itn in out:
            if steps > k or itn > k:
                acc.v("C27", "iteration limit", "%s with a limit of %d iterations takes %d steps (reports %d iterations)" % (long, k, steps, itn), at)
        if out and k and not any(steps == k for facts, first, ev, steps, st, itn in out):
            acc.v("C27", "iteration limit", "%s with a limit of %d iterations never takes %d steps" % (long, k, k), at)
    two = res.get(2) or []
    if not two:
        return
    stopping(acc, two, long, at)


LOW, HIGH = [Fr(1, 1000), Fr(9, 10)], [Fr(11, 10), Fr(1000)]


def stopping(acc, two, long, at):
    """the decisions made between the first step and a second linearisation leave no room for a step or an improvement below
    its tolerance; the decisions before a success after one step leave no room for both being at least their tolerances"""
    cases = [(ts, ks * ts, tr, kr * tr, x) for ts in (Fr(1, 10 ** 9), Fr(1, 2), Fr(1000)) for ks in LOW + HIGH
             for tr in (Fr(1, 10 ** 9), Fr(1, 2), Fr(1000)) for kr in LOW + HIGH for x in (Fr(1), Fr(10 ** 4), Fr(1, 10 ** 4))]
    for name, what in (("step_tolerance", "the length of the step"), ("residual_tolerance", "the improvement of the residual")):
        acc.i("C27", "%s: %s decides whether the iterations go on" % (long, name))
    said = set()
    for facts, first, ev, steps, st, itn in two:
        on = len(ev) > 1
        al.set_ctx(facts[0])
        facts = facts[1]
        if not on and not (st == "SUCCESS" and steps == 1):
            continue
        fx = [(q, v) for n, (q, v) in enumerate(facts) if not on or n < ev[1]]
        fx = [(q, v) for q, v in fx if all(known(x) for x in base_names(q))]
        for ts, step, tr, imp, new in cases:
            low = [n for n, a, b in (("step_tolerance", step, ts), ("residual_tolerance", imp, tr)) if a < b]
            if bool(low) != on:
                continue
            acc.o("C27")
            val = {"set.step_tolerance": ts, "set.residual_tolerance": tr, "set.learning_rate": Fr(1)}
            if not all(agrees(q, v, val, step, new + imp, new, first) for q, v in fx):
                continue
            if on:
                for n in low:
                    if n not in said:
                        said.add(n)
                        a, b, w = (step, ts, "a step of length") if n == "step_tolerance" else (imp, tr, "an improvement of")
                        acc.v("C27", "%s does not stop" % n, "%s: nothing decided before a second iteration rules out %s %g with a %s of %g" % (long, w, a, n.replace("_", " "), b), at)
            elif "early" not in said:
                said.add("early")
                acc.v("C27", "stops too early", "%s: stops with success after one step although nothing decided rules out a step of length %g (tolerance %g) that improves the residual by %g (tolerance %g)" % (long, step, ts, imp, tr), at)


def known(n):
    return n in ("set.step_tolerance", "set.residual_tolerance", "set.learning_rate") or n.startswith("dx.0@") or n.startswith("f4.r0@")


def agrees(q, s, val, step, old, new, first):
    """does the decision `q has sign s` admit these values?"""
    def atom(i):
        a = al.CTX.atoms[i]
        args = [x for x in a.args if isinstance(x, Poly)]
        if a.kind == "sqrt":
            r = al._isqrt(ev(args[0]))
            if r is None:
                raise KeyError(a.name)
            return r
        if args:
            raise KeyError(a.name)
        if a.name in val:
            return val[a.name]
        if a.name.startswith("dx.0@"):
            return step
        if a.name.startswith("f4.r0@"):
            return old if a.name in first else new
        raise KeyError(a.name)

    def ev(p):
        t = Fr(0)
        for m, c in p.t.items():
            x = Fr(c)
            for i, e in m:
                x = x * atom(i) ** e
            t += x
        return t
    try:
        t = ev(q)
    except (KeyError, ZeroDivisionError):
        return False                      # a decision of unknown meaning is taken to rule them out
    return (t > 0) - (t < 0) == s


def base_names(q):
    out, memo = set(), set()

    def go(i):
        if i in memo:
            return
        memo.add(i)
        a = al.CTX.atoms[i]
        args = [x for x in a.args if isinstance(x, Poly)]
        if not args:
            out.add(a.name)
        for x in args:
            for j in x.atoms():
                go(j)
    for i in q.atoms():
        go(i)
    return out


def silent(m, acc):
    """verbosity changes nothing but the printing: each verbose trace is compared with the silent one that decides alike"""
    at = loc(m, "optimize")
    for meth in ("GN", "LM"):
        def once(p, verbose, ctx, replay=None, signs=None):
            it, w, g, o, mon, S = prepare(m, p, acc, meth, "verbosity", SMALL, ctx=ctx, maxit=1, verbose=verbose)
            mon.judged = set()
            mon.opt, mon.g, mon.S = o, g, S
            mon.stepping = True
            if replay is not None:
                mon.replay = list(replay)
                it.path.signs.update(signs)
            ev = []
            mon.on_write = lambda o2, meth2, old, new, l: ev.append((meth2, o2.tag.name, tuple(map(repr_, new))))
            base = it.coeff_hook
            it.coeff_hook = lambda it, n, v: ONE if mon.nd > 1 and base(it, n, v) is not None else base(it, n, v)
            n = [0]

            def cut(so, H, what, l):
                n[0] += 1
                if n[0] > 2:
                    raise PathEnd()
                ev.append(("solve", tuple(sorted((k, repr_(c.v)) for k, c in H.d.items())) if isinstance(H, Sparse) else None))
            mon.on_compute = cut
            it.method(o, "optimize")
            it.method(o, "prepare_to_estimate_covariances")
            st = [(n2, c.v if not isinstance(c.v, Poly) else repr_(c.v)) for n2, c in sorted(field(o, "current_stats_").f.items())]
            return it, mon, ev, st

        def run(p):
            it, mon, ev, st = once(p, True, True)
            acc.o("C27")
            signs, outs = dict(it.path.signs), list(mon.outcomes)
            p2 = I.Path([])

            def no(k, order=None):
                raise Unsupported("the silent trace decides something the verbose one did not")
            p2.choose = no
            it2, mon2, ev2, st2 = once(p2, False, False, outs, signs)
            if ev != ev2 or st != st2:
                acc.v("C27", "verbosity", "with verbose set the optimisation does something else than without it", at)
        bad = 0
        for p, r, err in I.explore(run, 3000):
            if err is not None:
                acc.a("C27", "verbosity, %s" % meth, str(err))
        acc.i("C27", "verbosity, %s" % meth)


def repr_(p):
    return repr(sorted(((tuple((al.CTX.atoms[i].name, e) for i, e in m)), c) for m, c in p.t.items())) if isinstance(p, Poly) else repr(p)
