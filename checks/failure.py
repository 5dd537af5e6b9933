"""C40: an evaluation that fails leaves nothing behind that passes for a result.  C41: the verdict of the Jacobian self test."""
import itertools
from fractions import Fraction as Fr
import algebra as al, interp as I, model as M, stubs
from algebra import C, ZERO, ONE
from interp import Cell, Mat, Obj, Vec, Unsupported, UB, Throw, PathEnd
from graph_checks import SHAPES, Graph, start, gfn, dense, layout, expected, move, G
from small_checks import entries_differ
from var_checks import loc_of

EVALS = ["compute_full_residual_vector", "compute_full_jacobian_matrix", "compute_sparse_jacobian_matrix", "compute_full_jacobian_and_residual",
         "print_jacobian_and_residual"]
ACCESS = [("residual", "residual_valid", "compute_full_residual_vector"), ("jacobian", "jacobian_valid", "compute_full_jacobian_matrix"),
          ("sparse_jacobian", None, "compute_sparse_jacobian_matrix")]


def read(g, what):
    """None when the accessor refuses, else its entries"""
    try:
        x = g.call(what)
    except Throw:
        return None
    if what == "residual":
        return list(g.it.mpolys(x))
    return dense(g.it, x)[2]


def failed_evaluations(shape, e):
    def run(m, acc):
        nf = len(shape[2])
        for prior in (0, 1, 2):
            for how in ["residual %d" % k for k in range(nf)] + ["Jacobian %d" % k for k in range(nf)] + ["misfit %d" % k for k in range(nf)]:
                one(m, acc, shape, e, prior, how)
    return run


FAILED = [failed_evaluations(s, e) for s in SHAPES[:2] + SHAPES[3:4] for e in EVALS]


def one(m, acc, shape, e, prior, how):
    nm = "%s: %s fails (%s) after %d complete evaluations" % (shape[0], e, how, prior)

    def run(p):
        it, w = start(m, p)
        g = Graph(m, it, w, shape)
        lay, msg, _ = layout(g)
        if lay is None:
            raise PathEnd()        # C13's business
        for k in range(prior):
            for x in EVALS[:3]:
                g.call(x)
            if k + 1 < prior:
                move(g, "'" * (k + 1))
        good = [expected(g, *lay)] if prior else []
        move(g, "*")
        kind, k = how.split()
        if kind == "misfit":
            f = g.fs[int(k)]
            vi = next((i for i, v in enumerate(f.tag.vs) if not v.tag.const), None)
            if vi is None:
                raise PathEnd()
            f.tag.bad = (vi, f.tag.rows + 1, f.tag.vs[vi].tag.dim)
        else:
            meth = "compute_residual" if kind == "residual" else "compute_jacobians"
            w.thrower = (meth, w.n.get(meth, 0) + 1 + int(k))
        before = [list(w.value(v)) for v in g.vs]
        vals = [(list(w.value(v)), v.tag.const) for v in g.vs]
        try:
            g.call(e)
        except Throw:
            pass
        else:
            if kind != "misfit":
                used = any(x[0] == "throw" for x in w.log)
                if not used:
                    raise PathEnd()        # this evaluation does not call the failing one
                acc.o("C40")
                acc.v("C40", "%s swallows" % e, "%s: the exception of the factor is swallowed" % nm, gfn(m, e))
                return
            raise PathEnd()
        w.thrower = None
        for f in g.fs:
            f.tag.bad = None
        acc.i("C40", nm)
        now = expected(g, *lay)
        acc.o("C40", len(g.vs))
        if before != [list(w.value(v)) for v in g.vs]:
            acc.v("C40", "%s moves variables" % e, "%s: a variable is changed" % nm, gfn(m, e))
        for a, flag, fn in ACCESS:
            acc.o("C40")
            x = read(g, a)
            if flag:
                acc.o("C40")
                if g.call(flag) is not (x is not None):
                    acc.v("C40", "%s() contradicts %s()" % (flag, a), "%s: %s() is %s, but %s() %s" % (nm, flag, x is None, a, "throws" if x is None else "returns"), gfn(m, flag))
            if x is None:
                continue
            allowed = [s[0 if a == "residual" else 1] for s in good + [now]]
            if not any(same(x, y) for y in allowed):
                acc.v("C40", "%s() after a failed %s" % (a, e), "%s: %s() then returns a mixture of results of different evaluations instead of throwing" % (nm, a), gfn(m, a))
        move(g, "+")
        R, J = expected(g, *lay)
        for a, flag, fn in ACCESS:
            acc.o("C40", 2)
            r = g.call(fn)
            x = list(it.mpolys(r)) if a == "residual" else dense(it, r)[2]
            want = R if a == "residual" else J
            if not same(x, want):
                acc.v("C40", "%s after a failed %s" % (fn, e), "%s: the next successful %s gives another result than on a fresh graph" % (nm, fn), gfn(m, fn))
            elif not same(read(g, a) or [], want):
                acc.v("C40", "%s() after a failed %s and a complete evaluation" % (a, e), "%s: %s() does not return the result of the next successful evaluation" % (nm, a), gfn(m, a))
    for p, r, err in I.explore(run, 20):
        if isinstance(err, Throw):
            acc.v("C40", "evaluation after a failed %s" % e, "%s: a later valid call throws at %s" % (nm, err.loc), str(err.loc))
        elif isinstance(err, UB):
            acc.v("C40", err.what, "%s: %s" % (nm, err), str(err.loc))
        elif isinstance(err, (Unsupported, al.TooBig)):
            acc.a("C40", nm, str(err))


def same(x, y):
    return len(x) == len(y) and all(same(a, b) if isinstance(a, list) else a == b for a, b in zip(x, y))


def numeric_failures(m, acc):
    """the differencing helper when the factor or the variable throws at any of its calls"""
    fs = [f for f in m.F.fn.values() if f["name"] == "ComputeNumericalJacobians" and "body" in f]
    if not fs:
        acc.a("C40", "ComputeNumericalJacobians", "no instantiation found")
        return
    gen = [f for f in fs if f["params"] and f["params"][0]["t"].get("n") == M.FAC] or fs[:1]
    for f in gen:
        loc = loc_of(f)
        for ds, consts in (((2, 1), (False, False)), ((1, 3), (True, False)), ((2,), (False,))):
            for nth in range(1, 2 + 2 * sum(d for d, c in zip(ds, consts) if not c)):
                nm = "numerical differentiation of sizes %s, evaluation %d throws" % (list(ds), nth)

                def run(p):
                    al.set_ctx(al.Ctx())
                    it = m.interp(p)
                    w = stubs.World(it, quad=True)
                    vs = [w.var(10 + k, d, c) for k, (d, c) in enumerate(zip(ds, consts))]
                    fac = w.fac(3, 2, vs)
                    w.thrower = ("compute_residual", nth)
                    before = [list(w.value(v)) for v in vs]
                    args = [Cell(fac), Cell(Vec([], "Eigen::Matrix<double,-1,-1>"))] + ([Cell(M.latom("eps", pos=True))] if len(f["params"]) > 2 else [])
                    acc.i("C40", nm)
                    acc.o("C40", 1 + len(vs))
                    try:
                        it.call(f, None, it.with_defaults(f, args))
                    except Throw:
                        for v, b in zip(vs, before):
                            if entries_differ(w.value(v), b) is True:
                                acc.v("C40", "perturbed variable", "%s: variable %s stays perturbed (%s)" % (nm, v.tag.name, [al.pstr(x, 4) for x in w.value(v)]), loc)
                        return
                    if any(x[0] == "throw" for x in w.log):
                        acc.v("C40", "swallowed exception", "%s: the exception is swallowed" % nm, loc)
                for p, r, err in I.explore(run, 20):
                    if isinstance(err, UB):
                        acc.v("C40", err.what, "%s: %s" % (nm, err), str(err.loc))
                    elif isinstance(err, (Unsupported, al.TooBig)):
                        acc.a("C40", nm, str(err))


# ---------------------------------------------------------------------------------------------- C41
class TestWorld(stubs.World):
    """linear factors with known coefficients; the analytic block differs from them by the entries of `delta`"""

    def __init__(self, it, scale):
        super().__init__(it)
        self.scale, self.delta = scale, {}
        self.lists = {}

    def coef(self, d, vi, r, c):
        k = (sum(map(ord, d.name)) * 7 + vi * 5 + r * 3 + c * 2) % 7 - 3
        if r == 0 and c == 0:
            k = 4 if vi % 2 else -4
        return Fr(k, 4) * self.scale

    def residual(self, d):
        out = []
        for r in range(d.rows):
            p = M.latom("%s.c%d" % (d.name, r))
            for vi, v in enumerate(d.vs):
                for c, x in enumerate(self.value(v)):
                    p = p + x.scale(self.coef(d, vi, r, c))
            out.append(p)
        return out

    def jac(self, d, vi, r, c):
        return C(self.coef(d, vi, r, c)) + self.delta.get((d.name, vi, r, c), ZERO)

    def faccall(self, it, o, d, m, cells, loc):
        r = super().faccall(it, o, d, m, cells, loc)
        if m == "compute_jacobians" and d.name in self.lists:
            self.lists[d.name](it, cells[0].v)
        return r


def bounds(path, x):
    """interval of the unknown x implied by the comparisons taken, and whether it is all there is to know about it"""
    lo, hi, ok = None, None, True
    facts = list(path.facts) + [(q, {1: ">", -1: "<", 0: "=="}[v]) for q, v in path.signs.items()]
    (ax,) = x.atoms()
    for q, op in facts:
        at = set(q.atoms())
        if ax not in at:
            continue
        if at != {ax} or set(q.t) - {((ax, 1),), ()}:
            ok = False
            continue
        a, b = q.t[((ax, 1),)], q.t.get((), Fr(0))
        z = -b / a
        if a < 0:
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if op in (">", ">=", "==") and (lo is None or z > lo):
            lo = z
        if op in ("<", "<=", "==") and (hi is None or z < hi):
            hi = z
        if op == "!=":
            ok = False
    return lo, hi, ok


def self_test(m, acc):
    shape = ("two factors", [(4, 2, False), (7, 1, True), (9, 1, False)], [(1, 2, (0, 1)), (2, 1, (2, 0)), (3, 2, (1, 2))])
    loc = gfn(m, "detailed_factor_test")
    for verbose in (False, True):
        for scale, tol in ((1, Fr(1, 1000)), (1000, Fr(1, 50)), (1, Fr(1, 4)), (Fr(1, 1000), Fr(1, 100))):
            T = max(Fr(1, 100), scale * tol)
            for f, vi, r, c in [(0, 0, 0, 0), (0, 0, 1, 1), (1, 0, 0, 0), (1, 1, 0, 1), (2, 1, 1, 0), (0, 0, 0, 1)]:
                for other in (0, 1, -1):
                    if verbose and other:
                        continue
                    symbolic(m, acc, shape, loc, verbose, scale, tol, T, f, vi, r, c, other)
        misshapes(m, acc, shape, loc, verbose)


def world(m, p, scale):
    al.set_ctx(al.Ctx())
    it = m.interp(p)
    it.exact_signs = True
    it.nan_mode = True
    return it, TestWorld(it, scale)


def call(g, tol, verbose):
    v = [list(g.w.value(x)) for x in g.vs]
    r = g.call("detailed_factor_test", C(tol), verbose)
    return r, v == [[al.cancel(y) for y in g.w.value(x)] for x in g.vs]


def symbolic(m, acc, shape, loc, verbose, scale, tol, T, f, vi, r, c, other):
    nm = "block %d of factor %d off by d in entry (%d,%d)%s, tolerance %s, greatest entry %s%s" % (
        vi, f, r, c, {0: "", 1: ", by 0.6 of the tolerance in the others", -1: ", by -0.6 of the tolerance in the others"}[other], tol, scale, ", verbose" if verbose else "")

    def run(p):
        it, w = world(m, p, scale)
        g = Graph(m, it, w, shape)
        d = al.sym("d")
        fd = g.fs[f].tag
        if other:
            for k in range(fd.rows):
                for j in range(fd.vs[vi].tag.dim):
                    w.delta[(fd.name, vi, k, j)] = C(T * Fr(3, 5) * other)
        w.delta[(fd.name, vi, r, c)] = d
        acc.i("C41", nm)
        res, kept = call(g, tol, verbose)
        acc.o("C41", 2)
        if not kept:
            acc.v("C41", "variables", "%s: the test changes a variable" % nm, loc)
        if not isinstance(res, bool):
            raise Unsupported("verdict is not decided")
        lo, hi, ok = bounds(p, d)
        if not ok:
            raise Unsupported("comparisons not understood")
        eps = T / 10 ** 6
        if res and (lo is None or hi is None or lo < -T - eps or hi > T + eps):
            acc.v("C41", "passes a wrong Jacobian", "%s: the test passes for d between %s and %s although only |d| < %s is within the tolerance [%s]" % (
                nm, fl(lo), fl(hi), fl(T), "; ".join(p.log)), loc)
        # the region of failure must not meet the tolerance
        if not res and (hi is None or hi > -T + eps) and (lo is None or lo < T - eps):
            acc.v("C41", "fails a right Jacobian", "%s: the test fails for d between %s and %s although |d| < %s is within the tolerance [%s]" % (
                nm, fl(lo), fl(hi), fl(T), "; ".join(p.log)), loc)
    n = [0, 0]
    for p, res, err in I.explore(run, 60):
        report(acc, nm, err)


def fl(x):
    return "-" if x is None else "%g" % float(x)


def report(acc, nm, err):
    if isinstance(err, Throw):
        acc.v("C41", "throws", "%s: the test throws at %s" % (nm, err.loc), str(err.loc))
    elif isinstance(err, UB):
        acc.v("C41", err.what, "%s: %s" % (nm, err), str(err.loc))
    elif isinstance(err, (Unsupported, al.TooBig)):
        acc.a("C41", nm, str(err))


def misshapes(m, acc, shape, loc, verbose):
    dt = "Eigen::Matrix<double,-1,-1>"

    def new(it, r, c, x=ZERO):
        return Cell(it.newmat(r, c, [x] * (r * c), -1, -1))
    cases = [("nothing wrong", None, 0, True)]
    for f in range(3):
        vs = shape[2][f][2]
        rows = shape[2][f][1]
        cases.append(("the last block of factor %d missing" % f, lambda it, v: v.c.pop(), f, False))
        cases.append(("an extra block of factor %d" % f, lambda it, v: v.c.append(new(it, 0, 0)), f, False))
        cases.append(("no blocks of factor %d" % f, lambda it, v: v.c.__delitem__(slice(None)), f, False))
        for k, vi in enumerate(vs):
            dim, const = shape[1][vi][1:]

            def put(k, r, c, x=ZERO):
                return lambda it, v: v.c.__setitem__(k, new(it, r, c, x))
            if const:
                cases.append(("block %d of factor %d not empty for a constant variable" % (k, f), put(k, rows, dim), f, False))
                continue
            cases.append(("block %d of factor %d empty" % (k, f), put(k, 0, 0), f, False))
            cases.append(("block %d of factor %d with a row too many" % (k, f), put(k, rows + 1, dim), f, False))
            cases.append(("block %d of factor %d with a column too many" % (k, f), put(k, rows, dim + 1), f, False))
            if rows != dim:
                cases.append(("block %d of factor %d transposed" % (k, f), put(k, dim, rows), f, False))
            for pos in range(rows * dim):
                for what in ("nan", "infinity"):
                    def bad(it, v, k=k, pos=pos, what=what):
                        if what == "nan":
                            x = al.sym("nan", kind="nonfinite")
                        else:
                            x = al.CTX.__dict__.setdefault("nonfinite", {}).setdefault("infinity", al.sym("infinity", kind="nonfinite"))
                        v.c[k].v.cells[pos].v = x
                    cases.append(("%s in entry %d of block %d of factor %d" % (what, pos, k, f), bad, f, False))
    for what, change, f, want in cases:
        nm = what + (", verbose" if verbose else "")

        def run(p):
            it, w = world(m, p, 1)
            g = Graph(m, it, w, shape)
            if change:
                w.lists[g.fs[f].tag.name] = change
            acc.i("C41", nm)
            acc.o("C41")
            res, kept = call(g, Fr(1, 100), verbose)
            if not isinstance(res, bool):
                raise Unsupported("verdict is not decided")
            if res is not want:
                acc.v("C41", what.split(" of ")[0], "%s: the test %s" % (nm, "passes" if res else "fails"), loc)
        for p, res, err in I.explore(run, 30):
            report(acc, nm, err)
