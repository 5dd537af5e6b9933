"""Obligations on FactorGraph, analysed against canonical variables and factors (stubs.py): placement (C13), lengths (C10),
structure typestate and caches (C11), identifiers (C12), constants (C14), observers (C06)."""
import itertools
import algebra as al, interp as I, model as M, stubs
from algebra import C, ZERO, ONE
from interp import Cell, Mat, Obj, Vec, Map, Sparse, Unsupported, UB, Throw, PathEnd
from small_checks import entries_differ, guard
from var_checks import loc_of

G = "factorama::FactorGraph"

# (variables: id, size, constant), (factors: id, rows, variable indices)
SHAPES = [
    ("four variables, one constant, factors out of order",
     [(40, 2, False), (7, 3, True), (22, 1, False), (3, 3, False)],
     [(11, 2, (0,)), (5, 1, (0, 2)), (0, 3, (2, 1, 3)), (2, 2, (3, 0))]),
    ("constant first and last, a factor on constants only",
     [(9, 2, True), (4, 2, False), (8, 1, True)],
     [(1, 3, (1, 0)), (0, 1, (0, 2)), (6, 2, (2, 1))]),
    ("one variable, ids equal positions", [(0, 3, False)], [(0, 1, (0,)), (1, 3, (0,))]),
    ("same sizes, reversed ids", [(2, 2, False), (1, 2, False), (0, 2, False)], [(3, 2, (2, 1)), (2, 2, (1, 0)), (1, 2, (0,)), (0, 1, (2,))]),
    ("a variable no factor mentions, all others constant but one", [(5, 1, False), (6, 2, True), (7, 1, False)], [(8, 2, (0, 1)), (9, 3, (1,))]),
    ("identifiers of every magnitude and sign", [(70005, 2, False), (-1, 1, False), (4469, 3, True), (2000000000, 2, False)],
     [(-7, 2, (0, 3)), (65529, 2, (1, 2)), (2000000000, 3, (3, 1)), (-2000000000, 1, (0,))]),
]
TINY = ("one free and one constant scalar", [(3, 1, False), (4, 1, True)], [(5, 1, (1, 0))])


class Graph:
    def __init__(self, m, it, w, shape, finalize=True):
        self.m, self.it, self.w = m, it, w
        _, vs, fs = shape
        self.vs = [w.var(i, d, c) for i, d, c in vs]
        self.fs = [w.fac(i, r, [self.vs[k] for k in ks]) for i, r, ks in fs]
        self.o = Obj(G)
        it.run_ctor_default(G, self.o)
        for v in self.vs:
            self.add_variable(v)
        for f in self.fs:
            self.add_factor(f)
        if finalize:
            self.call("finalize_structure")

    def call(self, name, *args):
        return self.it.method(self.o, name, list(args))

    def add_variable(self, v):
        self.call("add_variable", v)

    def add_factor(self, f):
        self.call("add_factor", f)

    def throws(self, name, *args):
        try:
            self.call(name, *args)
            return False
        except Throw:
            return True

    def vec(self, x):
        return self.it.newmat(len(x), 1, list(x), -1, 1)

    def placement(self, kind, i):
        c = Cell(False)
        r = self.it.method(self.o, kind + "_placement", [i, c])
        return r, c.v

    def free(self):
        return [v for v in self.vs if not v.tag.const]

    def total(self):
        return sum(v.tag.dim for v in self.free())

    def rows(self):
        return sum(f.tag.rows for f in self.fs)


def start(m, p, rev=False):
    al.set_ctx(al.Ctx())
    it = m.interp(p)
    it.map_reverse = rev
    return it, stubs.World(it)


def gfn(m, name):
    fs = [f for f in m.F.methods(G, name) if "body" in f]
    return loc_of(fs[0]) if fs else G


def dense(it, s):
    if isinstance(s, Sparse):
        return s.rows, s.cols, [[s.d[(i, j)].v if (i, j) in s.d else ZERO for j in range(s.cols)] for i in range(s.rows)]
    e = it.mpolys(s)
    return s.rows, s.cols, [e[i * s.cols:(i + 1) * s.cols] for i in range(s.rows)]


def layout(g):
    """row of every factor and column of every free variable as the placement queries report them; None with a reason"""
    cols, rows = {}, {}
    used = {}
    n = g.it.to_int(g.call("num_values"))
    mrows = g.it.to_int(g.call("num_residuals"))
    if n != g.total():
        return None, "num_values() is %d, the non-constant variables have %d components" % (n, g.total()), "num_values"
    if mrows != g.rows():
        return None, "num_residuals() is %d, the factors have %d rows" % (mrows, g.rows()), "num_residuals"
    for v in g.vs:
        r, ok = g.placement("variable", v.tag.id)
        if not ok:
            return None, "variable %s has no placement" % v.tag.name, "variable_placement"
        k, d = g.it.to_int(r.f["index"].v), g.it.to_int(r.f["dim"].v)
        if r.f["variable"].v is not v:
            return None, "the placement for the id of %s refers to another variable" % v.tag.name, "variable_placement"
        if v.tag.const:
            if d != 0:
                return None, "constant variable %s occupies %d columns" % (v.tag.name, d), "variable_placement"
            continue
        if d != v.tag.dim or k < 0 or k + d > n:
            return None, "variable %s of size %d is placed at column %d with dimension %d" % (v.tag.name, v.tag.dim, k, d), "variable_placement"
        for c in range(k, k + d):
            if c in used:
                return None, "column %d belongs to %s and %s" % (c, used[c], v.tag.name), "variable_placement"
            used[c] = v.tag.name
        cols[v.tag.id] = k
    used = {}
    for f in g.fs:
        r, ok = g.placement("factor", f.tag.id)
        if not ok:
            return None, "factor with id %s has no placement" % f.tag.id, "factor_placement"
        if r.f["factor"].v is not f:
            return None, "the placement for factor id %s refers to another factor" % f.tag.id, "factor_placement"
        k, d = g.it.to_int(r.f["residual_index"].v), g.it.to_int(r.f["residual_dim"].v)
        if d != f.tag.rows or k < 0 or k + d > mrows:
            return None, "factor %s with %d rows is placed at row %d with %d rows" % (f.tag.name, f.tag.rows, k, d), "factor_placement"
        for c in range(k, k + d):
            if c in used:
                return None, "row %d belongs to %s and %s" % (c, used[c], f.tag.name), "factor_placement"
            used[c] = f.tag.name
        rows[f.tag.id] = k
    return (rows, cols), None, None


def expected(g, rows, cols):
    n, mr = g.total(), g.rows()
    R = [None] * mr
    J = [[ZERO] * n for _ in range(mr)]
    for f in g.fs:
        b = rows[f.tag.id]
        for r, x in enumerate(g.w.residual(f.tag)):
            R[b + r] = x
        for vi, v in enumerate(f.tag.vs):
            if v.tag.const:
                continue
            for r in range(f.tag.rows):
                for c in range(v.tag.dim):
                    J[b + r][cols[v.tag.id] + c] = g.w.jac(f.tag, vi, r, c)
    return R, J


def move(g, tag):
    for v in g.vs:
        for k, c in enumerate(v.tag.val.cells):
            c.v = M.latom("%s[%d]%s" % (v.tag.name, k, tag))


def judge(acc, m, g, nm, what, got, J, loc, pid="C13"):
    r, c, e = got
    acc.o(pid)
    if (r, c) != (len(J), len(J[0]) if J else 0):
        acc.v(pid, what + " shape", "%s: the %s is %dx%d instead of %dx%d" % (nm, what, r, c, len(J), len(J[0]) if J else 0), loc)
        return
    for i in range(r):
        for j in range(c):
            acc.o(pid)
            if e[i][j] != J[i][j]:
                acc.v(pid, what + " entries", "%s: entry (%d,%d) of the %s is %s instead of %s" % (nm, i, j, what, al.pstr(e[i][j], 3), al.pstr(J[i][j], 3)), loc)


def placement(m, acc):
    for shape in SHAPES:
        for rev, zeros in ((False, False), (True, False), (False, True)):
            for order in ("dense first", "sparse first"):
                nm = "%s (%s, %s map order%s)" % (shape[0], order, "reversed" if rev else "insertion", ", alternating zeros" if zeros else "")

                def run(p):
                    it, w = start(m, p, rev)
                    w.zeros = zeros
                    g = Graph(m, it, w, shape)
                    acc.i("C13", nm)
                    lay, msg, where_ = layout(g)
                    acc.o("C13", 2 + len(g.vs) + len(g.fs))
                    if lay is None:
                        acc.v("C13", "%s" % where_, "%s: %s" % (nm, msg), gfn(m, where_))
                        return
                    rows, cols = lay
                    for rnd in range(3):
                        R, J = expected(g, rows, cols)
                        for step in (("d", "r", "s") if order == "dense first" else ("s", "r", "d")):
                            if step == "d":
                                judge(acc, m, g, nm + ", evaluation %d" % (rnd + 1), "dense Jacobian", dense(it, g.call("compute_full_jacobian_matrix")), J, gfn(m, "compute_full_jacobian_matrix"))
                                judge(acc, m, g, nm, "dense Jacobian accessor", dense(it, g.call("jacobian")), J, gfn(m, "jacobian"))
                            elif step == "s":
                                judge(acc, m, g, nm + ", evaluation %d" % (rnd + 1), "sparse Jacobian", dense(it, g.call("compute_sparse_jacobian_matrix")), J, gfn(m, "compute_sparse_jacobian_matrix"))
                                judge(acc, m, g, nm, "sparse Jacobian accessor", dense(it, g.call("sparse_jacobian")), J, gfn(m, "sparse_jacobian"))
                            else:
                                a = it.mpolys(g.call("compute_full_residual_vector"))
                                b = it.mpolys(g.call("residual"))
                                acc.o("C13", 2)
                                for x, what in ((a, "residual vector"), (b, "residual accessor")):
                                    if list(x) != R:
                                        acc.v("C13", what, "%s: the %s is %s instead of %s" % (nm, what, [al.pstr(y, 2) for y in x], [al.pstr(y, 2) for y in R]), gfn(m, "compute_full_residual_vector"))
                                for n in (0, len(R), len(R) + 2):
                                    buf = g.vec([M.latom("old%d" % k, kind="uninit") for k in range(n)])
                                    g.call("compute_full_residual_vector", buf)
                                    acc.o("C13")
                                    if list(it.mpolys(buf)) != R:
                                        acc.v("C13", "residual into buffer", "%s: with a buffer of %d entries the residual is %s instead of %s" % (nm, n, [al.pstr(y, 2) for y in it.mpolys(buf)], [al.pstr(y, 2) for y in R]), gfn(m, "compute_full_residual_vector"))
                        if rnd == 2:
                            continue
                        move(g, "'" * (rnd + 1))
                        if rnd == 1:
                            # the joint evaluation after a move, with nothing evaluated at the new state before it
                            R, J = expected(g, rows, cols)
                            g.call("compute_full_jacobian_and_residual")
                            judge(acc, m, g, nm, "dense Jacobian (joint evaluation)", dense(it, g.call("jacobian")), J, gfn(m, "compute_full_jacobian_and_residual"))
                            acc.o("C13")
                            if list(it.mpolys(g.call("residual"))) != R:
                                acc.v("C13", "residual (joint evaluation)", "%s: the joint evaluation leaves another residual" % nm, gfn(m, "compute_full_jacobian_and_residual"))
                    # vector views
                    x = it.mpolys(g.call("get_variable_vector"))
                    acc.o("C13")
                    if len(x) != g.total():
                        acc.v("C13", "get_variable_vector size", "%s: %d entries instead of %d" % (nm, len(x), g.total()), gfn(m, "get_variable_vector"))
                        return
                    for v in g.free():
                        k = cols[v.tag.id]
                        acc.o("C13")
                        if list(x[k:k + v.tag.dim]) != g.w.value(v):
                            acc.v("C13", "get_variable_vector", "%s: the entries of variable %s are not at its columns" % (nm, v.tag.name), gfn(m, "get_variable_vector"))
                    for meth, inc in (("apply_increment", True), ("set_variable_values_from_vector", False)):
                        before = {v.tag.id: list(g.w.value(v)) for v in g.vs}
                        y = [M.latom("%s%d" % (meth[:3], k)) for k in range(g.total())]
                        g.call(meth, g.vec(y))
                        for v in g.vs:
                            acc.o("C13")
                            now = g.w.value(v)
                            if v.tag.const:
                                want = before[v.tag.id]
                            else:
                                k = cols[v.tag.id]
                                want = [a + b for a, b in zip(before[v.tag.id], y[k:])] if inc else y[k:k + v.tag.dim]
                            if list(now) != list(want):
                                acc.v("C13", meth, "%s: variable %s becomes %s instead of %s" % (nm, v.tag.name, [al.pstr(q, 3) for q in now], [al.pstr(q, 3) for q in want]), gfn(m, meth))
                guard(acc, "C13", nm, gfn(m, "compute_full_jacobian_matrix"), run)
    misfits(m, acc)


def misfits(m, acc):
    """a factor whose block does not fit: dense and sparse evaluation must throw"""
    for shape in SHAPES[:2] + SHAPES[3:4]:
        _, vs, fs = shape
        for fi, (fid, rows, ks) in enumerate(fs):
            for vi, k in enumerate(ks):
                d, const = vs[k][1], vs[k][2]
                bads = [(rows, d), (rows, 1)] if const else [(rows + 1, d), (rows, d + 1), (0, 0), (d, rows) if d != rows else (rows, d + 2)]
                if not const and rows > 1:
                    bads.append((rows - 1, d))
                if not const and d > 1:
                    bads.append((rows, d - 1))
                for bad in bads:
                    for meth in ("compute_full_jacobian_matrix", "compute_sparse_jacobian_matrix"):
                        for prior in (False, True):
                            nm = "%s with a %dx%d block of factor %d for a %s variable of size %d%s" % (meth, bad[0], bad[1], fi, "constant" if const else "free", d, ", second evaluation" if prior else "")

                            def run(p):
                                it, w = start(m, p)
                                g = Graph(m, it, w, shape)
                                if prior:
                                    g.call(meth)
                                g.fs[fi].tag.bad = (vi,) + bad
                                acc.i("C13", "misfitting blocks")
                                acc.o("C13")
                                try:
                                    g.call(meth)
                                except Throw:
                                    return
                                acc.v("C13", "%s misfit" % meth, "%s: no exception" % nm, gfn(m, meth))
                            for p, r, err in I.explore(run, 20):
                                if isinstance(err, UB):
                                    acc.v("C13", "%s misfit" % meth, "%s: %s" % (nm, err), str(err.loc))
                                elif isinstance(err, (Unsupported, al.TooBig)):
                                    acc.a("C13", nm, str(err))


# ---------------------------------------------------------------------------------------------- C10
def lengths(m, acc):
    for shape in SHAPES:
        for meth in ("apply_increment", "set_variable_values_from_vector"):
            n = sum(d for _, d, c in shape[1] if not c)
            allc = sum(d for _, d, c in shape[1])
            for k in sorted({0, max(0, n - 1), n + 1, n + 3, allc} - {n}):
                nm = "%s with %d entries instead of %d (%s)" % (meth, k, n, shape[0])

                def run(p):
                    it, w = start(m, p)
                    g = Graph(m, it, w, shape)
                    before = [list(w.value(v)) for v in g.vs]
                    acc.i("C10", nm)
                    acc.o("C10", 2)
                    try:
                        g.call(meth, g.vec([M.latom("x%d" % i) for i in range(k)]))
                    except Throw:
                        if before != [list(w.value(v)) for v in g.vs]:
                            acc.v("C10", "%s modifies" % meth, "%s throws after modifying a variable" % nm, gfn(m, meth))
                        return
                    except UB as u:
                        acc.v("C10", "%s length" % meth, "%s is not rejected: %s" % (nm, u), gfn(m, meth))
                        return
                    acc.v("C10", "%s length" % meth, "%s is not rejected" % nm, gfn(m, meth))
                guard(acc, "C10", nm, gfn(m, meth), run)


# ---------------------------------------------------------------------------------------------- C11
EVAL = ["compute_full_residual_vector", "compute_full_residual_vector(buffer)", "compute_full_jacobian_matrix", "compute_sparse_jacobian_matrix",
        "compute_full_jacobian_and_residual", "apply_increment", "print_structure", "detailed_factor_test", "print_jacobian_and_residual"]
CACHED = ["jacobian", "sparse_jacobian", "residual"]
VALID = ["jacobian_valid", "residual_valid"]


def invoke(g, name):
    if name == "compute_full_residual_vector(buffer)":
        return g.call("compute_full_residual_vector", g.vec([]))
    if name == "apply_increment":
        n = g.it.to_int(g.call("num_values"))
        return g.call(name, g.vec([M.latom("inc%d" % k) for k in range(n)]))
    if name == "detailed_factor_test":
        return g.call(name, al.C(1))
    return g.call(name)


def compute_all(g):
    for n in ("compute_full_residual_vector", "compute_full_jacobian_matrix", "compute_sparse_jacobian_matrix"):
        g.call(n)


# histories that must leave the graph without a usable structure
def h_new(g):
    pass


def h_add_variable(g):
    g.call("finalize_structure")
    compute_all(g)
    g.add_variable(g.w.var(77, 1, True))


def h_add_factor(g):
    g.call("finalize_structure")
    compute_all(g)
    g.add_factor(g.w.fac(78, 1, [g.vs[0]]))


def h_add_factor_unevaluated(g):
    g.call("finalize_structure")
    g.add_factor(g.w.fac(78, 1, [g.vs[0]]))


def h_underdetermined(g):
    g.add_variable(g.w.var(79, 40, False))
    must_throw(g)


def h_unknown(g):
    g.add_factor(g.w.fac(80, 1, [g.w.var(81, 1, False)]))
    must_throw(g)


def h_null(g):
    g.add_factor(g.w.fac(82, 1, [None]))
    must_throw(g)


def h_good_then_underdetermined(g):
    g.call("finalize_structure")
    compute_all(g)
    g.add_variable(g.w.var(79, 40, False))
    must_throw(g)


def h_good_then_freed(g):
    g.call("finalize_structure")
    compute_all(g)
    big = g.w.var(83, 40, True)
    g.add_variable(big)
    g.call("finalize_structure")
    compute_all(g)
    big.tag.const = False
    must_throw(g)


def h_good_then_unknown(g):
    g.call("finalize_structure")
    g.add_factor(g.w.fac(80, 1, [g.w.var(81, 1, False)]))
    must_throw(g)


class NotRejected(Exception):
    pass


def must_throw(g):
    try:
        g.call("finalize_structure")
    except Throw:
        return
    raise NotRejected()


HIST = [("never finalised", h_new), ("a variable added after finalising", h_add_variable), ("a factor added after finalising", h_add_factor),
        ("a factor added after finalising, nothing evaluated before", h_add_factor_unevaluated),
        ("finalising an underdetermined graph failed", h_underdetermined), ("finalising with an unknown variable failed", h_unknown),
        ("finalising with a null variable failed", h_null),
        ("finalised, then finalising an underdetermined extension failed", h_good_then_underdetermined),
        ("finalised, a variable freed, finalising again failed", h_good_then_freed),
        ("finalised, then finalising with an unknown variable failed", h_good_then_unknown)]


def structure(m, acc):
    for shape in SHAPES[:1] + SHAPES[3:4]:
        for hn, h in HIST:
            for e in EVAL:
                nm = "%s after: %s" % (e, hn)

                def run(p):
                    it, w = start(m, p)
                    g = Graph(m, it, w, shape, finalize=False)
                    try:
                        h(g)
                    except NotRejected:
                        acc.o("C11")
                        acc.v("C11", "failed finalisation: %s" % hn, "finalize_structure() does not throw although %s" % hn, gfn(m, "finalize_structure"))
                        return
                    except Throw as t:
                        acc.v("C11", "history: %s" % hn, "a valid step of the history '%s' throws at %s" % (hn, t.loc), str(t.loc))
                        return
                    acc.i("C11", nm)
                    acc.o("C11")
                    try:
                        invoke(g, e)
                    except Throw:
                        return
                    except UB as u:
                        acc.v("C11", "%s without structure" % e, "%s is not rejected: %s" % (nm, u), gfn(m, e.split("(")[0]))
                        return
                    acc.v("C11", "%s without structure" % e, "%s is not rejected" % nm, gfn(m, e.split("(")[0]))
                for p, r, err in I.explore(run, 20):
                    if isinstance(err, UB):
                        acc.v("C11", "history: %s" % hn, "%s: %s" % (hn, err), str(err.loc))
                    elif isinstance(err, (Unsupported, al.TooBig)):
                        acc.a("C11", nm, str(err))
    refinalise(m, acc)


def c_free(g):
    k = next((v for v in g.vs if v.tag.const), None)
    if k is None:
        raise PathEnd()
    k.tag.const = False
    g.add_factor(g.w.fac(90, k.tag.dim, [k]))


def c_fix(g):
    g.free()[0].tag.const = True


def c_grow(g):
    v = g.w.var(91, 2, False)
    g.add_variable(v)
    g.add_factor(g.w.fac(92, 3, [v, g.vs[0]]))


def c_swap(g):
    """same shapes, other variables: sizes of all caches stay the same"""
    a = next((v for v in g.vs if not v.tag.const), None)
    b = next((v for v in g.vs if v.tag.const and v.tag.dim == a.tag.dim), None)
    if b is None:
        raise PathEnd()
    a.tag.const, b.tag.const = True, False


def c_none(g):
    pass


CHANGES = [("a variable freed", c_free), ("a variable held constant", c_fix), ("a variable and a factor added", c_grow), ("two variables exchange constness", c_swap), ("nothing", c_none)]
SWAP = ("two variables of equal size, one constant", [(4, 2, False), (5, 2, True), (6, 1, False)], [(1, 2, (0, 1)), (2, 3, (1, 2)), (3, 2, (2, 0))])


def refinalise(m, acc):
    for shape in SHAPES[:2] + SHAPES[3:4] + [SWAP]:
        for cn, ch in CHANGES:
            for evaluated in (1, 2):
                nm = "%s, evaluated %d times, %s, finalised again" % (shape[0], evaluated, cn)

                def run(p):
                    it, w = start(m, p)
                    g = Graph(m, it, w, shape)
                    for k in range(evaluated):
                        compute_all(g)
                        move(g, "'" * (k + 1))
                    k = len(g.vs)
                    orig_v, orig_f = g.add_variable, g.add_factor
                    newv, newf = [], []
                    g.add_variable = lambda v: (newv.append(v), orig_v(v))
                    g.add_factor = lambda f: (newf.append(f), orig_f(f))
                    ch(g)
                    g.add_variable, g.add_factor = orig_v, orig_f
                    g.vs += newv
                    g.fs += newf
                    try:
                        g.call("finalize_structure")
                    except Throw as t:
                        raise PathEnd()
                    acc.i("C11", nm)
                    for c in CACHED:
                        acc.o("C11")
                        if not g.throws(c):
                            acc.v("C11", "%s() after finalising again" % c, "%s: %s() still returns the result of the previous structure" % (nm, c), gfn(m, "finalize_structure"))
                    for c in VALID:
                        acc.o("C11")
                        if g.call(c) is not False:
                            acc.v("C11", "%s() after finalising again" % c, "%s: %s() is still true" % (nm, c), gfn(m, "finalize_structure"))
                    lay, msg, where_ = layout(g)
                    acc.o("C11")
                    if lay is None:
                        acc.v("C11", "%s after finalising again" % where_, "%s: %s" % (nm, msg), gfn(m, where_))
                        return
                    for rnd in range(2):
                        R, J = expected(g, *lay)
                        judge(acc, m, g, nm, "dense Jacobian after finalising again", dense(it, g.call("compute_full_jacobian_matrix")), J, gfn(m, "compute_full_jacobian_matrix"), "C11")
                        judge(acc, m, g, nm, "sparse Jacobian after finalising again", dense(it, g.call("compute_sparse_jacobian_matrix")), J, gfn(m, "compute_sparse_jacobian_matrix"), "C11")
                        acc.o("C11")
                        if list(it.mpolys(g.call("compute_full_residual_vector"))) != R:
                            acc.v("C11", "residual after finalising again", "%s: the residual vector is not that of the new structure" % nm, gfn(m, "compute_full_residual_vector"))
                        move(g, "*" * (rnd + 1))
                for p, r, err in I.explore(run, 20):
                    if isinstance(err, Throw):
                        acc.v("C11", "after finalising again", "%s: evaluation throws at %s" % (nm, err.loc), str(err.loc))
                    elif isinstance(err, UB):
                        acc.v("C11", "after finalising again: %s" % err.what, "%s: %s" % (nm, err), str(err.loc))
                    elif isinstance(err, (Unsupported, al.TooBig)):
                        acc.a("C11", nm, str(err))


# ---------------------------------------------------------------------------------------------- C12
def snap(v, seen=None):
    """deep structural picture of the graph object; handles by identity"""
    if isinstance(v, Obj):
        if isinstance(v.tag, (stubs.VarData, stubs.FacData)):
            return ("handle", id(v))
        return (v.cls, tuple((k, snap(c.v)) for k, c in sorted(v.f.items())))
    if isinstance(v, Vec):
        return tuple(snap(c.v) for c in v.c)
    if isinstance(v, Map):
        return tuple(sorted(((repr(k), snap(c.v)) for k, c in v.d.items())))
    if isinstance(v, Mat):
        return (v.rows, v.cols, tuple(c.v for c in v.cells))
    if isinstance(v, Sparse):
        return (v.rows, v.cols, tuple(sorted((k, str(c.v)) for k, c in v.d.items())))
    return v


def members(g):
    vs = [c.v for c in g.call("get_all_variables").c]
    fs = [c.v for c in g.call("get_all_factors").c]
    return vs, fs


def identifiers(m, acc):
    for shape in SHAPES[:1] + SHAPES[3:4]:
        for fin in (False, True):
            for kind in ("variable", "factor"):
                for what in ("duplicate of the first", "duplicate of the last", "the same object again", "empty handle", "new", "new with a negative identifier"):
                    nm = "add_%s: %s%s" % (kind, what, " after finalising" if fin else "")

                    def run(p):
                        it, w = start(m, p)
                        g = Graph(m, it, w, shape, finalize=fin)
                        if fin:
                            compute_all(g)
                        mk = (lambda i: w.var(i, 2, False, name="new")) if kind == "variable" else (lambda i: w.fac(i, 2, [g.vs[0]], name="new"))
                        old = g.vs if kind == "variable" else g.fs
                        x = {"duplicate of the first": lambda: mk(old[0].tag.id), "duplicate of the last": lambda: mk(old[-1].tag.id), "the same object again": lambda: old[1],
                             "empty handle": lambda: None, "new": lambda: mk(1000), "new with a negative identifier": lambda: mk(-5)}[what]()
                        before = snap(g.o)
                        bm = [list(map(id, q)) for q in members(g)]
                        acc.i("C12", nm)
                        acc.o("C12", 3)
                        loc = gfn(m, "add_" + kind)
                        bad = what.startswith("dup") or what.startswith("the same") or what == "empty handle"
                        try:
                            g.call("add_" + kind, x)
                        except Throw:
                            if not bad:
                                acc.v("C12", "add_%s rejects" % kind, "%s is rejected" % nm, loc)
                            elif snap(g.o) != before:
                                acc.v("C12", "add_%s modifies" % kind, "%s throws, but the graph has changed" % nm, loc)
                            return
                        except UB as u:
                            acc.v("C12", "add_%s %s" % (kind, what), "%s: %s" % (nm, u), loc)
                            return
                        if bad:
                            acc.v("C12", "add_%s %s" % (kind, what), "%s is accepted" % nm, loc)
                            return
                        vs, fs = members(g)
                        if kind == "variable":
                            if [id(q) for q in vs] != bm[0] + [id(x)] or [id(q) for q in fs] != bm[1]:
                                acc.v("C12", "add_variable listing", "%s: the variable is not listed exactly once at the end" % nm, loc)
                            if g.call("get_variable", x.tag.id) is not x:
                                acc.v("C12", "get_variable", "%s: get_variable() does not find it" % nm, loc)
                            if it.to_int(g.call("num_variables")) != len(bm[0]) + 1:
                                acc.v("C12", "num_variables", "%s: num_variables() does not count it" % nm, loc)
                            for v in g.vs:
                                acc.o("C12")
                                if g.call("get_variable", v.tag.id) is not v:
                                    acc.v("C12", "get_variable", "%s: another variable is no longer found" % nm, loc)
                            if g.call("get_variable", 4242) is not None:
                                acc.v("C12", "get_variable", "%s: an unknown identifier is found" % nm, loc)
                        else:
                            if [id(q) for q in fs] != bm[1] + [id(x)] or [id(q) for q in vs] != bm[0]:
                                acc.v("C12", "add_factor listing", "%s: the factor is not listed exactly once at the end" % nm, loc)
                        # a second attempt with the same identifier is now a duplicate
                        acc.o("C12")
                        if not g.throws("add_" + kind, mk(x.tag.id)):
                            acc.v("C12", "add_%s duplicate" % kind, "%s: a duplicate of it is accepted afterwards" % nm, loc)
                    guard(acc, "C12", nm, gfn(m, "add_" + kind), run)


def own_ids(m, cls, acc):
    """variables: id() is the identifier given to the constructor, in the object and its clone"""
    from var_checks import dims
    for ctor in m.ctors(cls):
        if not any(p["t"].get("int") and "id" in p["name"].lower() for p in ctor["params"]):
            acc.a("C12", M.short(cls), "constructor without identifier")
            continue
        for dim in dims(cls):
            for vid in (3, 4711):
                nm = "%s(%d parameters) with identifier %d" % (M.short(cls), len(ctor["params"]), vid)

                def run(p):
                    al.set_ctx(al.Ctx())
                    it = m.interp(p)
                    o = m.make_var(it, cls, "v", dim, vid=vid, ctor=ctor)
                    acc.i("C12", nm)
                    acc.o("C12", 2)
                    if it.method(o, "id") != vid:
                        acc.v("C12", "%s identifier" % M.short(cls), "%s reports %s" % (nm, it.method(o, "id")), loc_of(ctor))
                    c = it.method(o, "clone")
                    if isinstance(c, Obj) and it.method(c, "id") != vid:
                        acc.v("C12", "%s clone identifier" % M.short(cls), "%s: the clone reports %s" % (nm, it.method(c, "id")), loc_of(ctor))
                guard(acc, "C12", nm, loc_of(ctor), run)


def factor_ids(m, cls, cfg, acc):
    from factor_checks import cfgname
    nm = cfgname(m, cls, cfg)

    def run(p):
        al.set_ctx(al.Ctx())
        it = m.interp(p)
        f, vs = m.build(it, cls, cfg)
        ids = [c for c, prm in zip(it.ctor_args, cfg["ctor"]["params"]) if prm["t"].get("int") and "id" in prm["name"].lower()]
        if not ids:
            raise Unsupported("constructor without identifier")
        acc.i("C12", nm)
        acc.o("C12")
        if it.method(f, "id") != ids[0]:
            acc.v("C12", "%s identifier" % M.short(cls), "%s reports identifier %s, was given %s" % (nm, it.method(f, "id"), ids[0]), loc_of(cfg["ctor"]))
    for p, r, err in I.explore(run, 400):
        if isinstance(err, (Unsupported, al.TooBig)):
            acc.a("C12", nm, str(err))


# ---------------------------------------------------------------------------------------------- C14 (graph part)
def constants(m, acc):
    for shape in SHAPES:
        for late in (False, True):
            for meth in ("apply_increment", "set_variable_values_from_vector"):
                nm = "%s on %s%s" % (meth, shape[0], ", another variable made constant after finalising" if late else "")

                def run(p):
                    it, w = start(m, p)
                    g = Graph(m, it, w, shape)
                    if late:
                        g.free()[0].tag.const = True
                    before = [list(w.value(v)) for v in g.vs]
                    acc.i("C14", nm)
                    for n in {g.total(), it.to_int(g.call("num_values"))}:
                        try:
                            g.call(meth, g.vec([M.latom("x%d" % i) for i in range(n)]))
                        except Throw:
                            pass
                        for v, b in zip(g.vs, before):
                            if v.tag.const:
                                acc.o("C14")
                                if list(w.value(v)) != b:
                                    acc.v("C14", "%s moves a constant" % meth, "%s: constant variable %s changes" % (nm, v.tag.name), gfn(m, meth))
                for p, r, err in I.explore(run, 20):
                    if isinstance(err, (Unsupported, al.TooBig)):
                        acc.a("C14", nm, str(err))


# ---------------------------------------------------------------------------------------------- C06 (graph part)
QUERIES = EVAL[:5] + ["print_structure", "print_variables", "print_jacobian_and_residual", "detailed_factor_test", "get_variable_vector", "get_all_variables", "get_all_factors",
                      "num_variables", "num_values", "num_residuals", "jacobian", "residual", "sparse_jacobian", "jacobian_valid", "residual_valid", "finalize_structure"]


def observers(m, acc):
    for shape in SHAPES[:2] + [TINY]:
        for q in QUERIES:
            if (shape is TINY) != (q in ("print_jacobian_and_residual", "detailed_factor_test")):
                continue
            nm = "FactorGraph::%s (%s)" % (q, shape[0])

            def run(p):
                it, w = start(m, p)
                w.quad = q == "detailed_factor_test"
                g = Graph(m, it, w, shape)
                compute_all(g)
                before = [(list(w.value(v)), v.tag.const) for v in g.vs]
                acc.i("C06", nm)
                acc.o("C06", len(g.vs))
                try:
                    invoke(g, q)
                except Throw:
                    pass
                for v, (b, c) in zip(g.vs, before):
                    if entries_differ(w.value(v), b) is True or v.tag.const != c:
                        acc.v("C06", "FactorGraph::%s" % q, "%s changes variable %s" % (nm, v.tag.name), gfn(m, q.split("(")[0]))
            for p, r, err in I.explore(run, 40):
                if isinstance(err, (Unsupported, al.TooBig)):
                    acc.a("C06", nm, str(err))


def any_arg(m, it, a, vs):
    t = a["t"]
    n = t.get("n", "")
    if n.startswith("std::vector<Eigen::Matrix<double,-1,-1>"):
        return Vec([], "Eigen::Matrix<double,-1,-1>")
    if t.get("ptr"):
        q = n.rstrip("* ").replace("const ", "").strip()
        for v in vs:
            if q == v.cls:
                return v
        if q == M.VAR and vs:
            return vs[0]
        if q in m.vars:
            o = m.make_var(it, q, "q." + a["name"], vid=77)
            m.abstract_state(it, o)
            return o
    return m.arg(it, a, "q")


def factor_observers(m, cls, cfg, acc):
    from factor_checks import cfgname
    from var_checks import state
    nm = cfgname(m, cls, cfg)
    s = M.short(cls)
    F = m.F
    qs = {}
    for c in F.bases(cls):
        for f in F.fn.values():
            if f.get("rec") == c and "body" in f and not f.get("ctor") and not f.get("dtor") and not f.get("static") and f.get("access", "public") == "public" \
                    and not f["name"].startswith("operator") and f["name"] != "SetKernel":
                qs.setdefault((f["name"], len(f["params"])), f)
    for (q, n), f in sorted(qs.items()):
        def run(p):
            al.set_ctx(al.Ctx())
            it = m.interp(p)
            fac, vs = m.build(it, cls, cfg)
            if q == "compute_jacobians":
                vs[0].f["is_constant_"].v = False
            before = [state(m, v) for v in vs]
            acc.i("C06", "%s::%s" % (nm, q))
            acc.o("C06", len(vs))
            try:
                if q == "compute_residual" and n == 1:
                    m.residual_inplace(it, fac, it.to_int(it.method(fac, "residual_size")))
                elif q == "compute_jacobians":
                    m.jacobians(it, fac, Vec([], "Eigen::Matrix<double,-1,-1>"))
                else:
                    it.call(f, fac, it.with_defaults(f, [Cell(any_arg(m, it, a, vs)) for a in f["params"]]))
            except Throw:
                pass
            for v, b in zip(vs, before):
                for (pa, x), (pb, y) in zip(b, state(m, v)):
                    if x != y:
                        acc.v("C06", "%s::%s" % (s, q), "%s: %s changes %s of variable %s from %s to %s [%s]" % (nm, q, pa, v.tag, M.sv(x), M.sv(y), "; ".join(p.log)), loc_of(f))
        for p, r, err in I.explore(run, 400):
            if isinstance(err, (Unsupported, al.TooBig)):
                acc.a("C06", "%s::%s" % (nm, q), str(err))


SETTERS = ("set_value_from_vector", "apply_increment", "set_constant")


def var_observers(m, cls, acc):
    """every public const member of a variable leaves the whole object unchanged; so does every other parameterless member that is
    not one of the documented setters"""
    from var_checks import dims, deep
    F = m.F
    qs = {}
    for c in F.bases(cls):
        for f in F.fn.values():
            if f.get("rec") == c and "body" in f and not f.get("ctor") and not f.get("dtor") and not f.get("static") and f.get("access", "public") == "public" and f.get("const"):
                qs.setdefault((f["name"], len(f["params"])), f)
    for dim in dims(cls):
        for (q, n), f in sorted(qs.items()):
            nm = "%s::%s" % (M.short(cls), q)

            def run(p):
                al.set_ctx(al.Ctx())
                it = m.interp(p)
                o = m.make_var(it, cls, "v", dim, vid=1)
                m.abstract_state(it, o)
                before = deep(o)
                acc.i("C06", nm)
                acc.o("C06")
                try:
                    it.call(f, o, it.with_defaults(f, [Cell(m.arg(it, a, "q")) for a in f["params"]]))
                except Throw:
                    pass
                if deep(o) != before:
                    acc.v("C06", nm, "%s changes the variable [%s]" % (nm, "; ".join(p.log)), loc_of(f))
            for p, r, err in I.explore(run, 60):
                if isinstance(err, (Unsupported, al.TooBig)):
                    acc.a("C06", nm, str(err))
