"""C21 numerical differentiation helper, C30 robust kernel"""
import itertools
from fractions import Fraction as Fr
import algebra as al, interp as I, model as M, stubs
from algebra import C, ZERO, ONE
from interp import Cell, Mat, Obj, Vec, Unsupported, UB, Throw, PathEnd
from var_checks import dims, deep, state, loc_of, hypothesis


def entries_differ(a, b):
    z = [al.is_zero(al.cancel(x - y)) for x, y in zip(a, b)]
    if any(x is False for x in z):
        return True
    return None if any(x is None for x in z) else False


def numerical(m, acc):
    fs = [f for f in m.F.fn.values() if f["name"] == "ComputeNumericalJacobians" and "body" in f]
    if not fs:
        acc.a("C21", "ComputeNumericalJacobians", "no instantiation found")
        return
    gen = [f for f in fs if f["params"] and f["params"][0]["t"].get("n") == M.FAC] or fs[:1]
    for f in gen:
        loc = loc_of(f)
        # interface level: stub variables and a quadratic stub factor; shapes of list and constants enumerated
        shapes = [((2, 1), 2), ((1,), 1), ((3, 2, 1), 2), ((2, 2), 1), ((), 1)]
        for (ds, rows), extra in itertools.product(shapes, (0, 2)):
            for consts in itertools.product((False, True), repeat=len(ds)):
                for stale in (0, 1, len(ds), len(ds) + 2) if not extra else (1,):
                    nm = "%d variables of sizes %s, constant %s, list of %d matrices" % (len(ds), list(ds), [k for k, c in enumerate(consts) if c], stale)

                    def run(p):
                        al.set_ctx(al.Ctx())
                        it = m.interp(p)
                        w = stubs.World(it, quad=True)
                        vs = [w.var(10 + k, d, c) for k, (d, c) in enumerate(zip(ds, consts))]
                        fac = w.fac(3, rows, vs)
                        vec = Vec([Cell(it.newmat(extra + 1, 2, [M.latom("old%d" % (k * 9 + j), kind="uninit") for j in range(2 * extra + 2)], -1, -1)) for k in range(stale)], "Eigen::Matrix<double,-1,-1>")
                        before = [w.value(v) for v in vs]
                        eps = M.latom("eps", pos=True)
                        args = [Cell(fac), Cell(vec)] + ([Cell(eps)] if len(f["params"]) > 2 else [])
                        acc.i("C21", nm)
                        it.call(f, None, it.with_defaults(f, args))
                        acc.o("C21", 1 + len(vs))
                        for v, b, c in zip(vs, before, consts):
                            if entries_differ(w.value(v), b) is True:
                                acc.v("C21", "not restored", "%s: %s is %s afterwards" % (nm, v.tag.name, [al.pstr(x, 4) for x in w.value(v)]), loc)
                            if c and any(e[1] is v and e[0] in ("apply_increment", "set_value_from_vector") for e in w.log):
                                acc.v("C21", "constant perturbed", "%s: the constant variable %s is written" % (nm, v.tag.name), loc)
                            if v.tag.const != c:
                                acc.v("C21", "constness", "%s: constness of %s changed" % (nm, v.tag.name), loc)
                        if len(vec.c) != len(vs):
                            acc.v("C21", "block count", "%s: %d blocks" % (nm, len(vec.c)), loc)
                            return
                        r0 = w.residual(fac.tag)
                        for vi, (v, c) in enumerate(zip(vs, consts)):
                            J = vec.c[vi].v
                            want = (0, 0) if c else (rows, v.tag.dim)
                            acc.o("C21")
                            if c and J.rows * J.cols or not c and (J.rows, J.cols) != want:
                                acc.v("C21", "block shape", "%s: block %d is %dx%d" % (nm, vi, J.rows, J.cols), loc)
                                continue
                            if c:
                                continue
                            e = it.mpolys(J)
                            for r in range(rows):
                                for k in range(v.tag.dim):
                                    acc.o("C21")
                                    a = M.latom("%s.a%d.%d.%d" % (fac.tag.name, r, vi, k))
                                    b = M.latom("%s.b%d.%d.%d" % (fac.tag.name, r, vi, k))
                                    x = w.value(v)[k]
                                    # the central difference of a quadratic is exact; a one-sided one is off by b*eps
                                    got = al.substitute(e[r * v.tag.dim + k], {})
                                    ref = a + (b * x).scale(2)
                                    if al.is_zero(al.cancel(got - ref)) is False:
                                        acc.v("C21", "difference quotient", "%s: entry (%d,%d) of block %d is %s for a residual with derivative %s" % (nm, r, k, vi, al.pstr(got, 6), al.pstr(ref, 6)), loc)
                    guard(acc, "C21", nm, loc, run)
        # every variable class with its own increment and setter
        for cls in m.vars:
            for dim in dims(cls):
                nm = "%s%s" % (M.short(cls), "(%d)" % dim if dim else "")

                def run(p):
                    al.set_ctx(al.Ctx())
                    it = m.interp(p)
                    w = stubs.World(it)
                    o = m.make_var(it, cls, "v", dim, vid=1)
                    m.abstract_state(it, o)
                    hypothesis(it, o, p)
                    before = state(m, o)

                    def quadratic(it, x, cells, e):
                        if isinstance(x, Obj) and x.cls == stubs.SF:
                            if cells:
                                cells[0].v.cells[0].v = M.latom("r")
                                return None
                            return it.newmat(1, 1, [al.sym("r", kind="sym")], -1, 1)
                        return NotImplemented
                    it.hooks["*::compute_residual"] = quadratic
                    fac = w.fac(3, 1, [o])
                    vec = Vec([], "Eigen::Matrix<double,-1,-1>")
                    acc.i("C21", nm)
                    acc.o("C21", len(before) + 1)
                    args = [Cell(fac), Cell(vec)] + ([Cell(M.latom("eps", pos=True))] if len(f["params"]) > 2 else [])
                    it.call(f, None, it.with_defaults(f, args))
                    m.generic(p)
                    for (pa, x), (pb, y) in zip(before, state(m, o)):
                        if x == y or not isinstance(x, al.Poly):
                            continue
                        if not isinstance(y, al.Poly) or entries_differ([x], [y]) is True and not m.mod_two_pi(y, x):
                            acc.v("C21", "%s not restored" % M.short(cls), "%s: %s is %s afterwards, was %s [%s]" % (nm, pa, M.sv(y), M.sv(x), "; ".join(p.log)), loc)
                guard(acc, "C21", nm, loc, run, 200)


def guard(acc, pid, nm, loc, run, n=80):
    for p, r, err in I.explore(run, n):
        if isinstance(err, UB):
            acc.v(pid, "%s" % err.what, "%s: %s" % (nm, err), str(err.loc))
        elif isinstance(err, Throw):
            # a call no rule of the property allows to fail
            acc.v(pid, "refuses", "%s: an exception for a well-formed call [%s]" % (nm, "; ".join(p.log)), str(err.loc))
        elif isinstance(err, (Unsupported, al.TooBig)):
            acc.a(pid, nm, str(err))


# ---------------------------------------------------------------------------------------------------------------- C30
# columns of the Jacobian blocks handed to the kernel; 0: the empty block of a constant variable
LISTS = [(2, 0), (0, 2), (1, 0, 2), (), (0, 0, 1), (1, 2)]


def kernels(m, acc):
    base = "factorama::ResidualKernel"
    ks = [c for c in m.F.subclasses(base) if not m.F.rec[c].get("abstract")]
    if not ks:
        acc.a("C30", base, "no kernel classes")
    for cls in ks:
        s = M.short(cls)
        for ctor in m.ctors(cls):
            for n in (1, 2, 3):
                nm = "%s on a residual of %d entries" % (s, n)
                fr = m.F.methods(cls, "apply_to_residual")
                fj = m.F.methods(cls, "apply_to_jacobians")
                fr = [f for f in fr if "body" in f]
                fj = [f for f in fj if "body" in f]
                if not fr or not fj:
                    acc.a("C30", nm, "methods not found")
                    continue
                loc = loc_of(fj[0])

                def run(p):
                    al.set_ctx(al.Ctx())
                    it = m.interp(p)
                    delta = M.latom("delta", pos=True)
                    o = Obj(cls)
                    it.run_ctor(ctor, o, [Cell(delta) for _ in ctor["params"]])
                    r = [M.latom("r%d" % k) for k in range(n)]
                    t = [M.latom("t%d" % k) for k in range(n)]        # a tangent: column of the Jacobian
                    mk = lambda v: it.newmat(len(v), 1, list(v), -1, 1)
                    out = it.mpolys(it.call(fr[0], o, [Cell(mk(r))])[0])
                    below = [rel for d, rel in p.facts if concerns(d, delta)]
                    acc.i("C30", nm)
                    w = "; ".join(p.log)
                    sd = al.Seeds(atoms={M.atom_id(a): b for a, b in zip(r, t)})
                    der = [al.deriv(x, sd) for x in out]
                    for cols in LISTS:
                        f = 0
                        blocks, scales = [], []
                        for c in cols:
                            sc = [2 * f + 1 + 2 * j for j in range(c)]
                            f += c
                            scales.append(sc)
                            blocks.append(Cell(it.newmat(n if c else 0, c, [t[k].scale(x) for k in range(n) for x in sc], -1, -1)))
                        vec = Vec(blocks, "Eigen::Matrix<double,-1,-1>")
                        it.call(fj[0], o, [Cell(mk(r)), Cell(vec)])
                        m.generic(p)
                        if [(c.v.rows, c.v.cols) for c in vec.c] != [(n if c else 0, c) for c in cols]:
                            acc.v("C30", "%s shapes" % s, "%s changes the shapes of Jacobian blocks with %s columns" % (nm, list(cols)), loc)
                            return
                        for bi, (cell, sc) in enumerate(zip(vec.c, scales)):
                            got = it.mpolys(cell.v)
                            for k in range(n):
                                for c, x in enumerate(sc):
                                    acc.o("C30")
                                    e = got[len(sc) * k + c]
                                    z = al.is_zero(al.cancel(e - der[k].scale(x)))
                                    if z is False:
                                        acc.v("C30", "%s derivative" % s, "%s: row %d of block %d of %d becomes %s, the derivative of the scaled residual is %s [%s]" % (nm, k, bi, len(cols), al.pstr(e, 8), al.pstr(der[k].scale(x), 8), w), loc)
                                    elif z is None:
                                        acc.a("C30", nm, "undecided")
                    again = it.mpolys(it.call(fr[0], o, [Cell(mk(r))])[0])
                    acc.o("C30")
                    if entries_differ(again, out) is True:
                        acc.v("C30", "%s remembers" % s, "%s: the scaled residual depends on earlier calls [%s]" % (nm, w), loc)
                    # threshold: unchanged when the norm does not exceed delta, and only then
                    if s == "HuberKernel":
                        q = ZERO
                        for x in r:
                            q = q + x * x
                        side = sidedness(p, q, delta)
                        acc.o("C30")
                        same = all(al.is_zero(al.cancel(a - b)) is True for a, b in zip(out, r))
                        if side == "below" and not same:
                            acc.v("C30", "%s below threshold" % s, "%s: the residual is changed although its norm does not exceed the threshold [%s]" % (nm, w), loc)
                        if side == "above":
                            # robust cost 0.5*|out|^2 equals 0.5*delta*|r|
                            oq = ZERO
                            for x in out:
                                oq = oq + x * x
                            z = al.is_zero(al.cancel(oq - delta * al.sqrt(q)))
                            acc.o("C30")
                            if z is False:
                                acc.v("C30", "%s above threshold" % s, "%s: squared length of the scaled residual is %s, not delta times the norm [%s]" % (nm, al.pstr(oq, 6), w), loc)
                        if side is None:
                            acc.a("C30", nm, "threshold comparison not recognised")
                guard(acc, "C30", nm, loc, run)


def concerns(d, delta):
    return M.atom_id(delta) in d.atoms()


def sidedness(p, q, delta):
    n = al.sqrt(q)
    for d, rel in p.facts:
        for ref, sg in ((n - delta, 1), (delta - n, -1), (q - delta * delta, 1), (delta * delta - q, -1)):
            if al.is_zero(al.cancel(d - ref)) is True:
                r = rel if sg > 0 else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(rel, rel)
                return "below" if r in ("<", "<=") else "above"
    return None
