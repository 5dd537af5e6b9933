"""Obligations on factors (C01-C05, C07, C08, C29, C36), decided per constructor configuration, per subset of constant
variables, per state of the caller's buffer and per trace of the abstract interpreter."""
import itertools
from fractions import Fraction as Fr
import algebra as al, interp as I, model as M
from algebra import C, ZERO, ONE
from interp import Cell, Vec, Mat, Obj, Unsupported, UB, Throw, PathEnd

G, LM = "factorama::GenericVariable", "factorama::LandmarkVariable"
MATX = "Eigen::Matrix<double,-1,-1>"


def opt_dim(o):
    c, d = o
    return d if d else {LM: 3}.get(c)


def linear(o):
    return o[0] in (G, LM)


# Documented shape contract of the pointer slots that accept a base class or a variable of free size.
# (constructor documentation and assertions of each factor; reviewed by hand)
SLOTS = {
    "BearingObservationFactor2D": lambda p, i: p[1] == (G, 2),
    "RangeBearingFactor2D": lambda p, i: p[1] == (G, 2),
    "PlaneFactor": lambda p, i: linear(p[0]) and opt_dim(p[0]) == 3,
    "GenericPriorFactor": lambda p, i: linear(p[0]),
    "GenericBetweenFactor": lambda p, i: all(linear(x) for x in p) and len({opt_dim(x) for x in p}) == 1 and (len(set(p)) == 1 or opt_dim(p[0]) == 3 and p[0][0] == LM and p[2][0] == G),
    "LinearVelocityFactor": lambda p, i: all(linear(x) for x in p[:2]) and p[0] == p[1] and p[2][0] == G and p[2][1] + i[0] <= opt_dim(p[0]),
    "Pose2DBetweenFactor": lambda p, i: p[2] == (G, 3),
    "PosePositionBetweenFactor": lambda p, i: p[2] in ((G, 3), (LM, None)),
    "CoordinateTransformFactor": lambda p, i: p[1] == (G, 3) and p[2] == (G, 1),
}
# extra configurations in which a pose is used through a base-class pointer (position components only, as documented)
EXTRA = {
    "LinearVelocityFactor": lambda p, i: p[0] == p[1] == ("factorama::PoseVariable", None) and p[2] == (G, 3) and i[0] == 0,
}


class Acc:
    """what a sweep found, per property"""

    def __init__(self):
        self.viol = {}
        self.obl = {}
        self.abst = {}
        self.inst = {}

    def v(self, pid, key, msg, loc=None):
        self.viol.setdefault(pid, {}).setdefault(key, {"msg": msg, "loc": loc, "n": 0})["n"] += 1

    def o(self, pid, n=1):
        self.obl[pid] = self.obl.get(pid, 0) + n

    def a(self, pid, key, why):
        self.abst.setdefault(pid, {}).setdefault(key, why)

    def i(self, pid, what):
        self.inst.setdefault(pid, set()).add(what)

    def merge(self, o):
        for p, d in o.viol.items():
            for k, x in d.items():
                if k in self.viol.setdefault(p, {}):
                    self.viol[p][k]["n"] += x["n"]
                else:
                    self.viol[p][k] = x
        for p, n in o.obl.items():
            self.o(p, n)
        for p, d in o.abst.items():
            for k, w in d.items():
                self.a(p, k, w)
        for p, s in o.inst.items():
            self.inst.setdefault(p, set()).update(s)


def configs(m, cls, acc=None, pids=()):
    s = M.short(cls)
    out = []
    unknown = False
    for cfg in m.configs(cls):
        p = [cfg["ptr"][k] for k in sorted(cfg["ptr"])]
        i = [cfg["int"][k] for k in sorted(cfg["int"])] or [0]
        free = [x for x in p if x[0] == G or len(m.var_class_options(x[0])) > 1]
        if s in SLOTS:
            try:
                ok = SLOTS[s](p, i) or (s in EXTRA and EXTRA[s](p, i))
            except (IndexError, TypeError):
                ok = None
                unknown = True
            if ok:
                out.append(cfg)
        elif not any(len(m.var_class_options(m.ptr_cls(cfg["ctor"]["params"][k]) or "?")) > 1 for k in cfg["ptr"]):
            out.append(cfg)
        else:
            # a factor this table does not know: take the configurations that evaluate without fault
            if clean(m, cls, cfg):
                out.append(cfg)
        if len(out) >= 14:
            break
    return out


def clean(m, cls, cfg):
    def run(p):
        al.set_ctx(al.Ctx())
        it = m.interp(p)
        fac, vs = m.build(it, cls, cfg)
        m.residual_value(it, fac)
        m.jacobians(it, fac, Vec([], MATX))
        return True
    n = 0
    for p, r, err in I.explore(run, 400):
        if isinstance(err, (UB, Unsupported)):
            return False
        n += r is not None
    return n > 0


def cfgname(m, cls, cfg):
    t = []
    for k, p in enumerate(cfg["ctor"]["params"]):
        if k in cfg["ptr"]:
            c, d = cfg["ptr"][k]
            t.append("%s=%s%s" % (p["name"], M.short(c or "null"), "(%d)" % d if d else ""))
        if k in cfg["bool"]:
            t.append("%s=%s" % (p["name"], str(cfg["bool"][k]).lower()))
        if k in cfg["int"]:
            t.append("%s=%d" % (p["name"], cfg["int"][k]))
    return "%s(%s)" % (M.short(cls), ", ".join(t))


def where(m, cls, meth, nargs=None):
    for c in m.F.bases(cls):
        for f in m.F.methods(c, meth, inherited=False):
            if "body" in f and (nargs is None or len(f["params"]) == nargs):
                return "%s:%s" % (f["file"], f["line"])
    return cls


def kinds(p, ks):
    """atoms of these kinds a value number mentions, also inside composite atoms"""
    out = set()
    seen = set()

    def go(i):
        if i in seen:
            return
        seen.add(i)
        a = al.CTX.atoms[i]
        if a.kind in ks:
            out.add(a.name)
        for q in a.args:
            for j in q.atoms():
                go(j)
    for i in p.atoms():
        go(i)
    return out


def setup(m, p, cls, cfg, const=(), onector=False):
    """factor and variables in a generic, interior state; const: indices (declaration order) to hold constant"""
    al.set_ctx(al.Ctx())
    it = m.interp(p)
    fac, vs = m.build(it, cls, cfg)
    if p.degenerate:
        raise PathEnd()
    tv = m.factor_vars(it, fac)
    for k in const:
        if k < len(tv):
            it.method(tv[k], "set_constant", [True])
    p.log.clear()
    if onector:
        # the construction's own case split was covered by the first scenario of this factor
        p.alts.clear()
    return it, fac, vs, tv


def unwarranted(p, since=0):
    """the state of a path that ends in an exception is not degenerate: the exception depends on nothing, or the last
    comparison before it found a quantity large, or below a bound that is not small"""
    if p.degenerate:
        return False
    if len(p.facts) <= since:
        return not p.log
    d, rel = p.facts[-1]
    if not isinstance(d, al.Poly):
        return False
    c = d.t.get((), 0)
    if c == 0 or rel not in ("<", "<=", ">", ">="):
        return False
    upper = (c < 0) == (rel in ("<", "<="))      # the varying part is bounded from above
    return not upper or abs(c) > Fr(1, 100)


def values(it, mat):
    return it.mpolys(mat)


# ---------------------------------------------------------------------------------------------- C03 + C02 residual
def residuals(m, cls, cfg, acc):
    nm = cfgname(m, cls, cfg)
    loc = where(m, cls, "compute_residual", 1)

    def run(p):
        it, fac, vs, tv = setup(m, p, cls, cfg)
        n = it.to_int(it.method(fac, "residual_size"))
        a = b = None
        ta = tb = None
        try:
            a = m.residual_value(it, fac)
        except Throw as t:
            ta = t
        try:
            b = m.residual_inplace(it, fac, n)
        except Throw as t:
            tb = t
        acc.i("C03", nm)
        acc.i("C02", nm)
        acc.o("C03")
        w = "; ".join(p.log)
        if (ta is None) != (tb is None):
            acc.v("C03", "%s throws" % M.short(cls), "%s: only %s throws [%s]" % (nm, "the by-value residual" if ta else "the in-place residual", w), loc)
            return
        if ta:
            return
        if a.rows * a.cols != n:
            acc.v("C03", "%s size" % M.short(cls), "%s: compute_residual() returns %d entries, residual_size() is %d" % (nm, a.rows * a.cols, n), loc)
            return
        va, vb = values(it, a), values(it, b)
        for k in range(n):
            for which, x in (("compute_residual()", va[k]), ("compute_residual(result)", vb[k])):
                acc.o("C02")
                u = kinds(x, ("uninit", "stale"))
                if u:
                    acc.v("C02", "%s residual[%d]" % (M.short(cls), k), "%s: entry %d of %s is not determined by the evaluation (%s) [%s]" % (nm, k, which, ", ".join(sorted(u)), w), loc)
            d = al.cancel(va[k] - vb[k])
            acc.o("C03")
            z = al.is_zero(d)
            if z is False:
                acc.v("C03", "%s row %d" % (M.short(cls), k), "%s: row %d differs: %s by value, %s in place [%s]" % (nm, k, al.pstr(va[k], 6), al.pstr(vb[k], 6), w), loc)
            elif z is None:
                acc.a("C03", "%s row %d" % (nm, k), "difference undecided")
        return True
    sweep(m, run, acc, ("C03", "C02"), nm, cls, "compute_residual", 300)


def sweep(m, run, acc, pids, nm, cls, meth, limit=80, thrown=None):
    for p, r, err in I.explore(run, limit):
        if err is None:
            continue
        if isinstance(err, UB):
            acc.v(pids[0], "%s %s" % (M.short(cls), err.what), "%s: %s [%s]" % (nm, err, "; ".join(p.log if p else [])), str(err.loc))
        elif isinstance(err, (Unsupported, al.TooBig)):
            for q in pids:
                acc.a(q, nm, "%s: %s" % (type(err).__name__, err))
        elif isinstance(err, Throw):
            pass


# ---------------------------------------------------------------------------------------------- C01 + C02 Jacobian list
def stale(name, r, c, it):
    return it.newmat(r, c, [al.sym("%s_%d" % (name, i), kind="stale") for i in range(r * c)], -1, -1)


def buffers(nvar, rows, dims):
    """what the caller's list may contain beforehand"""
    yield "empty list", []
    yield "right number of empty blocks", [None] * nvar
    yield "blocks of an earlier evaluation", [(rows, d) for d in dims]
    yield "blocks of another shape", [(rows + 1, d + 2) for d in dims]
    yield "transposed blocks", [(d, rows) for d in dims]
    yield "flattened blocks", [(1, rows * d) for d in dims]
    yield "blocks laid out as a column", [(rows * d, 1) for d in dims]
    yield "wider blocks", [(rows, d + 1) for d in dims]
    yield "taller blocks", [(rows + 1, d) for d in dims]
    yield "narrower blocks", [(rows, max(d - 1, 0)) for d in dims]
    yield "shorter blocks", [(max(rows - 1, 0), d) for d in dims]
    yield "one block too few", [(rows, d) for d in dims[:-1]]
    yield "one block too many", [(rows, d) for d in dims] + [(rows, dims[-1])]
    yield "many blocks too many", [(rows, d) for d in dims] + [(2, 2)] * 5
    if nvar >= 2:
        yield "one block only", [(rows, dims[0])]
    for k in range(nvar):
        yield "block %d of another shape" % k, [((rows, d) if i != k else (rows + 1, d + 1)) for i, d in enumerate(dims)]
    for k in range(nvar if nvar > 1 else 0):
        # every shape test reads the block it is about
        for what, sh in (("taller", (rows + 1, dims[k])), ("wider", (rows, dims[k] + 1)), ("shorter", (rows - 1, dims[k])), ("narrower", (rows, dims[k] - 1)), ("empty", None)):
            yield "block %d %s than needed" % (k, what), [((rows, d) if i != k else sh) for i, d in enumerate(dims)]
            if what in ("taller", "wider"):
                yield "every block but %d %s than needed" % (k, what), [((rows, d) if i == k else (rows + (what == "taller"), d + (what == "wider"))) for i, d in enumerate(dims)]


def jacobian_lists(m, cls, cfg, acc, full=True):
    nm = cfgname(m, cls, cfg)
    loc = where(m, cls, "compute_jacobians")
    # number of variables and dimensions
    info = {}

    def probe(p):
        it, fac, vs, tv = setup(m, p, cls, cfg)
        info["n"] = len(tv)
        info["dims"] = [it.to_int(it.method(v, "size")) for v in tv]
        info["rows"] = it.to_int(it.method(fac, "residual_size"))
        raise PathEnd()
    for p, r, err in I.explore(probe, 60):
        if err:
            acc.a("C01", nm, str(err))
            acc.a("C02", nm, str(err))
        if info:
            break
    if not info:
        return
    n, dims, rows = info["n"], info["dims"], info["rows"]
    bufs = list(buffers(n, rows, dims))
    subsets = [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]
    for si, const in enumerate(subsets):
        todo = bufs if (full or len(const) in (0, n)) else bufs[:5]
        for bname, shape in todo:
            def run(p):
                it, fac, vs, tv = setup(m, p, cls, cfg, const, onector=bool(const) or bname != 'empty list')
                vec = Vec([Cell(it.newmat(0, 0, [], -1, -1) if s is None else stale("old%d" % i, s[0], s[1], it)) for i, s in enumerate(shape)], MATX)
                ctx = "%s, constant %s, list with %s" % (nm, list(const) or "none", bname)
                try:
                    m.jacobians(it, fac, vec)
                except Throw:
                    return
                except UB as u:
                    acc.v("C01", "%s fault" % M.short(cls), "%s: %s [%s]" % (ctx, u, "; ".join(p.log)), str(u.loc))
                    return
                w = "; ".join(p.log)
                acc.i("C01", nm)
                acc.i("C02", nm)
                acc.o("C01")
                if len(vec.c) != n:
                    acc.v("C01", "%s count" % M.short(cls), "%s: %d blocks for %d variables [%s]" % (ctx, len(vec.c), n, w), loc)
                    return
                for i in range(n):
                    b = vec.c[i].v
                    acc.o("C01")
                    if i in const:
                        if b.size != 0:
                            acc.v("C01", "%s block %d constant" % (M.short(cls), i), "%s: block %d belongs to a constant variable but is %dx%d [%s]" % (ctx, i, b.rows, b.cols, w), loc)
                        continue
                    if (b.rows, b.cols) != (rows, dims[i]):
                        acc.v("C01", "%s block %d shape" % (M.short(cls), i), "%s: block %d is %dx%d, expected %dx%d [%s]" % (ctx, i, b.rows, b.cols, rows, dims[i], w), loc)
                        continue
                    for r in range(rows):
                        for c in range(dims[i]):
                            acc.o("C02")
                            u = kinds(it.mread(b, r, c), ("uninit", "stale"))
                            if u:
                                acc.v("C02", "%s block %d" % (M.short(cls), i), "%s: entry (%d,%d) of block %d is left over or uninitialised (%s) [%s]" % (ctx, r, c, i, ", ".join(sorted(u)), w), loc)
            sweep(m, run, acc, ("C01", "C02"), nm, cls, "compute_jacobians", 300)


# ---------------------------------------------------------------------------------------------- C04
def derivative(m, cls, cfg, acc, consts=((),)):
    nm = cfgname(m, cls, cfg)
    loc = where(m, cls, "compute_jacobians")

    for const in consts:
        def run(p):
            it, fac, vs, tv = setup(m, p, cls, cfg, const)
            k0 = len(p.facts)
            try:
                r = m.residual_value(it, fac)
            except Throw:
                raise PathEnd()
            m.generic(p)
            n = r.rows * r.cols
            vec = Vec([], MATX)
            try:
                m.jacobians(it, fac, vec)
            except Throw as t:
                acc.o("C04")
                if unwarranted(p, k0):
                    acc.v("C04", "%s refuses" % M.short(cls), "%s: no Jacobian at a state that is not degenerate [%s]" % (nm, "; ".join(p.log[-2:])), loc)
                raise PathEnd()
            m.generic(p)
            w = list(p.log)
            if len(vec.c) != len(tv):
                return
            res = [al.cancel(x) for x in values(it, r)]
            free = [i for i in range(len(tv)) if i not in const]
            J = {}
            for i in free:
                b = vec.c[i].v
                d = it.to_int(it.method(tv[i], "size"))
                if (b.rows, b.cols) != (n, d):
                    return
                J[i] = [[it.mread(b, rr, c) for c in range(d)] for rr in range(n)]
            for i in free:
                same = [k for k in range(len(tv)) if tv[k] is tv[i]]
                if len(same) > 1:
                    continue
                k0 = len(p.degenerate)
                tan = m.tangent(it, tv[i])
                if len(p.degenerate) > k0:
                    raise PathEnd()
                acc.i("C04", nm)
                block(acc, nm, cls, loc, i, tv[i], res, J[i], tan, w)
            return True
        sweep(m, run, acc, ("C04",), nm, cls, "compute_jacobians", 300)


def block(acc, nm, cls, loc, i, var, res, J, tan, w):
    """one Jacobian block against the derivative; the logarithm's derivative has two equivalent forms"""
    best = None
    for lf in (0, 1):
        bad, unk, n = [], [], 0
        for c, (a, b) in enumerate(tan):
            sd = al.Seeds(a, b, lf)
            for r in range(len(res)):
                n += 1
                d = al.cancel(al.deriv(res[r], sd))
                if kinds(d, ("top",)):
                    unk.append((r, c, "derivative not expressible"))
                    continue
                z = al.is_zero(al.cancel(d - J[r][c]))
                if z is False:
                    bad.append((r, c, al.pstr(d, 6), al.pstr(J[r][c], 6)))
                elif z is None:
                    unk.append((r, c, "%s vs %s" % (al.pstr(d, 6), al.pstr(J[r][c], 6))))
        cand = (len(bad), len(unk), bad, unk, n)
        if best is None or cand[:2] < best[:2]:
            best = cand
        if not bad and not unk:
            break
    _, _, bad, unk, n = best
    acc.o("C04", n)
    if bad:
        r, c, d, j = bad[0]
        acc.v("C04", "%s block %d" % (M.short(cls), i), "%s: block %d (%s), %d wrong entries, first (%d,%d): derivative %s, reported %s [%s]" % (nm, i, var.tag, len(bad), r, c, d, j, "; ".join(w)), loc)
    elif unk:
        acc.a("C04", "%s block %d" % (nm, i), "%d entries undecided, first (%d,%d): %s" % (len(unk), unk[0][0], unk[0][1], unk[0][2]))


# ---------------------------------------------------------------------------------------------- C05
def dependence(m, cls, cfg, acc):
    nm = cfgname(m, cls, cfg)
    loc = where(m, cls, "variables")
    used = {}
    info = {}

    def run(p):
        it, fac, vs, tv = setup(m, p, cls, cfg)
        info["vs"], info["tv"] = [v.tag for v in vs], [v.tag if isinstance(v, Obj) else None for v in tv]
        info["n"] = len(vs)
        if any(not isinstance(v, Obj) for v in tv):
            acc.v("C05", "%s null" % M.short(cls), "%s: variables() contains a null pointer" % nm, loc)
            return
        ids = {}
        for v in vs:
            s = set()
            for path, c in m.atoms_of(v):
                if isinstance(c.v, al.Poly):
                    for i in c.v.atoms():
                        s.add(i)
                        if i in al.CTX.letterof:
                            s.add(("letter", al.CTX.letterof[i][0]))
                        if i in al.CTX.logids:
                            for l, sg in al.CTX.logids[i][0]:
                                s.add(("letter", l))
            ids[v.tag] = s
        try:
            r = m.residual_value(it, fac)
        except Throw:
            return
        for k, x in enumerate(values(it, r)):
            for t, s in ids.items():
                if al.depends(al.cancel(x), s):
                    used.setdefault(t, k)
        info["ok"] = True
        # the list is a property of the factor, not of the state of its variables
        if info.get("subsets"):
            return
        info["subsets"] = True
        vtv = [v for v in tv if isinstance(v, Obj)]
        for mask in range(1, 1 << len(vtv)):
            for k, v in enumerate(vtv):
                it.method(v, "set_constant", [bool(mask >> k & 1)])
            acc.o("C05")
            now = m.factor_vars(it, fac)
            if [id(x) for x in now] != [id(x) for x in tv]:
                held = [v.tag for k, v in enumerate(vtv) if mask >> k & 1]
                acc.v("C05", "%s constness" % M.short(cls), "%s: variables() lists %s, but %s once %s is constant" % (
                    nm, info["tv"], [x.tag if isinstance(x, Obj) else None for x in now], ", ".join(map(str, held))), loc)
                break
    sweep(m, run, acc, ("C05",), nm, cls, "variables", 300)
    if not info.get("ok"):
        return
    acc.i("C05", nm)
    for t in info["vs"]:
        acc.o("C05")
        if t in used and t not in info["tv"]:
            acc.v("C05", "%s undeclared" % M.short(cls), "%s: the residual depends on %s, which variables() does not list" % (nm, t), loc)
        if t in info["tv"] and t not in used:
            acc.v("C05", "%s unused" % M.short(cls), "%s: variables() lists %s, which no residual row uses on any path" % (nm, t), loc)
    acc.o("C05")
    if len(set(info["tv"])) != len(info["tv"]):
        acc.v("C05", "%s duplicate" % M.short(cls), "%s: variables() lists a variable twice: %s" % (nm, info["tv"]), loc)
