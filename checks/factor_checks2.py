"""Obligations on factors, second part: sigma scaling (C07), wrapped angles (C08), guarded divisions (C29), measurement
model (C36)."""
import itertools
from fractions import Fraction as Fr
import algebra as al, interp as I, model as M
from algebra import C, ZERO, ONE
from interp import Cell, Vec, Mat, Obj, Unsupported, UB, Throw, PathEnd
from factor_checks import setup, sweep, values, where, cfgname, MATX, kinds

# ---------------------------------------------------------------------------------------------- C07
# documented sigma of each residual row (constructor documentation), for the factors that take more than one
ROW_SIGMA = {
    "Pose2DPriorFactor": ["position", "position", "angle"],
    "Pose2DBetweenFactor": ["position", "position", "angle"],
    "RangeBearingFactor2D": ["range", "bearing"],
    "PlanePriorFactor": ["normal", "normal", "normal", "distance"],
}


def sigma_atoms(m, it, cfg):
    out = {}
    for k, p in enumerate(cfg["ctor"]["params"]):
        if p["t"].get("fp") and m.sigma(p["name"]) and isinstance(it.ctor_args[k], al.Poly):
            i = M.atom_id(it.ctor_args[k])
            if i is not None:
                out[p["name"]] = i
    return out


def sigmas(m, cls, cfg, acc):
    nm = cfgname(m, cls, cfg)
    s = M.short(cls)
    loc = where(m, cls, "compute_residual", 0) or cls
    jloc = where(m, cls, "compute_jacobians")

    def run(p):
        it, fac, vs, tv = setup(m, p, cls, cfg)
        sg = sigma_atoms(m, it, cfg)
        if not sg:
            return
        names = {i: n for n, i in sg.items()}
        try:
            r = m.residual_value(it, fac)
            n = r.rows * r.cols
            q = m.residual_inplace(it, fac, n)
            vec = Vec([], MATX)
            m.jacobians(it, fac, vec)
        except Throw:
            raise PathEnd()
        acc.i("C07", nm)
        w = "; ".join(p.log)
        table = ROW_SIGMA.get(s)
        for r0, what, entries, l in ([(k, "compute_residual()", [x], loc) for k, x in enumerate(values(it, r))] +
                                     [(k, "compute_residual(result)", [x], loc) for k, x in enumerate(values(it, q))] +
                                     [(k, "Jacobian block %d" % b, [it.mread(c.v, k, j) for j in range(c.v.cols)], jloc) for b, c in enumerate(vec.c) for k in range(min(n, c.v.rows))]):
            want = None
            if table and r0 < len(table):
                cand = [i for nme, i in sg.items() if nme.lower().startswith(table[r0]) or table[r0] in nme.lower()]
                want = cand[0] if len(cand) == 1 else None
            elif len(sg) == 1:
                want = next(iter(sg.values()))
            ids = set(sg.values())
            for e in entries:
                e = al.cancel(e)
                if not e.t or kinds(e, ("uninit", "stale", "nonfinite", "top")):
                    continue
                acc.o("C07")
                hit = [i for i in ids if not al.depends(al.cancel(e * al.Poly.atom(i)), ids)]
                if want is not None and want in hit:
                    continue
                if want is None and hit:
                    continue
                # the dependence may be left only because a normal form was not found
                dep = [names[i] for i in ids if al.depends(e, {i})]
                if want is not None:
                    sure = definitely_not(e, want, ids)
                else:
                    sure = all(definitely_not(e, i, ids) for i in ids)
                key = "%s row %d" % (s, r0)
                msg = "%s: row %d of %s is not 1/%s times a sigma-free value (depends on %s): %s [%s]" % (nm, r0, what, names.get(want, "one sigma"), ", ".join(dep) or "no sigma", al.pstr(e, 5), w)
                if sure:
                    acc.v("C07", key, msg, l)
                else:
                    acc.a("C07", key, msg)
    sweep(m, run, acc, ("C07",), nm, cls, "compute_residual", 300)


def definitely_not(e, i, ids):
    """e*sigma_i certainly depends on some sigma: its derivative with respect to one of them does not vanish"""
    x = al.cancel(e * al.Poly.atom(i))
    for j in ids:
        d = al.deriv(x, al.Seeds(atoms={j: ONE}))
        if kinds(d, ("top",)):
            return False
        if al.is_zero(al.cancel(d)) is False:
            return True
    return False


# ---------------------------------------------------------------------------------------------- C08
INF = None


def iadd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])


def iscale(a, k):
    x = (None if a[0] is None else a[0] * k, None if a[1] is None else a[1] * k)
    return x if k >= 0 else (x[1], x[0])


def imul(a, b):
    if None in a or None in b:
        return (None, None)
    v = [x * y for x in a for y in b]
    return (min(v), max(v))


def meet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return (lo, hi)


class Bounds:
    """interval domain on value numbers, refined by the comparisons taken on the trace"""

    def __init__(self, facts, base=None):
        self.facts = facts
        self.base = base or {}
        self.memo = {}

    def atom(self, i):
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = (None, None)
        a = al.CTX.atoms[i]
        r = self.base.get(i, (None, None))
        if a.kind in ("sin", "cos"):
            r = (Fr(-1), Fr(1))
        elif a.kind == "fn":
            if a.name == "atan2":
                r = (-al.PI, al.PI)
            elif a.name == "acos":
                r = (Fr(0), al.PI)
            elif a.name in ("asin", "atan"):
                r = (-al.PI / 2, al.PI / 2)
            elif a.name == "remainder" and a.args[1].is_const():
                h = abs(a.args[1].cval()) / 2
                r = (-h, h)
            elif a.name == "fmod" and a.args[1].is_const():
                h = abs(a.args[1].cval())
                x = self.poly(a.args[0])
                r = (Fr(0) if x[0] is not None and x[0] >= 0 else -h, Fr(0) if x[1] is not None and x[1] <= 0 else h)
        elif a.kind == "sqrt":
            r = (Fr(0), None)
        if i in al.CTX.pos:
            r = meet(r, (Fr(0), None))
        self.memo[i] = r
        return r

    def rounded(self, p):
        """floor(u) = u - fraction, and so on"""
        ids = {}
        for i in p.atoms():
            a = al.CTX.atoms[i]
            if a.kind == "fn" and a.name in ("floor", "ceil", "round", "trunc", "rint", "nearbyint", "lround"):
                f = al.sym("frac", kind="frac")
                fi = M.atom_id(f)
                lo, hi = {"floor": (-1, 0), "ceil": (0, 1), "trunc": (-1, 1)}.get(a.name, (Fr(-1, 2), Fr(1, 2)))
                self.base[fi] = (Fr(lo), Fr(hi))
                ids[i] = a.args[0] + f
        return self.rounded(al.cancel(al.replace(p, ids))) if ids else p

    def linear(self, p):
        r = (p.t.get((), Fr(0)),) * 2
        for m, c in p.t.items():
            if m == ():
                continue
            x = (Fr(1), Fr(1))
            for i, e in m:
                b = self.atom(i)
                if e < 0 or None in b:
                    x = (None, None)
                    break
                for _ in range(e):
                    x = imul(x, b)
            r = iadd(r, iscale(x, c))
        return r

    def poly(self, p):
        p = self.rounded(p)
        r = self.linear(p)
        X, c0 = nonconst(p)
        if X is None:
            return r
        for d, rel in self.facts:
            dd = self.rounded(d)
            k, rest = proportion(dd, X)
            if k is None or rel == "!=":
                continue
            # k*X + rest rel 0
            lim = -rest / k
            up = (rel in (">", ">=")) == (k > 0)
            r = meet(r, (lim + c0, None) if up else (None, lim + c0))
        return r


def nonconst(p):
    c0 = p.t.get((), Fr(0))
    X = al.Poly({m: c for m, c in p.t.items() if m != ()})
    return (X, c0) if X.t else (None, c0)


def proportion(d, X):
    """(k, c) with d = k*X + c, k != 0, or (None, None)"""
    Y, c = nonconst(d)
    if Y is None:
        return None, None
    m = min(X.t)
    if m not in Y.t:
        if len(Y.t) != len(X.t):
            return None, None
        m2 = min(Y.t)
        k = Y.t[m2] / X.t[m]
    else:
        k = Y.t[m] / X.t[m]
    z = Y - X.scale(k)
    if not z.t or al.is_zero(al.cancel(z)) is True:
        return k, c
    return None, None


ANGLE_ROWS = {"BearingObservationFactor2D": [0], "RangeBearingFactor2D": [1], "Pose2DPriorFactor": [2], "Pose2DBetweenFactor": [2]}
TOL = Fr(1, 10 ** 6)


def inside(b):
    return b[0] is not None and b[1] is not None and b[0] >= -al.PI - TOL and b[1] <= al.PI + TOL


def certain(p, facts):
    """an interval that is not contained in [-pi, pi] is a definite violation when the value is an affine function of
    plain inputs (or of one bounded function value) and no other comparison restricts those"""
    if kinds(p, ("top", "uninit", "stale", "nonfinite")):
        return False
    ids = p.atoms()
    for m in p.t:
        if len(m) > 1 or any(e != 1 for _, e in m):
            return False
    X, _ = nonconst(p)
    for d, rel in facts:
        if X is not None and proportion(d, X)[0] is not None:
            continue
        if al.depends(d, ids):
            return False
    return True


def theta_base(m, it, objs):
    base = {}
    for o in objs:
        if o.cls in HEAD:
            v = it.method(o, "value")
            i = M.atom_id(it.mpolys(v)[2])
            if i is not None:
                base[i] = (-al.PI, al.PI)
    return base


HEAD = ("factorama::Pose2DVariable",)


def judge_angle(acc, key, msg, p, path, base, loc):
    acc.o("C08")
    p = al.cancel(p)
    B = Bounds(path.facts, dict(base))
    b = B.poly(p)
    if inside(b):
        return
    q = B.rounded(p)
    show = "[%s, %s]" % tuple("unbounded" if x is None else "%.6g" % float(x) for x in b)
    msg = "%s: value %s has range %s [%s]" % (msg, al.pstr(q, 5), show, "; ".join(path.log))
    if certain(q, path.facts):
        acc.v("C08", key, msg, loc)
    else:
        acc.a("C08", key, msg)


def angles(m, cls, cfg, acc):
    s = M.short(cls)
    if s not in ANGLE_ROWS:
        return
    nm = cfgname(m, cls, cfg)
    loc = where(m, cls, "compute_residual", 1)

    def run(p):
        it, fac, vs, tv = setup(m, p, cls, cfg)
        sg = sigma_atoms(m, it, cfg)
        n = it.to_int(it.method(fac, "residual_size"))
        base = theta_base(m, it, vs)
        try:
            a = m.residual_value(it, fac)
            b = m.residual_inplace(it, fac, n)
        except Throw:
            raise PathEnd()
        acc.i("C08", nm)
        for which, x in (("compute_residual()", a), ("compute_residual(result)", b)):
            for k in ANGLE_ROWS[s]:
                v = al.cancel(values(it, x)[k])
                for i in sg.values():
                    u = al.cancel(v * al.Poly.atom(i))
                    if not al.depends(u, set(sg.values())):
                        judge_angle(acc, "%s row %d" % (s, k), "%s: unweighted row %d of %s" % (nm, k, which), u, p, base, loc)
                        break
                else:
                    acc.a("C08", "%s row %d" % (s, k), "the row has no single sigma")
    sweep(m, run, acc, ("C08",), nm, cls, "compute_residual", 200)


def headings(m, cls, acc):
    """every public way of changing a planar pose leaves its heading wrapped"""
    F = m.F
    s = M.short(cls)
    meths = []
    for c in F.bases(cls):
        for f in F.fn.values():
            if f.get("rec") != c or f.get("ctor") or f.get("dtor") or f.get("const") or f.get("static") or f.get("deleted"):
                continue
            if f.get("access", "public") != "public" or f["name"].startswith("operator"):
                continue
            meths.append(f)
    seen = set()
    todo = [("construction", f, None) for f in m.ctors(cls)]
    names = sorted({(f["name"], len(f["params"])) for f in meths})
    todo += [("%s()" % n, None, (n, k)) for n, k in names]
    for what, ctor, meth in todo:
        def run(p):
            al.set_ctx(al.Ctx())
            it = m.interp(p)
            o = m.make_var(it, cls, "v", vid=1, ctor=ctor, raw=True)
            base = {}
            loc = "%s:%s" % (ctor["file"], ctor["line"]) if ctor else ""
            if meth:
                # inductive step: the state is arbitrary with a wrapped heading
                st = [M.latom("x"), M.latom("y"), M.latom("theta")]
                i = M.atom_id(st[2])
                put(m, it, o, st)
                base[i] = (-al.PI, al.PI)
                p.facts.clear()
                p.log.clear()
                fs = [f for f in meths if f["name"] == meth[0] and len(f["params"]) == meth[1]]
                f = F.resolve_virtual(cls, fs[0]) if False else fs[0]
                args = []
                for a in f["params"]:
                    args.append(m.arg(it, a, "in", dim=it.to_int(it.method(o, "size")), raw=True))
                try:
                    it.method(o, meth[0], args)
                except Throw:
                    raise PathEnd()
                loc = "%s:%s" % (f["file"], f["line"])
            acc.i("C08", "%s %s" % (s, what))
            v = it.mpolys(it.method(o, "value"))
            judge_angle(acc, "%s heading after %s" % (s, what), "%s: heading after %s" % (s, what), v[2], p, base, loc)
            if F.methods(cls, "theta"):
                judge_angle(acc, "%s theta() after %s" % (s, what), "%s: theta() after %s" % (s, what), it.to_poly(it.method(o, "theta")), p, base, loc)
        for p, r, err in I.explore(run, 60):
            if isinstance(err, (Unsupported, al.TooBig, UB)):
                acc.a("C08", "%s %s" % (s, what), str(err))


def put(m, it, o, st):
    """install a value vector directly into the state cells that make up value()"""
    v = it.method(o, "value")
    cur = it.mpolys(v)
    mp = {}
    for path, c in m.atoms_of(o):
        if isinstance(c.v, al.Poly):
            for k, q in enumerate(cur):
                if c.v == q:
                    mp[id(c)] = (c, st[k])
    for c, x in mp.values():
        c.v = x
    now = it.mpolys(it.method(o, "value"))
    if now != st:
        raise Unsupported("state of %s" % o.cls)


# ---------------------------------------------------------------------------------------------- C29
def excluded(P, facts, depth=0):
    """the comparisons taken before rule out P == 0"""
    P = al.cancel(P)
    if not P.t:
        return False
    if P.is_const():
        return True
    for d, rel in facts:
        X, c = nonconst(P)
        # the program compared this very value (up to a factor) with a constant
        k, rest = proportion(d, X) if X is not None else (None, None)
        if k is not None:
            at0 = rest - k * c if X is not None else rest
            if contradicts(at0, rel):
                return True
        i = M.atom_id(P)
        if i is not None:
            ok = all(e > 0 for m in d.t for j, e in m if j == i)
            if ok and any(j == i for m in d.t for j, e in m):
                z = al.Poly({m: c for m, c in d.t.items() if all(j != i for j, e in m)})
                if z.is_const() and contradicts(z.cval(), rel):
                    return True
    c, mono, q = al.content(P)
    parts = [al.Poly.atom(i) for i, e in mono if i not in al.CTX.pos or al.CTX.atoms[i].kind in ("sqrt", "den")]
    if not q.is_const() and not (al.positive_sum(q) and strictly(q)):
        parts.append(q)
    if depth > 6:
        return False
    if len(parts) == 1 and parts[0] == P:
        i = M.atom_id(P)
        if i is not None:
            a = al.CTX.atoms[i]
            if a.kind in ("sqrt", "den"):
                if excluded(a.args[0], facts, depth + 1):
                    return True
                return acos_guard(a.args[0], facts)
            if a.kind in ("sin",):
                return sin_guard(i, facts)
            return False
        return sum_guard(P, facts)
    if len(parts) == 1 and (parts[0] + P).t == {}:
        return sum_guard(parts[0], facts) or sum_guard(P, facts)
    if not parts:
        return True
    return all(excluded(x, facts, depth + 1) for x in parts)


def sum_guard(P, facts):
    """a sum: its square root was compared, or it is a square plus something positive"""
    for i, a in enumerate(al.CTX.atoms):
        if a.kind == "sqrt":
            Q = a.args[0]
            if Q == P or Q == -P or len(Q.t) == len(P.t) and (al._alike(Q, P) or al._alike(Q, -P)):
                if any(contradicts_atom(al.Poly.atom(i), d, rel) for d, rel in facts):
                    return True
    return acos_guard(P, facts) or positive(P) or positive(-P)


def positive(P, depth=0):
    """P > 0 because it is a sum of positive terms and of positive multiples of squares (the arguments of square roots)"""
    if al.positive_sum(P) and strictly(P):
        return True
    if depth > 2:
        return False
    for i, a in enumerate(al.CTX.atoms):
        if a.kind != "sqrt":
            continue
        Q = a.args[0]
        if len(Q.t) < 2:
            continue
        lead = min(Q.t)
        inv = tuple((k, -e) for k, e in lead)
        seen = set()
        for m, c in list(P.t.items()):
            t = al._mmul(m, inv)
            if t in seen or any(e < 0 and k not in al.CTX.pos for k, e in t):
                continue
            seen.add(t)
            k = c / Q.t[lead]
            T = al.Poly({t: k})
            if not al.positive_sum(T):
                continue
            rem = P - T * Q
            if len(rem.t) < len(P.t) and positive(rem, depth + 1):
                return True
    return False


def infeasible(facts):
    """no input takes this trace: a comparison contradicts the range of a bounded function value"""
    B = Bounds([])
    for d, rel in facts:
        if rel == "!=" or len(d.t) > 40:
            continue
        lo, hi = B.linear(B.rounded(d))
        if rel in (">", ">=") and hi is not None and (hi < 0 or hi == 0 and rel == ">"):
            return True
        if rel in ("<", "<=") and lo is not None and (lo > 0 or lo == 0 and rel == "<"):
            return True
    return False


def strictly(q):
    """a sum of positive terms that are not all squares of possibly zero atoms"""
    for m, c in q.t.items():
        if all(i in al.CTX.pos and al.CTX.atoms[i].kind not in ("sqrt",) for i, e in m):
            return True
    return False


def contradicts(c, rel):
    return {">": c <= 0, ">=": c < 0, "<": c >= 0, "<=": c > 0, "!=": c == 0}[rel]


def contradicts_atom(r, d, rel):
    X, c = nonconst(r)
    k, rest = proportion(d, X)
    return k is not None and contradicts(rest - k * c, rel)


def acos_guard(P, facts):
    """P = 1 - x^2 with acos(x) kept away from 0 and pi"""
    for i, a in enumerate(al.CTX.atoms):
        if a.kind == "fn" and a.name in ("acos", "asin"):
            x = a.args[0]
            k, rest = proportion(P, ONE - x * x) if not (ONE - x * x).is_const() else (None, None)
            z = al.cancel(ONE - x * x)
            if al.is_zero(P - z) is not True:
                X1, c1 = nonconst(z)
                X2, c2 = nonconst(P)
                if X1 is None or X2 is None:
                    continue
                kk, cc = proportion(P, X1)
                if kk is None or cc != kk * c1:
                    continue
            B = Bounds(facts)
            lo, hi = B.poly(al.Poly.atom(i))
            if a.name == "acos" and lo is not None and hi is not None and lo > 0 and hi < al.PI:
                return True
            if a.name == "asin" and lo is not None and hi is not None and lo > -al.PI / 2 and hi < al.PI / 2:
                return True
    return False


def sin_guard(i, facts):
    m, u, k = al.CTX.trigid[i]
    arg = al.Poly({m: u})
    lo, hi = Bounds(facts).poly(arg)
    return lo is not None and hi is not None and lo > 0 and hi < al.PI


def div_recorder(m, acc, p, where_, out):
    def cb(it, b, e):
        b = al.cancel(b)
        if kinds(b, ("uninit", "stale", "nonfinite", "top")):
            return
        if b.is_const() and b.t:
            return
        loc = it.L(e) if e else "?"
        fn = (it.curfn or {}).get("q", "?")
        acc.o("C29")
        acc.i("C29", "%s (%s)" % (loc, M.short(fn)))
        if b.t and excluded(b, p.facts):
            return
        key = "%s divides by %s" % (M.short(fn), role(b))
        out.append((key, "%s at %s: divisor %s can be zero: nothing on this path compared it with zero or a limit [%s]" % (where_, loc, al.pstr(b, 5), "; ".join(p.log)), loc))
    return cb


def role(b):
    """short, line-independent description of a divisor"""
    if not b.t:
        return "zero"
    ks = sorted({al.CTX.atoms[i].kind for i in b.atoms()})
    if ks == ["sqrt"]:
        return "a norm"
    if "rot" in ks or "sqrt" in ks:
        return "a computed length or component"
    if "sin" in ks or "cos" in ks:
        return "a trigonometric value"
    return "a difference or component"


def divisions(m, cls, cfg, acc):
    # every choice of constant variables: each block is guarded on its own, whichever of them are computed
    n = None

    def count(p):
        nonlocal n
        it, fac, vs, tv = setup(m, p, cls, cfg)
        n = len(tv)
    for p, r, err in I.explore(count, 60):
        pass
    n = n or 0
    for const in (c for k in range(n + 1) for c in itertools.combinations(range(n), k)):
        divisions1(m, cls, cfg, acc, const)


def divisions1(m, cls, cfg, acc, const):
    nm = cfgname(m, cls, cfg) + (" with variables %s constant" % ", ".join(map(str, const)) if const else "")

    def run(p):
        it, fac, vs, tv = setup(m, p, cls, cfg, const)
        p.facts.clear()
        found = []
        vec = Vec([], MATX)
        it.div_cb = div_recorder(m, acc, p, nm, found)
        try:
            m.jacobians(it, fac, vec)
        except Throw:
            pass
        it.div_cb = None
        if found and infeasible(p.facts):
            return
        for k, msg, loc in found:
            acc.v("C29", k, msg, loc)
    sweep(m, run, acc, ("C29",), nm, cls, "compute_jacobians", 300)
    acc.i("C29", nm + " compute_jacobians")
    acc.o("C29")


def helper_divisions(m, acc):
    """the rotation maps themselves, on an unrestricted argument"""
    F = m.F
    for f in sorted(F.fn.values(), key=lambda f: (f["q"], f["id"])):
        if "body" not in f or f.get("rec") and not f.get("static") or not f["params"] or f.get("ctor"):
            continue
        if not f["q"].startswith("factorama::"):
            continue
        ok = all(M._is_mat(a["t"], 3, 1) or M._is_mat(a["t"], 3, 3) or a["t"].get("fp") for a in f["params"])
        if not ok or not any(M._is_mat(a["t"], 3, 1) or M._is_mat(a["t"], 3, 3) for a in f["params"]):
            continue

        def run(p, f=f):
            al.set_ctx(al.Ctx())
            it = I.Interp(F, p)
            cells = []
            for k, a in enumerate(f["params"]):
                if M._is_mat(a["t"], 3, 3):
                    l = M.lletter("R%d" % k)
                    cells.append(Cell(it.newmat(3, 3, al.word_entries(((l, 1),)), 3, 3)))
                elif a["t"].get("fp"):
                    cells.append(Cell(M.latom("s%d" % k)))
                else:
                    cells.append(Cell(it.newmat(3, 1, [M.latom("v%d%d" % (k, j)) for j in range(3)], 3, 1)))
            found = []
            it.div_cb = div_recorder(m, acc, p, f["q"], found)
            try:
                it.call(f, None, cells)
            except Throw:
                pass
            it.div_cb = None
            acc.i("C29", f["q"])
            acc.o("C29")
            if infeasible(p.facts):
                return
            for k, msg, loc in found:
                acc.v("C29", k, msg, loc)
        for p, r, err in I.explore(run, 100):
            if isinstance(err, (Unsupported, al.TooBig, UB)):
                acc.a("C29", f["q"], str(err))
