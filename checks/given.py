"""C43: a variable takes exactly the value it is given, a factor reports the measurement and weights it was given.
The references are the documented meaning of constructors, setters and increments; the values compared are those the
public accessors report."""
import algebra as al, interp as I, model as M
from algebra import ZERO, ONE
from interp import Mat, Obj, Unsupported, UB, Throw, PathEnd
from factor_checks import kinds
from factor_checks2 import Bounds, infeasible
from factor_checks3 import same, ANG, EQ, norm, unit
from var_checks import mutators, dims, loc_of, fresh, hypothesis, state
import factor_checks as FC

CLIP = "clip"


def dot(a, b):
    s = ZERO
    for x, y in zip(a, b):
        s = s + x * y
    return s


def flat(it, r):
    return list(it.mpolys(r)) if isinstance(r, Mat) else [it.to_poly(r)]


def get(it, o, name):
    return flat(it, it.method(o, name))


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def eqs(v):
    return [(EQ, x) for x in v]


def exp_of(it, m, v):
    """what the library's own exponential gives for the vector (its formula is decided by C09), as a word"""
    return al.exp_word(v)


def left(it, v, old):
    """entries of Exp(v) * old"""
    w = al.word_of(old)
    if w is None:
        raise Unsupported("rotation before the increment")
    return al.word_entries(al.wreduce(al.exp_word(v) + w))


def planevec(n, d):
    return eqs(unit(n)) + [(EQ, d)]


def wrapped(v):
    return [(EQ, v[0]), (EQ, v[1]), (ANG, v[2])]


# what each accessor reports after the member, in terms of the arguments A (without the identifier) and what it reported
# before, B.  Accessors not named must report what they reported before (constructors: are not judged).
def _v(n):
    return lambda it, A, B: eqs(A[n])


SPEC = {
    "PoseVariable": {
        ("ctor", 1): {"value": lambda it, A, B: eqs(A[0]), "pos_W": lambda it, A, B: eqs(A[0][:3]), "rot_CW": lambda it, A, B: eqs(A[0][3:])},
        ("ctor", 2): {"pos_W": _v(0), "dcm_CW": _v(1)},
        "set_value_from_vector": {"value": _v(0), "pos_W": lambda it, A, B: eqs(A[0][:3]), "rot_CW": lambda it, A, B: eqs(A[0][3:]),
                                  "dcm_CW": lambda it, A, B: eqs(al.word_entries(al.exp_word(A[0][3:])))},
        "set_pose_vector": {"value": _v(0), "pos_W": lambda it, A, B: eqs(A[0][:3]), "rot_CW": lambda it, A, B: eqs(A[0][3:]),
                            "dcm_CW": lambda it, A, B: eqs(al.word_entries(al.exp_word(A[0][3:])))},
        "set_pos_W": {"value": lambda it, A, B: eqs(A[0] + B["value"][3:]), "pos_W": _v(0)},
        "set_dcm_CW": {"value": None, "rot_CW": None, "dcm_CW": _v(0), "pos_W": lambda it, A, B: eqs(B["pos_W"])},
        "apply_increment": {"value": None, "rot_CW": None, "pos_W": lambda it, A, B: eqs(add(B["pos_W"], A[0][:3])),
                            "dcm_CW": lambda it, A, B: eqs(left(it, A[0][3:], B["dcm_CW"]))},
    },
    "RotationVariable": {
        ("ctor", 1): {"dcm_AB": _v(0), "rotation": _v(0)},
        "set_value_from_vector": {"value": _v(0), "dcm_AB": lambda it, A, B: eqs(al.word_entries(al.exp_word(A[0]))), "rotation": None},
        "apply_increment": {"value": None, "rotation": None, "dcm_AB": lambda it, A, B: eqs(left(it, A[0], B["dcm_AB"]))},
    },
    "LandmarkVariable": {
        ("ctor", 1): {"value": _v(0), "pos_W": _v(0)},
        "set_value_from_vector": {"value": _v(0), "pos_W": _v(0)},
        "set_pos_W": {"value": _v(0), "pos_W": _v(0)},
        "apply_increment": {"value": lambda it, A, B: eqs(add(B["value"], A[0])), "pos_W": lambda it, A, B: eqs(add(B["value"], A[0]))},
    },
    "GenericVariable": {
        ("ctor", 1): {"value": _v(0)},
        "set_value_from_vector": {"value": _v(0)},
        "apply_increment": {"value": lambda it, A, B: eqs(add(B["value"], A[0]))},
    },
    "Pose2DVariable": {
        ("ctor", 1): {"value": lambda it, A, B: wrapped(A[0]), "pos_2d": lambda it, A, B: eqs(A[0][:2]), "theta": lambda it, A, B: [(ANG, A[0][2])],
                      "dcm_2d": lambda it, A, B: rot2(A[0][2])},
        "set_value_from_vector": {"value": lambda it, A, B: wrapped(A[0]), "pos_2d": lambda it, A, B: eqs(A[0][:2]), "theta": lambda it, A, B: [(ANG, A[0][2])],
                                  "dcm_2d": lambda it, A, B: rot2(A[0][2])},
        "set_pos_2d": {"value": lambda it, A, B: eqs(A[0] + B["value"][2:]), "pos_2d": _v(0)},
        "set_theta": {"value": lambda it, A, B: wrapped(B["value"][:2] + A[0]), "theta": lambda it, A, B: [(ANG, A[0][0])], "dcm_2d": lambda it, A, B: rot2(A[0][0])},
        "apply_increment": {"value": lambda it, A, B: wrapped(add(B["value"], A[0])), "pos_2d": lambda it, A, B: eqs(add(B["pos_2d"], A[0][:2])),
                            "theta": lambda it, A, B: [(ANG, B["theta"][0] + A[0][2])], "dcm_2d": lambda it, A, B: rot2(B["theta"][0] + A[0][2])},
    },
    "PlaneVariable": {
        ("ctor", 2): {"value": lambda it, A, B: planevec(A[0], A[1][0]), "unit_vector": lambda it, A, B: eqs(unit(A[0])), "distance_from_origin": _v(1)},
        "set_value_from_vector": {"value": lambda it, A, B: planevec(A[0][:3], A[0][3]), "unit_vector": lambda it, A, B: eqs(unit(A[0][:3])),
                                  "distance_from_origin": lambda it, A, B: eqs(A[0][3:])},
        "apply_increment": {"value": lambda it, A, B: planevec(add(B["value"][:3], A[0][:3]), B["value"][3] + A[0][3]),
                            "unit_vector": lambda it, A, B: eqs(unit(add(B["value"][:3], A[0][:3]))),
                            "distance_from_origin": lambda it, A, B: [(EQ, B["value"][3] + A[0][3])]},
    },
    "InverseRangeVariable": {
        ("ctor", 3): {"value": lambda it, A, B: [(CLIP, al.div(ONE, A[2][0]))], "inverse_range": lambda it, A, B: [(CLIP, al.div(ONE, A[2][0]))],
                      "origin_pos_W": _v(0), "bearing_W": lambda it, A, B: eqs(unit(A[1]))},
        "set_value_from_vector": {"value": lambda it, A, B: [(CLIP, A[0][0])], "inverse_range": lambda it, A, B: [(CLIP, A[0][0])], "pos_W": None},
        "apply_increment": {"value": lambda it, A, B: [(CLIP, B["value"][0] + A[0][0])], "inverse_range": lambda it, A, B: [(CLIP, B["value"][0] + A[0][0])], "pos_W": None},
        "clip_inverse_range": {},
    },
}
# entries (from the first) that are plain numbers
PLAIN = {("PoseVariable", "value"): 3, ("PoseVariable", "pos_W"): 3, ("LandmarkVariable", "value"): 3, ("LandmarkVariable", "pos_W"): 3,
         ("GenericVariable", "value"): 9, ("Pose2DVariable", "value"): 2, ("Pose2DVariable", "pos_2d"): 2, ("PlaneVariable", "distance_from_origin"): 1}
COMMON = {"set_constant": {"is_constant": None}}
# accessors of the variable classes (documented); is_constant, id, size and type are compared as well
READ = {
    "PoseVariable": ("value", "pos_W", "rot_CW", "dcm_CW"), "RotationVariable": ("value", "dcm_AB", "rotation"), "LandmarkVariable": ("value", "pos_W"),
    "GenericVariable": ("value",), "Pose2DVariable": ("value", "pos_2d", "theta", "dcm_2d"), "PlaneVariable": ("value", "unit_vector", "distance_from_origin"),
    "InverseRangeVariable": ("value", "inverse_range", "origin_pos_W", "bearing_W"),
}
# accessors that must agree with another one, whatever happened
TIED = {"RotationVariable": [("rotation", lambda B: B["dcm_AB"])]}


def rot2(t):
    s, c = al.sincos(t)
    return eqs([c, -s, s, c])


def rowmajor(it, v):
    return v


def limits(it, o):
    r = [it.to_poly(it.read(o.f[k])) for k in ("minimum_inverse_range_", "maximum_inverse_range_") if k in o.f]
    return r if len(r) == 2 else None


def clipped(it, o, p, x, ref):
    """x is ref where ref is within the limits, else the limit it passes"""
    z = al.is_zero(al.cancel(x - ref))
    if z is True:
        return True
    lim = limits(it, o)
    if lim is None or not all(l.is_const() for l in lim):
        return None
    if not x.is_const():
        return z
    b = Bounds(p.facts)
    d = al.cancel(ref - x)
    lo, hi = b.poly(d)
    if al.is_zero(x - lim[0]) is True:
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
        return None
    if al.is_zero(x - lim[1]) is True:
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        return None
    return False


def flags(it, o):
    out = {"is_constant": it.method(o, "is_constant"), "id": it.method(o, "id"), "size": it.to_int(it.method(o, "size"))}
    return out


def given(m, cls, acc):
    s = M.short(cls)
    spec = SPEC.get(s)
    if spec is None:
        acc.a("C43", s, "no documented value semantics known for this class")
        return
    reads = [n for n in READ[s] if m.F.methods(cls, n)]
    todo = [(None, f) for f in m.ctors(cls)] + [(f, None) for f in mutators(m, cls)]
    for dim in dims(cls):
        for meth, ctor in todo:
            nm = "%s%s %s" % (s, "(%d)" % dim if dim else "", "construction" if ctor else meth["name"] + "()")
            loc = loc_of(meth or ctor)
            for const in ((False, True) if meth is not None else (False,)):
                one(m, cls, s, spec, reads, dim, meth, ctor, const, nm, loc, acc)


def one(m, cls, s, spec, reads, dim, meth, ctor, const, nm, loc, acc):
    def run(p):
        al.set_ctx(al.Ctx())
        it = m.interp(p)
        B = {}
        if ctor is not None:
            o = m.make_var(it, cls, "v", dim, vid=4711, ctor=ctor, raw=True)
            A = it.var_args["v"]
            A = [a if isinstance(a, list) else a if isinstance(a, int) else [it.to_poly(a)] for a in A]
            names = [q["name"] for q in ctor["params"]]
            A = [a for a, q in zip(A, ctor["params"]) if not (q["t"].get("int") and "id" in q["name"].lower())]
            want = spec.get(("ctor", len(A)))
            if want is None:
                raise Unsupported("constructor with %d value arguments is not documented" % len(A))
        else:
            o = fresh(m, it, cls, dim)
            p.facts.clear()
            p.log.clear()
            hypothesis(it, o, p)
            m.generic(p)
            it.method(o, "set_constant", [const])
            n = it.to_int(it.method(o, "size"))
            B = {k: get(it, o, k) for k in reads}
            fl = flags(it, o)
            if meth["name"] == "set_constant":
                args = [not const]
                A = []
            else:
                args = [m.arg(it, a, "in", dim=n, raw=True) for a in meth["params"]]
                A = [flat(it, a) for a in args]
            want = spec.get(meth["name"], COMMON.get(meth["name"]))
            if want is None:
                raise Unsupported("effect of %s() is not documented" % meth["name"])
            try:
                it.method(o, meth["name"], args)
            except Throw:
                acc.o("C43")
                acc.v("C43", "%s refuses" % nm, "%s throws for an argument of the right size [%s]" % (nm, "; ".join(p.log)), loc)
                raise PathEnd()
            want = dict(want)
            for k in reads:
                if k not in want:
                    want[k] = lambda it, A, B, k=k: eqs(B[k])
        acc.i("C43", nm)
        w = "; ".join(p.log)
        if meth is not None:
            after = flags(it, o)
            for k, v in fl.items():
                acc.o("C43")
                exp = (not const) if k == "is_constant" and meth["name"] == "set_constant" else v
                if after[k] != exp:
                    acc.v("C43", "%s %s()" % (nm, k), "%s: %s() is %s afterwards, not %s [%s]" % (nm, k, after[k], exp, w), loc)
        if infeasible(p.facts):
            raise PathEnd()
        if p.degenerate:
            # identities of rotations and normals do not hold exactly there; positions and plain values still must
            for k in reads:
                if want.get(k) is None or (s, k) not in PLAIN:
                    continue
                for j, ((kind, a), x) in enumerate(list(zip(want[k](it, A, B), get(it, o, k)))[:PLAIN[(s, k)]]):
                    acc.o("C43")
                    if kind == EQ and same(EQ, x, a) is False:
                        acc.v("C43", "%s %s()" % (nm, k), "%s: %s() entry %d is %s, not %s [%s]" % (nm, k, j, al.pstr(x, 5), al.pstr(a, 5), w), loc)
            raise PathEnd()
        now = {k: get(it, o, k) for k in reads}
        for k in reads:
            r = want.get(k)
            if r is None:
                continue
            ref = r(it, A, B)
            if len(p.degenerate):
                raise PathEnd()
            acc.o("C43", len(ref))
            if len(ref) != len(now[k]):
                acc.v("C43", "%s %s()" % (nm, k), "%s: %s() has %d entries, %d expected [%s]" % (nm, k, len(now[k]), len(ref), w), loc)
                continue
            for j, ((kind, a), x) in enumerate(zip(ref, now[k])):
                z = clipped(it, o, p, x, a) if kind == CLIP else same(kind, x, a)
                if z is False:
                    acc.v("C43", "%s %s()" % (nm, k), "%s: %s() entry %d is %s, not %s [%s]" % (nm, k, j, al.pstr(x, 5), al.pstr(a, 5), w), loc)
                elif z is None:
                    acc.a("C43", nm, "%s() entry %d undecided: %s against %s" % (k, j, al.pstr(x, 5), al.pstr(a, 5)))
        for k, f in TIED.get(s, ()):
            if k not in now:
                continue
            for j, (x, a) in enumerate(zip(now[k], f(now))):
                acc.o("C43")
                z = same(EQ, x, a)
                if z is False:
                    acc.v("C43", "%s %s()" % (nm, k), "%s: %s() entry %d is %s, not %s [%s]" % (nm, k, j, al.pstr(x, 5), al.pstr(a, 5), w), loc)
        if s == "InverseRangeVariable" and m.F.methods(cls, "pos_W"):
            # the position it reports: origin plus range times bearing
            x = get(it, o, "pos_W")
            if not any(kinds(q, ("nonfinite",)) for q in x):
                rho = now["inverse_range"][0]
                acc.o("C43", 3)
                for j in range(3):
                    z = same(EQ, x[j], now["origin_pos_W"][j] + al.div(now["bearing_W"][j], rho))
                    if z is False:
                        acc.v("C43", "%s pos_W()" % nm, "%s: pos_W() entry %d is %s [%s]" % (nm, j, al.pstr(x[j], 5), w), loc)
                    elif z is None:
                        acc.a("C43", nm, "pos_W() entry %d undecided" % j)
        if s == "PlaneVariable" and m.F.methods(cls, "distance_from_point"):
            q = [M.latom("q%d" % j) for j in range(3)]
            x = flat(it, it.method(o, "distance_from_point", [it.newmat(3, 1, q, 3, 1)]))[0]
            acc.o("C43")
            z = same(EQ, x, dot(now["unit_vector"], q) + now["distance_from_origin"][0])
            if z is False:
                acc.v("C43", "%s distance_from_point()" % nm, "%s: distance_from_point(q) is %s [%s]" % (nm, al.pstr(x, 6), w), loc)
            elif z is None:
                acc.a("C43", nm, "distance_from_point() undecided")
    for p, r, err in I.explore(run, 160):
        if isinstance(err, UB):
            acc.v("C43", "%s %s" % (nm, err.what), "%s: %s" % (nm, err), str(err.loc))
        elif isinstance(err, (Unsupported, al.TooBig)):
            acc.a("C43", nm, str(err))
        elif isinstance(err, Throw) and ctor is not None:
            pass


# ------------------------------------------------------------------------------------------------- factors
# accessor -> the constructor parameter it reports, and how
OBS = {"bearing_C_obs": ("bearing", True), "bearing_angle_obs": ("bearing_angle", False), "range_obs": ("range_obs", False)}


def factor_accessors(m, cls, cfg, acc):
    """weights are one over the declared sigma of their kind; observations are those given (bearings normalised)"""
    F = m.F
    s = M.short(cls)
    f = cfg["ctor"]
    names = [p["name"] for p in f["params"]]
    acs = {}
    for c in F.bases(cls):
        for g in F.fn.values():
            if g.get("rec") == c and not g.get("ctor") and not g.get("dtor") and not g["params"] and g.get("access", "public") == "public" and not g.get("static"):
                if g["name"].endswith("weight") or g["name"].endswith("_obs"):
                    acs.setdefault(g["name"], g)
    if not acs:
        return
    nm0 = FC.cfgname(m, cls, cfg)

    def run(p):
        al.set_ctx(al.Ctx())
        it = m.interp(p)
        try:
            o, vs = m.build(it, cls, cfg, raw=True)
        except Throw:
            raise PathEnd()
        k0 = len(p.degenerate)
        acc.i("C43", nm0)
        for a, g in sorted(acs.items()):
            x = get(it, o, a)
            loc = loc_of(g)
            ref = None
            if a.endswith("weight"):
                kind = a[:-len("weight")].rstrip("_")
                cand = [k for k, n in enumerate(names) if m.sigma(n) and f["params"][k]["t"].get("fp")]
                if kind:
                    cand = [k for k in cand if kind in names[k]]
                elif len(cand) != 1:
                    continue
                if len(cand) != 1:
                    acc.a("C43", nm0, "no sigma parameter for %s()" % a)
                    continue
                ref = [al.inv(it.to_poly(it.ctor_args[cand[0]]))]
            elif a in OBS:
                key, u = OBS[a]
                cand = [k for k, n in enumerate(names) if key in n and k < len(it.ctor_args) and not m.sigma(n)]
                if len(cand) != 1:
                    acc.a("C43", nm0, "no parameter for %s()" % a)
                    continue
                v = it.ctor_args[cand[0]]
                v = v if isinstance(v, list) else [it.to_poly(v)]
                ref = unit(v) if u else v
            else:
                acc.a("C43", nm0, "%s() has no known reference" % a)
                continue
            if len(p.degenerate) > k0:
                raise PathEnd()
            acc.o("C43", len(ref))
            if len(ref) != len(x):
                acc.v("C43", "%s %s()" % (s, a), "%s: %s() has %d entries" % (nm0, a, len(x)), loc)
                continue
            for j, (y, r) in enumerate(zip(x, ref)):
                z = same(EQ, y, r)
                if z is False:
                    acc.v("C43", "%s %s()" % (s, a), "%s: %s() entry %d is %s, not %s [%s]" % (nm0, a, j, al.pstr(y, 5), al.pstr(r, 5), "; ".join(p.log)), loc)
                elif z is None:
                    acc.a("C43", nm0, "%s() undecided" % a)
    for p, r, err in I.explore(run, 600):
        if isinstance(err, UB):
            acc.v("C43", "%s %s" % (s, err.what), "%s: %s" % (nm0, err), str(err.loc))
        elif isinstance(err, (Unsupported, al.TooBig)):
            acc.a("C43", nm0, str(err))
