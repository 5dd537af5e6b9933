"""Obligations on variables: derived state (C09), length checks (C10), clones (C28)."""
from fractions import Fraction as Fr
import algebra as al, interp as I, model as M
from algebra import C, ZERO, ONE
from interp import Cell, Vec, Mat, Obj, Str, Unsupported, UB, Throw, PathEnd
from factor_checks import kinds
from factor_checks2 import Bounds, infeasible, TOL
from factor_checks3 import same, ANG, EQ


def mutators(m, cls):
    """public non-const members that take the object from one state to another"""
    F = m.F
    out = {}
    for c in F.bases(cls):
        for f in F.fn.values():
            if f.get("rec") != c or f.get("ctor") or f.get("dtor") or f.get("const") or f.get("static") or f.get("deleted"):
                continue
            if f.get("access", "public") != "public" or f["name"].startswith("operator") or "body" not in f:
                continue
            out.setdefault((f["name"], tuple(p["t"].get("n", "") for p in f["params"])), f)
    return [out[k] for k in sorted(out)]


def dims(cls):
    return (3, 1, 2, 4) if cls == "factorama::GenericVariable" else (None,)


def loc_of(f):
    return "%s:%s" % (f["file"], f["line"])


def state(m, o):
    """flat list of (path, value) of everything the object holds"""
    return [(p, c.v) for p, c in m.atoms_of(o)]


def accessors(m, cls):
    """public const parameterless members that return numbers"""
    F = m.F
    out = {}
    for c in F.bases(cls):
        for f in F.fn.values():
            if f.get("rec") == c and not f.get("ctor") and f.get("const") and not f["params"] and f.get("access", "public") == "public" and "body" in f and not f.get("static"):
                t = f["ret"]
                if t.get("fp") or I.parse_mat_type(t.get("n", "")):
                    out.setdefault(f["name"], f)
    return out


def snapshot(m, it, o, acs):
    out = {}
    for n in acs:
        try:
            r = it.method(o, n)
            out[n] = it.mpolys(r) if isinstance(r, Mat) else [it.to_poly(r)]
        except Throw:
            out[n] = None
    return out


def angle_entry(cls, name, k):
    return cls.endswith("Pose2DVariable") and (name == "theta" or name == "value" and k == 2)


def fresh(m, it, cls, dim, raw=False):
    o = m.make_var(it, cls, "v", dim, vid=1, raw=raw)
    if not raw:
        m.abstract_state(it, o)
    return o


def derived(m, cls, acc):
    F = m.F
    s = M.short(cls)
    acs = sorted(accessors(m, cls))
    todo = [("construction", None, f) for f in m.ctors(cls)] + [(f["name"] + "()", f, None) for f in mutators(m, cls)]
    for dim in dims(cls):
        for what, meth, ctor in todo:
            nm = "%s%s after %s" % (s, "(%d)" % dim if dim else "", what)
            loc = loc_of(meth or ctor)

            def run(p):
                al.set_ctx(al.Ctx())
                it = m.interp(p)
                inp = None
                old = set()
                if ctor is not None:
                    o = m.make_var(it, cls, "v", dim, vid=1, ctor=ctor, raw=True)
                else:
                    o = fresh(m, it, cls, dim)
                    p.facts.clear()
                    p.log.clear()
                    hypothesis(it, o, p)
                    m.generic(p)
                    for _, x in state(m, o):
                        if isinstance(x, al.Poly):
                            old |= symbols(x)
                    n = it.to_int(it.method(o, "size"))
                    args = [m.arg(it, a, "in", dim=n, raw=True) for a in meth["params"]]
                    if meth["name"] == "set_value_from_vector" and isinstance(args[0], Mat):
                        inp = it.mpolys(args[0])
                    try:
                        it.method(o, meth["name"], args)
                    except Throw:
                        raise PathEnd()
                acc.i("C09", nm)
                before = snapshot(m, it, o, acs)
                if p.degenerate:
                    stale_rotation(acc, s, nm, what, before, old, p, loc)
                    raise PathEnd()
                w = "; ".join(p.log)
                val = before.get("value")
                if val is None:
                    raise Unsupported("value()")
                for n, v in before.items():
                    for k, x in enumerate(v or ()):
                        acc.o("C09")
                        if kinds(x, ("uninit",)):
                            acc.v("C09", "%s %s uninitialised" % (s, what), "%s: %s() entry %d is uninitialised [%s]" % (nm, n, k, w), loc)
                # what was set is what is read
                if inp is not None and meth["name"] == "set_value_from_vector":
                    readback(acc, m, cls, s, nm, inp, val, p, loc)
                # rotation vector and rotation matrix belong together
                mats = [n for n, v in before.items() if v is not None and len(v) == 9]
                if mats and len(val) >= 3:
                    wd = al.vec_is_log(val[-3:])
                    for n in mats:
                        acc.o("C09")
                        e = before[n]
                        if wd is not None:
                            ref = al.word_entries(wd)
                            z = [al.is_zero(al.cancel(a - b)) for a, b in zip(e, ref)]
                            if any(x is False for x in z):
                                acc.v("C09", "%s %s() after %s" % (s, n, what), "%s: %s() is not the rotation of the reported rotation vector [%s]" % (nm, n, w), loc)
                            elif any(x is None for x in z):
                                acc.a("C09", nm, "%s() against the rotation vector undecided" % n)
                        else:
                            acc.a("C09", nm, "rotation vector not recognised")
                # slices reported elsewhere agree with the value vector
                for n, v in before.items():
                    if v is None or n in mats or n == "value" or len(v) > len(val):
                        continue
                    where_ = SLICES.get((s, n))
                    if where_ is None:
                        continue
                    for k, x in enumerate(v):
                        acc.o("C09")
                        z = al.is_zero(al.cancel(x - val[where_ + k]))
                        if z is False:
                            acc.v("C09", "%s %s() after %s" % (s, n, what), "%s: %s()[%d] is %s, value()[%d] is %s [%s]" % (nm, n, k, al.pstr(x, 4), where_ + k, al.pstr(val[where_ + k], 4), w), loc)
                        elif z is None:
                            acc.a("C09", nm, "%s() undecided" % n)
                invariant(acc, m, it, cls, s, nm, what, o, val, p, loc)
                # writing the reported value back changes nothing
                c = it.copyobj(o)
                k0 = len(p.degenerate)
                it.method(c, "set_value_from_vector", [it.newmat(len(val), 1, list(val), -1, 1)])
                if len(p.degenerate) > k0:
                    raise PathEnd()
                after = snapshot(m, it, c, acs)
                for n in acs:
                    if (before[n] is None) != (after[n] is None):
                        continue
                    for k, (x, y) in enumerate(zip(before[n] or (), after[n] or ())):
                        acc.o("C09")
                        z = same(ANG if angle_entry(cls, n, k) else EQ, x, y)
                        if z is False and not infeasible(p.facts):
                            acc.v("C09", "%s %s" % (s, what), "%s: %s() entry %d is %s, after writing value() back it is %s [%s]" % (nm, n, k, al.pstr(x, 4), al.pstr(y, 4), w), loc)
                        elif z is None:
                            acc.a("C09", nm, "%s() fixed point undecided" % n)
            for p, r, err in I.explore(run, 120):
                if isinstance(err, UB):
                    acc.v("C09", "%s %s %s" % (s, what, err.what), "%s: %s" % (nm, err), str(err.loc))
                elif isinstance(err, (Unsupported, al.TooBig)):
                    acc.a("C09", nm, str(err))


def symbols(x):
    """names of the independent quantities a value number mentions: rotations, and symbols without their index"""
    out, seen = set(), set()

    def go(i):
        if i in seen:
            return
        seen.add(i)
        if i in al.CTX.letterof:
            out.add(("rotation", al.CTX.letterof[i][0]))
            return
        if i in al.CTX.logids:
            out.update(("rotation", l) for l, _ in al.CTX.logids[i][0])
            return
        a = al.CTX.atoms[i]
        if not a.args:
            out.add(a.name.rstrip("0123456789xyz"))
        for q in a.args:
            for j in q.atoms():
                go(j)
    for i in x.atoms():
        go(i)
    return out


def stale_rotation(acc, s, nm, what, before, old, p, loc):
    """on a nearly-equal / small-angle branch exact identities do not apply, but a rotation matrix that is still a function
    of the previous state although the rotation vector no longer is has not been brought up to date"""
    val = before.get("value")
    if val is None or len(val) < 3:
        return
    vs = set()
    for x in val[-3:]:
        vs |= symbols(x)
    for n, v in before.items():
        if v is None or len(v) != 9:
            continue
        acc.o("C09")
        ms = set()
        for x in v:
            ms |= symbols(x)
        extra = (ms - vs) & old
        if vs and extra:
            acc.v("C09", "%s %s() after %s" % (s, n, what), "%s: %s() still depends on the previous state, which the reported rotation vector no longer mentions [%s]" % (nm, n, "; ".join(p.log)), loc)


def hypothesis(it, o, p):
    """the invariant holds in the state a member starts from (every constructor and every other member establishes it)"""
    lim = [it.to_poly(it.read(o.f[k])) for k in ("minimum_inverse_range_", "maximum_inverse_range_") if k in o.f]
    if len(lim) != 2:
        return
    v = it.mpolys(it.method(o, "value"))[0]
    for d, rel in ((v - lim[0], ">="), (lim[1] - v, ">=")):
        if not d.is_const():
            p.facts.append((d, rel))
            n = al.content(d)
            p.signs[n[2]] = 1 if n[0] > 0 else -1


# documented meaning of accessors that report part of the value vector (offset of the first entry)
SLICES = {("PoseVariable", "pos_W"): 0, ("PoseVariable", "rot_CW"): 3, ("Pose2DVariable", "pos_2d"): 0, ("Pose2DVariable", "theta"): 2,
          ("PlaneVariable", "unit_vector"): 0, ("PlaneVariable", "distance_from_origin"): 3, ("InverseRangeVariable", "inverse_range"): 0,
          ("LandmarkVariable", "pos_W"): 0}


def readback(acc, m, cls, s, nm, inp, val, p, loc):
    if s == "PlaneVariable":
        return    # normalised: covered by the invariant and the fixed point
    if len(inp) != len(val):
        acc.v("C09", "%s read back" % s, "%s: %d values written, %d reported" % (nm, len(inp), len(val)), loc)
        return
    for k, (x, y) in enumerate(zip(inp, val)):
        acc.o("C09")
        if s == "InverseRangeVariable" and y.is_const():
            continue    # clamped to a limit
        z = same(ANG if angle_entry(cls, "value", k) else EQ, x, y)
        if z is False:
            acc.v("C09", "%s read back" % s, "%s: entry %d written as %s, reported as %s [%s]" % (nm, k, al.pstr(x, 4), al.pstr(y, 4), "; ".join(p.log)), loc)
        elif z is None:
            acc.a("C09", nm, "read back of entry %d undecided" % k)


def invariant(acc, m, it, cls, s, nm, what, o, val, p, loc):
    w = "; ".join(p.log)
    if s == "PlaneVariable":
        q = ZERO
        for x in val[:3]:
            q = q + x * x
        acc.o("C09")
        z = al.is_zero(al.cancel(q - ONE))
        if z is False:
            acc.v("C09", "PlaneVariable normal after %s" % what, "%s: squared length of the normal is %s, not one [%s]" % (nm, al.pstr(q, 5), w), loc)
        elif z is None:
            acc.a("C09", nm, "length of the normal undecided")
    if s == "InverseRangeVariable":
        lim = [it.read(o.f[k]) for k in ("minimum_inverse_range_", "maximum_inverse_range_") if k in o.f]
        if len(lim) != 2:
            acc.a("C09", nm, "limits not found")
            return
        lo, hi = [it.to_poly(x) for x in lim]
        acc.o("C09")
        if not (lo.is_const() and hi.is_const()):
            acc.a("C09", nm, "limits not constant")
            return
        b = Bounds(p.facts).poly(val[0])
        if b[0] is None or b[1] is None or b[0] < lo.cval() or b[1] > hi.cval():
            if infeasible(p.facts):
                return
            show = "[%s, %s]" % tuple("unbounded" if x is None else "%.6g" % float(x) for x in b)
            acc.v("C09", "InverseRangeVariable limits after %s" % what, "%s: inverse range %s has range %s, limits are [%g, %g] [%s]" % (nm, al.pstr(val[0], 3), show, float(lo.cval()), float(hi.cval()), w), loc)


# ---------------------------------------------------------------------------------------------- C10
def lengths(m, cls, acc):
    s = M.short(cls)
    for dim in dims(cls):
        for meth in ("set_value_from_vector", "apply_increment"):
            f = None
            for c in m.F.bases(cls):
                for g in m.F.methods(c, meth, inherited=False):
                    if "body" in g:
                        f = f or g
            if f is None:
                continue
            loc = loc_of(f)
            info = {}

            def probe(p):
                al.set_ctx(al.Ctx())
                it = m.interp(p)
                o = fresh(m, it, cls, dim)
                info["n"] = it.to_int(it.method(o, "size"))
                raise PathEnd()
            for p, r, err in I.explore(probe, 8):
                if info:
                    break
            if not info:
                acc.a("C10", "%s::%s" % (s, meth), "size unknown")
                continue
            n = info["n"]
            for k in sorted({0, max(0, n - 1), n + 1, n + 3, 2 * n} - {n}):
                nm = "%s%s::%s with %d entries instead of %d" % (s, "(%d)" % dim if dim else "", meth, k, n)

                def run(p):
                    al.set_ctx(al.Ctx())
                    it = m.interp(p)
                    o = fresh(m, it, cls, dim)
                    before = state(m, o)
                    arg = it.newmat(k, 1, [M.latom("x%d" % i) for i in range(k)], -1, 1)
                    acc.i("C10", nm)
                    acc.o("C10", 2)
                    try:
                        it.method(o, meth, [arg])
                    except Throw:
                        if state(m, o) != before:
                            acc.v("C10", "%s::%s modifies" % (s, meth), "%s throws, but the variable has already been modified" % nm, loc)
                        return
                    except UB as u:
                        acc.v("C10", "%s::%s length" % (s, meth), "%s is not rejected: %s" % (nm, u), loc)
                        return
                    acc.v("C10", "%s::%s length" % (s, meth), "%s is not rejected" % nm, loc)
                for p, r, err in I.explore(run, 40):
                    if isinstance(err, (Unsupported, al.TooBig)):
                        acc.a("C10", nm, str(err))


# ---------------------------------------------------------------------------------------------- C28
def cells_of(o):
    out = []

    def go(v):
        if isinstance(v, Obj):
            for c in v.f.values():
                out.append(c)
                go(c.v)
        elif isinstance(v, Mat):
            out.extend(v.cells)
        elif isinstance(v, Vec):
            for c in v.c:
                out.append(c)
                go(c.v)
    go(o)
    return out


def deep(v):
    if isinstance(v, Obj):
        return ("obj", v.cls, tuple((k, deep(c.v)) for k, c in sorted(v.f.items())))
    if isinstance(v, Mat):
        return ("mat", v.rows, v.cols, tuple(c.v for c in v.cells))
    if isinstance(v, Vec):
        return ("vec", tuple(deep(c.v) for c in v.c))
    if isinstance(v, Str):
        return ("str", v.s)
    return v


def clones(m, cls, acc):
    s = M.short(cls)
    F = m.F
    f = None
    for c in F.bases(cls):
        for g in F.methods(c, "clone", inherited=False):
            if "body" in g:
                f = f or g
    loc = loc_of(f) if f else cls
    for dim in dims(cls):
        for const in (False, True):
            nm = "%s%s::clone() of a %s variable" % (s, "(%d)" % dim if dim else "", "constant" if const else "free")

            def run(p):
                al.set_ctx(al.Ctx())
                it = m.interp(p)
                o = fresh(m, it, cls, dim)
                # every plain field gets a value of its own, so that a field that is reset instead of copied shows
                for k, cell in o.f.items():
                    if isinstance(cell.v, al.Poly) and cell.v.is_const():
                        cell.v = M.latom("f.%s" % k, pos=cell.v.cval() > 0)
                    elif isinstance(cell.v, bool):
                        pass
                    elif isinstance(cell.v, int):
                        cell.v = 7001
                it.method(o, "set_constant", [const])
                before = deep(o)
                c = it.method(o, "clone")
                acc.i("C28", nm)
                acc.o("C28", 4)
                if not isinstance(c, Obj):
                    acc.v("C28", "%s null" % s, "%s does not return an object" % nm, loc)
                    return
                if c is o:
                    acc.v("C28", "%s same" % s, "%s returns the variable itself" % nm, loc)
                    return
                if c.cls != cls:
                    acc.v("C28", "%s class" % s, "%s returns a %s" % (nm, c.cls), loc)
                    return
                if deep(o) != before:
                    acc.v("C28", "%s original" % s, "%s modifies the original" % nm, loc)
                for k in o.f:
                    acc.o("C28")
                    a, b = deep(o.f[k].v), deep(c.f[k].v) if k in c.f else None
                    if a != b and not alike(it, o.f[k].v, c.f[k].v):
                        acc.v("C28", "%s field %s" % (s, k), "%s: field %s is not copied: %s in the original, %s in the clone [%s]" % (nm, k, show(a), show(b), "; ".join(p.log)), loc)
                x = {id(q) for q in cells_of(o)}
                if any(id(q) in x for q in cells_of(c)):
                    acc.v("C28", "%s shared" % s, "%s shares storage with the original" % nm, loc)
            for p, r, err in I.explore(run, 40):
                if isinstance(err, UB):
                    acc.v("C28", "%s %s" % (s, err.what), "%s: %s" % (nm, err), str(err.loc))
                elif isinstance(err, (Unsupported, al.TooBig)):
                    acc.a("C28", nm, str(err))


def alike(it, a, b):
    try:
        if isinstance(a, Mat) and isinstance(b, Mat):
            return (a.rows, a.cols) == (b.rows, b.cols) and all(al.is_zero(al.cancel(x - y)) is True for x, y in zip(it.mpolys(a), it.mpolys(b)))
        if isinstance(a, al.Poly) and isinstance(b, al.Poly):
            return al.is_zero(al.cancel(a - b)) is True
    except (Unsupported, UB):
        pass
    return False


def show(x):
    return str(x)[:120]
