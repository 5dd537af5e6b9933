"""C36: each residual row is the documented measurement model.  The reference rows are written from the class and
constructor documentation, in terms of what the variables report through value() and of the constructor arguments; they
do not use the implementation."""
from fractions import Fraction as Fr
import algebra as al, interp as I, model as M
from algebra import C, ZERO, ONE
from interp import Cell, Vec, Mat, Obj, Unsupported, UB, Throw, PathEnd
from factor_checks import setup, sweep, unwarranted, values, where, cfgname, MATX, kinds
from factor_checks2 import sigma_atoms, ROW_SIGMA


class X:
    """what a reference may use: the k-th constructor parameter as a variable or as a plain argument"""

    def __init__(self, m, it, cfg, vs, p):
        self.m, self.it, self.cfg, self.p = m, it, cfg, p
        self.var = {}
        ks = [k for k in sorted(cfg["ptr"]) if cfg["ptr"][k][0] is not None]
        for k, v in zip(ks, vs):
            self.var[k] = v
        self.cache = {}

    def v(self, k):
        if k not in self.cache:
            self.cache[k] = self.it.mpolys(self.it.method(self.var[k], "value"))
        return self.cache[k]

    def a(self, k):
        if k >= len(self.it.ctor_args):
            return None
        return self.it.ctor_args[k]

    def word(self, k):
        v = self.v(k)
        w = al.vec_is_log(v[-3:])
        if w is None:
            raise Unsupported("rotation part of %s" % self.var[k].tag)
        return w

    def made(self, k, j):
        """j-th constructor argument of the k-th parameter's variable"""
        return self.it.var_args[self.var[k].tag][j]


def rot(w, v):
    return al.matmul3(al.word_entries(al.wreduce(w)), v, 3, 3, 1)


def wmul(*ws):
    return al.wreduce(sum(ws, ()))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def norm(v):
    s = ZERO
    for x in v:
        s = s + x * x
    return al.sqrt(al.cancel(s))


def unit(v):
    n = norm(v)
    return [al.div(x, n) for x in v]


def wordmat(x):
    w = al.word_of(x)
    if w is None:
        raise Unsupported("rotation argument")
    return w


EQ, ANG = "eq", "angle"


def bearing3(x):
    y = unit(rot(x.word(1), sub(x.v(2), x.v(1)[:3])))
    return [(EQ, q) for q in sub(y, x.a(3))]


def invrange(x):
    o, b = x.made(2, 1), x.made(2, 2)
    rho = x.v(2)[0]
    pos = [p + al.div(q, rho) for p, q in zip(o, b)]
    y = unit(rot(x.word(1), sub(pos, x.v(1)[:3])))
    return [(EQ, q) for q in sub(y, x.a(3))]


def local2(x, k, d):
    s, c = al.sincos(x.v(k)[2])
    return [c * d[0] + s * d[1], c * d[1] - s * d[0]]


def body2(x):
    return local2(x, 1, sub(x.v(2)[:2], x.v(1)[:2]))


def bearing2(x):
    d = body2(x)
    return [(ANG, al.atan2(d[1], d[0]) - x.a(3))]


def rangebearing(x):
    d = body2(x)
    return [(EQ, norm(sub(x.v(2)[:2], x.v(1)[:2])) - x.a(3)), (ANG, al.atan2(d[1], d[0]) - x.a(4))]


def gprior(x):
    return [(EQ, q) for q in sub(x.v(1), x.a(2))]


def gbetween(x):
    return [(EQ, q) for q in sub(sub(x.v(2), x.v(1)), x.v(3))]


def velocity(x):
    i0 = x.cfg["int"].get(6, 0) if x.cfg["int"] else 0
    n = len(x.v(3))
    d = sub(x.v(2)[i0:i0 + n], x.v(1)[i0:i0 + n])
    return [(EQ, q - w * x.a(4)) for q, w in zip(d, x.v(3))]


def plane(x):
    pl, p = x.v(2), x.v(1)
    s = pl[3]
    for a, b in zip(pl[:3], p):
        s = s + a * b
    if x.cfg["bool"] and list(x.cfg["bool"].values())[0]:
        r = norm(sub(p, x.a(6)))
        s = al.div(s, ONE + al.div(r, x.a(5)))
    return [(EQ, s)]


def planeprior(x):
    pl = x.v(1)
    n, d = pl[:3], pl[3]
    q = sub(n, x.a(2))
    dot = ZERO
    for a, b in zip(n, q):
        dot = dot + a * b
    return [(EQ, b - a * dot) for a, b in zip(n, q)] + [(EQ, d - x.a(3))]


def posprior(x):
    return [(EQ, q) for q in sub(x.v(1)[:3], x.a(2))]


def oriprior(x):
    w = wmul(x.word(1), al.winv(wordmat(x.a(2))))
    return [(EQ, q) for q in al.log_atoms(w)]


def oribetween(x):
    w = wmul(x.word(2), al.winv(x.word(1)), x.word(3))
    return [(EQ, q) for q in al.log_atoms(w)]


def posbetween(x):
    d = sub(x.v(2)[:3], x.v(1)[:3])
    if list(x.cfg["bool"].values())[0]:
        d = rot(x.word(1), d)
    return [(EQ, q) for q in sub(d, x.v(3))]


def coordtransform(x):
    r = rot(x.word(1), x.v(5))
    s = x.v(3)[0]
    return [(EQ, a - (s * q - o)) for a, q, o in zip(x.v(4), r, x.v(2))]


def pose2prior(x):
    q = sub(x.v(1), x.a(2))
    return [(EQ, q[0]), (EQ, q[1]), (ANG, q[2])]


def pose2between(x, right=True):
    d = sub(x.v(2)[:2], x.v(1)[:2])
    if list(x.cfg["bool"].values())[0]:
        if right:
            d = local2(x, 1, d)
        else:
            s, c = al.sincos(x.v(1)[2])
            d = [c * d[0] - s * d[1], s * d[0] + c * d[1]]
    m = x.v(3)
    return [(EQ, d[0] - m[0]), (EQ, d[1] - m[1]), (ANG, x.v(2)[2] - x.v(1)[2] - m[2])]


REF = {
    "BearingObservationFactor": bearing3, "InverseRangeBearingFactor": invrange, "BearingObservationFactor2D": bearing2,
    "RangeBearingFactor2D": rangebearing, "GenericPriorFactor": gprior, "GenericBetweenFactor": gbetween,
    "LinearVelocityFactor": velocity, "PlaneFactor": plane, "PlanePriorFactor": planeprior,
    "PosePositionPriorFactor": posprior, "PoseOrientationPriorFactor": oriprior, "RotationPriorFactor": oriprior,
    "PoseOrientationBetweenFactor": oribetween, "PosePositionBetweenFactor": posbetween,
    "CoordinateTransformFactor": coordtransform, "Pose2DPriorFactor": pose2prior, "Pose2DBetweenFactor": pose2between,
}
# a documented deviation that is recorded as a known finding; its rows get a key of their own
KNOWN_FORM = {"Pose2DBetweenFactor": ("rotates by +theta_a instead of -theta_a in local_frame mode", lambda x: pose2between(x, False))}


def same(kind, a, b):
    """True / False / None"""
    d = al.cancel(a - b)
    if kinds(d, ("top", "uninit", "stale", "nonfinite")):
        return None
    z = al.is_zero(d)
    if z is True or kind == EQ:
        return z
    # angles: equal modulo a full turn, by sine and cosine
    sa, ca = al.sincos(a)
    sb, cb = al.sincos(b)
    z1, z2 = al.is_zero(al.cancel(sa - sb)), al.is_zero(al.cancel(ca - cb))
    if z1 is True and z2 is True:
        return True
    if z1 is False or z2 is False:
        return False
    return None


def projection(acc, m, it, x, rows, nm, p, loc, s):
    """Projects the bearing onto the plane perpendicular to the observation: two orthonormal components of it"""
    if all(r.is_const() for r in rows):
        return    # the documented branch for landmarks behind the camera
    y = unit(rot(x.word(1), sub(x.v(2), x.v(1)[:3])))
    k = x.a(3)
    dot = ZERO
    for a, b in zip(k, y):
        dot = dot + a * b
    sq = rows[0] * rows[0] + rows[1] * rows[1]
    acc.o("C36")
    z = al.is_zero(al.cancel(sq - (ONE - dot * dot)))
    key = "%s projection" % s
    msg = "%s: the squared residual is not the squared distance of the bearing from the observed axis [%s]" % (nm, "; ".join(p.log))
    if z is False:
        acc.v("C36", key, msg, loc)
    elif z is None:
        acc.a("C36", key, msg)


def measurement(m, cls, cfg, acc):
    nm = cfgname(m, cls, cfg)
    s = M.short(cls)
    loc = where(m, cls, "compute_residual", 1)
    if s not in REF and s != "BearingProjectionFactor2D":
        acc.a("C36", nm, "no reference model for this class")
        return

    def run(p):
        it, fac, vs, tv = setup(m, p, cls, cfg)
        x = X(m, it, cfg, vs, p)
        sg = sigma_atoms(m, it, cfg)
        k0 = len(p.facts)
        try:
            r = m.residual_value(it, fac)
        except Throw:
            acc.o("C36")
            if unwarranted(p, k0):
                acc.v("C36", "%s refuses" % s, "%s: no residual at a state that is not degenerate [%s]" % (nm, "; ".join(p.log[-2:])), loc)
            raise PathEnd()
        m.generic(p)
        rows = []
        for k, v in enumerate(values(it, r)):
            table = ROW_SIGMA.get(s)
            c = list(sg.values())
            if table and k < len(table):
                c = [i for n, i in sg.items() if table[k] in n.lower()]
            if len(c) != 1:
                raise Unsupported("sigma of row %d" % k)
            rows.append(al.cancel(v * al.Poly.atom(c[0])))
        acc.i("C36", nm)
        if s == "BearingProjectionFactor2D":
            return projection(acc, m, it, x, rows, nm, p, loc, s)
        ref = REF[s](x)
        m.generic(p)
        if len(ref) != len(rows):
            acc.v("C36", "%s size" % s, "%s: %d rows, documented %d" % (nm, len(rows), len(ref)), loc)
            return
        alt = KNOWN_FORM[s][1](x) if s in KNOWN_FORM else None
        for k, ((kind, q), v) in enumerate(zip(ref, rows)):
            acc.o("C36")
            z = same(kind, v, q)
            if z is True:
                continue
            key = "%s row %d" % (s, k)
            if alt is not None and same(alt[k][0], v, alt[k][1]) is True:
                key = "%s %s" % (s, KNOWN_FORM[s][0])
            msg = "%s: unweighted row %d is %s, the documented model gives %s [%s]" % (nm, k, al.pstr(v, 6), al.pstr(al.cancel(q), 6), "; ".join(p.log))
            if z is False:
                acc.v("C36", key, msg, loc)
            else:
                acc.a("C36", key, msg)
    sweep(m, run, acc, ("C36",), nm, cls, "compute_residual", 300)
