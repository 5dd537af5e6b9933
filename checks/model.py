"""Scenario builder: constructs variables and factors of the analysed program inside the abstract interpreter."""
import itertools
from fractions import Fraction as Fr
import facts, algebra as al, interp as I
from algebra import C, ZERO, ONE
from interp import Cell, Interp, Mat, Obj, Vec, Unsupported, UB, Throw, PathEnd

VAR = "factorama::Variable"
FAC = "factorama::Factor"


def short(q):
    return q.split("::")[-1]


def sv(v):
    """a value number as text"""
    return al.pstr(v, 6) if isinstance(v, al.Poly) else str(v)


def latom(name, pos=False, kind="sym"):
    """named atom, the same one each time it is asked for in a context"""
    tab = al.CTX.__dict__.setdefault("named", {})
    if name not in tab:
        tab[name] = al.sym(name, pos=pos, kind=kind)
    return tab[name]


def lletter(name):
    tab = al.CTX.__dict__.setdefault("namedl", {})
    if name not in tab:
        tab[name] = al.new_letter(name)
    return tab[name]


def unit3(name):
    tab = al.CTX.__dict__.setdefault("namedu", {})
    if name not in tab:
        v = [latom(name + c) for c in "xyz"]
        z = next(iter(v[2].atoms()))
        al.CTX.sq[z] = ONE - v[0] * v[0] - v[1] * v[1]
        tab[name] = v
    return tab[name]


def atom_id(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


# ------------------------------------------------------------------------------------------------ rotation helpers
def _is_mat(t, r, c):
    return I.parse_mat_type(t.get("n", "")) == (r, c, "d")


def rodrigues(v, th, s, c):
    """entries of Exp(v), v = th*a: I + s/th K + (1-c)/th^2 K^2"""
    ti = al.inv(th)
    x, y, z = v
    K = [ZERO, -z, y, z, ZERO, -x, -y, x, ZERO]
    K2 = al.matmul3(K, K)
    E = [ONE if i % 4 == 0 else ZERO for i in range(9)]
    return [al.cancel(E[i] + s * ti * K[i] + (ONE - c) * ti * ti * K2[i]) for i in range(9)]


def jlinv(v, th, sgn=1):
    h = al.sincos(th.scale(Fr(1, 2)))
    cot = al.cancel(al.div(h[1], h[0]))
    x, y, z = v
    K = [ZERO, -z, y, z, ZERO, -x, -y, x, ZERO]
    ti = al.inv(th)
    hc = th.scale(Fr(1, 2)) * cot
    E = [ONE if i % 4 == 0 else ZERO for i in range(9)]
    return [al.cancel(hc * E[i] + (ONE - hc) * v[i // 3] * v[i % 3] * ti * ti - K[i].scale(Fr(sgn, 2))) for i in range(9)]


class RotationHelpers:
    """functions of the program that compute the SO(3) exponential, logarithm and inverse Jacobian, found by what they
    compute on the generic trace; a function that only has the name is kept with the reason its formula is not that"""

    NAMES = {"ExpMapSO3": "exp", "LogMapSO3": "log", "compute_inverse_right_jacobian_so3": "jinv"}

    def __init__(self, F):
        self.axioms = {}
        self.problems = []     # (function, message, trace)
        self.analysed = []
        self.abstained = []
        self.wrong = {}
        cands = []
        for f in sorted(F.fn.values(), key=lambda f: (f["q"], f["id"])):
            if "body" not in f or (f.get("rec") and not f.get("static")) or len(f["params"]) != 1 or f.get("ctor"):
                continue
            a, r = f["params"][0]["t"], f["ret"]
            if a.get("ref") and not a.get("const"):
                continue
            if _is_mat(a, 3, 1) and _is_mat(r, 3, 3):
                cands.append((f, "vm"))
            elif _is_mat(a, 3, 3) and _is_mat(r, 3, 1):
                cands.append((f, "mv"))
        for f, kind in cands:
            want = self.NAMES.get(f["name"])
            res = self.classify(F, f, kind)
            self.analysed.append(f["q"])
            got, probs, unk = res
            if got:
                self.axioms[f["id"]] = got
            elif want:
                self.axioms[f["id"]] = want
                if unk:
                    self.abstained.append((f["q"], unk))
                if not probs and not unk:
                    probs = ["does not compute the %s formula" % want]
            if got or want:
                for m in probs:
                    self.problems.append((f, m))
        self.kinds = set(self.axioms.values())

    def classify(self, F, f, kind):
        out = {"got": None, "cand": set(), "probs": [], "unk": None}
        gen = []
        deg = []

        def run(p):
            al.set_ctx(al.Ctx())
            it = Interp(F, p)
            th = latom("th", pos=True)
            a = unit3("a")
            v = [th * x for x in a]
            s, c = al.sincos(th)
            ref = {"exp": rodrigues(v, th, s, c), "jinv": jlinv(v, th), "jinvr": jlinv(v, th, -1)}
            if kind == "vm":
                arg = it.newmat(3, 1, v, 3, 1)
            else:
                k = al.new_letter("R", v)
                ent = ref["exp"]
                al.CTX.wordtab[tuple(ent)] = ((k, 1),)
                arg = it.newmat(3, 3, ent, 3, 3)

                def acos(it, this, e, env):
                    x = al.cancel(it.to_poly(it.eval(e["args"][0], env, this)))
                    if al.is_zero(x - c) is True:
                        return th
                    return NotImplemented
                it.hooks["lib:acos"] = acos
                # |cos| <= 1 and sin > 0 inside (0, pi)
                p.signs[al.content(ONE - c)[2]] = 1
                p.signs[al.content(ONE + c)[2]] = 1
                p.signs[s] = 1
            r, _ = it.call(f, None, [Cell(arg)])
            e = it.mpolys(r)
            kinds = None
            if kind == "vm":
                kinds = {n for n, w in ref.items() if all(al.is_zero(al.cancel(x - y)) is True for x, y in zip(e, w))}
                # first order behaviour at th -> 0
                tid = atom_id(th)
                lim = None
                if p.degenerate:
                    e0 = [al.substitute(x, {tid: ZERO}) for x in e]
                    sd = al.Seeds(atoms={tid: ONE})
                    e1 = [al.substitute(al.deriv(x, sd), {tid: ZERO}) for x in e]
                    x, y, z = a
                    K = [ZERO, -z, y, z, ZERO, -x, -y, x, ZERO]
                    E = [ONE if i % 4 == 0 else ZERO for i in range(9)]
                    lim = set()
                    if e0 == E:
                        for n, co in (("exp", Fr(1)), ("jinv", Fr(-1, 2)), ("jinvr", Fr(1, 2))):
                            if e1 == [k.scale(co) for k in K]:
                                lim.add(n)
                return kinds, lim, [sv(x) for x in e], list(p.log)
            ok = all(al.is_zero(al.cancel(x - y)) is True for x, y in zip(e, v))
            lim = None
            if p.degenerate:
                tid = atom_id(th)
                e0 = [al.substitute(x, {tid: ZERO}) for x in e]
                sd = al.Seeds(atoms={tid: ONE})
                e1 = [al.substitute(al.deriv(x, sd), {tid: ZERO}) for x in e]
                lim = {"log"} if all(not q.t for q in e0) and all(al.is_zero(q - w) is True for q, w in zip(e1, a)) else set()
            return ({"log"} if ok else set()), lim, [sv(x) for x in e], list(p.log)

        for p, r, err in I.explore(run, 60):
            if r is not None:
                (deg if r[1] is not None else gen).append(r)
            elif isinstance(err, (Unsupported, al.TooBig)):
                out["unk"] = str(err)
        if not gen:
            return None, [], out["unk"] or "no generic trace"
        ks = set.union(*[g[0] for g in gen]) if gen else set()
        if not ks:
            return None, [], None
        k = sorted(ks)[0]
        probs = []
        for g in gen:
            if k not in g[0]:
                probs.append("a trace (%s) does not compute the %s formula" % ("; ".join(g[3]), k))
        for g in deg:
            if k not in g[1] and not (k == "log" and "log" in g[0]) and k not in g[0]:
                probs.append("the small-angle trace (%s) does not agree with the %s formula to first order" % ("; ".join(g[3]), k))
        return k, probs, None


_helpers = {}


def helpers(F):
    k = id(F)
    if k not in _helpers:
        _helpers[k] = RotationHelpers(F)
    return _helpers[k]


# ------------------------------------------------------------------------------------------------ variables
class Model:
    def __init__(self, F):
        self.F = F
        self.H = helpers(F)
        self.vars = F.subclasses(VAR)
        self.facs = [c for c in F.subclasses(FAC) if not F.rec[c].get("abstract")]
        self.vars = [c for c in self.vars if not F.rec[c].get("abstract")]
        if not self.vars or not self.facs:
            raise facts.AnalysisBroken("no variable or factor classes found")

    def interp(self, p):
        it = Interp(self.F, p, self.H.axioms)
        return it

    def ctors(self, cls):
        return sorted([f for f in self.F.fn.values() if f.get("rec") == cls and f.get("ctor") and not f.get("copyctor")
                       and not f.get("movector") and not f.get("deleted") and f.get("access", "public") == "public"], key=lambda f: f.get("line", 0))

    def sigma(self, n):
        return "sigma" in n.lower() or "std" in n.lower() or "noise" in n.lower()

    def arg(self, it, p, tag, dim=None, raw=False):
        """symbolic argument for a constructor parameter that is not a pointer"""
        t, n = p["t"], p["name"]
        name = tag + "." + n
        if t.get("bool"):
            return False
        if t.get("int"):
            return 7
        if t.get("fp"):
            l = n.lower()
            return latom(name, pos=self.sigma(n) or "range" in l or l.endswith("r0"))
        mt = I.parse_mat_type(t.get("n", ""))
        if mt:
            r, c, e = mt
            if (r, c) == (3, 3):
                k = lletter(name)
                return it.newmat(3, 3, al.word_entries(((k, 1),)), 3, 3)
            if r == 6 and c == 1:
                k = lletter(name + ".R")
                return it.newmat(6, 1, [latom("%s%d" % (name, i)) for i in range(3)] + al.log_atoms(((k, 1),)), 6, 1)
            if r == 3 and c == 1 and not raw and any(w in n.lower() for w in ("bearing", "normal", "direction")):
                return it.newmat(3, 1, unit3(name), 3, 1)
            if r < 0 and c == 1:
                r = 2 if dim is None else dim
                return it.newmat(r, 1, [latom("%s%d" % (name, i)) for i in range(r)], -1, 1)
            if r > 0 and c > 0:
                return it.newmat(r, c, [latom("%s%d" % (name, i)) for i in range(r * c)], r, c)
        if t.get("n", "").startswith("Eigen::Ref"):
            r = 2 if dim is None else dim
            return it.newmat(r, 1, [latom("%s%d" % (name, i)) for i in range(r)], -1, 1)
        raise Unsupported("argument of type " + t.get("n", "?"))

    def make_var(self, it, cls, tag, dim=None, vid=None, ctor=None, raw=False):
        cs = self.ctors(cls)
        err = None
        for f in ([ctor] if ctor else reversed(cs)):
            try:
                cells = []
                for p in f["params"]:
                    if p["t"].get("int") and "id" in p["name"].lower():
                        cells.append(Cell(vid if vid is not None else 1))
                    elif "def" in p and not p["t"].get("fp"):
                        break
                    else:
                        cells.append(Cell(self.arg(it, p, tag, dim, raw)))
                o = Obj(cls)
                args = [it.mpolys(c.v) if isinstance(c.v, Mat) else c.v for c in cells]
                it.run_ctor(f, o, it.with_defaults(f, cells))
                o.tag = tag
                if not hasattr(it, "var_args"):
                    it.var_args = {}
                it.var_args[tag] = args
                return o
            except Unsupported as ex:
                err = ex
        raise err or Unsupported("no constructor for " + cls)

    def atoms_of(self, o):
        """scalar cells of an object: list of (path, Cell)"""
        out = []

        def go(v, path, cell):
            if isinstance(v, Mat):
                for k, c in enumerate(v.cells):
                    out.append(("%s[%d]" % (path, k), c))
            elif isinstance(v, Vec):
                for k, c in enumerate(v.c):
                    go(c.v, "%s[%d]" % (path, k), c)
            elif isinstance(v, (al.Poly, int, bool)):
                out.append((path, cell))
            elif v is None:
                out.append((path, cell))
        for k in o.f:
            c = o.f[k]
            if isinstance(c.v, Obj):
                continue
            go(c.v, k, c)
        return out

    def abstract_state(self, it, o):
        """give every composite state cell (1/range and the like) a value number of its own"""
        seen = {}
        for path, c in self.atoms_of(o):
            v = c.v
            if not isinstance(v, al.Poly) or v.is_const():
                continue
            i = atom_id(v)
            if i is not None and al.CTX.atoms[i].kind != "fn":
                continue
            ids = v.atoms()
            if any(i in al.CTX.letterof or i in al.CTX.logids for i in ids):
                continue
            k = v.key() if hasattr(v, "key") else str(v)
            if k not in seen:
                pos = al.positive_sum(v)
                seen[k] = latom("%s.%s" % (o.tag, path), pos=bool(pos))
            c.v = seen[k]
        # only states inside the limits: a clamped value is not a generic point
        val = it.method(o, "value")
        for q in it.mpolys(val):
            if q.is_const():
                raise PathEnd()

    def generic(self, p):
        if p.degenerate:
            raise PathEnd()

    def tangent(self, it, o):
        """list of (atom seeds, letter seeds), one per increment coordinate; computed by running the program's own
        apply_increment on a symbolic increment and differentiating at zero"""
        n = it.method(o, "size")
        n = it.to_int(n)
        c = it.copyobj(o)
        d = [latom("d.%s.%d" % (o.tag, i)) for i in range(n)]
        ids = [atom_id(x) for x in d]
        zero = {i: ZERO for i in ids}
        it.method(c, "apply_increment", [it.newmat(n, 1, d, -1, 1)])
        base = self.atoms_of(o)
        new = dict(self.atoms_of(c))
        # letters of the base state
        letters = {}
        out = [({}, {}) for _ in range(n)]
        for path, cell in base:
            v = cell.v
            if not isinstance(v, al.Poly):
                continue
            nv = new[path].v
            if nv is None or not isinstance(nv, al.Poly):
                raise Unsupported("state cell %s after the increment" % path)
            i = atom_id(v)
            if i is None or v.is_const():
                continue
            if i in al.CTX.letterof:
                letters.setdefault(al.CTX.letterof[i][0], None)
                continue
            if i in al.CTX.logids:
                for l, s in al.CTX.logids[i][0]:
                    letters.setdefault(l, None)
                continue
            # interior traces only: a zero increment must leave the state as it is
            z = al.substitute(nv, zero, self.zero_letters(ids))
            iz = al.is_zero(al.cancel(z - v))
            if iz is not True:
                zz = al.cancel(z - v)
                if iz is None or not self.mod_two_pi(z, v):
                    raise PathEnd()
            for k in range(n):
                sd = al.Seeds(atoms={ids[k]: ONE})
                dv = al.deriv(nv, sd)
                dv = al.substitute(dv, zero, self.zero_letters(ids))
                out[k][0][i] = al.cancel(dv)
        for l in letters:
            w = self.letter_image(it, o, c, l)
            if w is None:
                raise Unsupported("the increment does not leave a recognisable rotation")
            w = al.wreduce(w)
            for k in range(n):
                # an exponential of the increment has angular velocity d(omega)/d(delta) at zero
                seeds = {}
                for ll, s in w:
                    om = al.CTX.letters[ll][2]
                    if om is not None:
                        o0 = [al.substitute(x, zero) for x in om]
                        if all(not x.t for x in o0):
                            sd = al.Seeds(atoms={ids[k]: ONE})
                            seeds[ll] = [al.substitute(al.deriv(x, sd), zero) for x in om]
                sd = al.Seeds(atoms={ids[k]: ONE}, letters=seeds)
                om = al.word_omega(w, sd)
                if om is None:
                    raise Unsupported("increment of a rotation")
                zl = self.zero_letters(ids)
                w0 = al.wreduce(tuple((ll, s) for ll, s in w if ll not in zl))
                if w0 != ((l, 1),):
                    raise PathEnd()
                om = [al.cancel(al.substitute(x, zero, zl)) for x in om]
                out[k][1][l] = om
        return out

    def mod_two_pi(self, z, v):
        a, b = al.sincos(z), al.sincos(v)
        return al.is_zero(a[0] - b[0]) is True and al.is_zero(a[1] - b[1]) is True

    def zero_letters(self, ids):
        """letters that are exponentials of the increment: identity at zero"""
        r = {}
        for k, (nm, e, om) in enumerate(al.CTX.letters):
            if om is None:
                continue
            if any(set(x.atoms()) & set(ids) for x in om):
                o0 = [al.substitute(x, {i: ZERO for i in ids}) for x in om]
                if all(not x.t for x in o0):
                    r[k] = ()
        return r

    def letter_image(self, it, o, c, l):
        """word the rotation letter l of object o has become in c"""
        for k, cell in o.f.items():
            m = cell.v
            if isinstance(m, Mat) and m.rows == 3 and m.cols == 3 and it.mpolys(m) == al.word_entries(((l, 1),)):
                return it.find_word(it.mpolys(c.f[k].v))
        for k, cell in o.f.items():
            m = cell.v
            if isinstance(m, Mat) and m.cols == 1 and m.rows >= 3:
                v = it.mpolys(m)
                nv = it.mpolys(c.f[k].v)
                for j in range(len(v) - 2):
                    if v[j:j + 3] == al.log_atoms(((l, 1),)):
                        return al.vec_is_log(nv[j:j + 3])
        return None

    # -------------------------------------------------------------------------------------------- factors
    def var_class_options(self, cls):
        """concrete classes (and dimensions) a pointer parameter of this class can be given"""
        if cls in self.vars:
            if cls == "factorama::GenericVariable":
                return [(cls, d) for d in (3, 1, 2, 4)]
            return [(cls, None)]
        out = []
        if cls in self.F.rec:
            g = "factorama::GenericVariable"
            for d in (3, 2, 1, 4):
                out.append((g, d))
            for c in self.vars:
                if c != g and cls in self.F.bases(c):
                    out.append((c, None))
        return out

    ADDITIVE = ("factorama::GenericVariable", "factorama::LandmarkVariable")

    def configs(self, cls, maxn=8):
        """constructor configurations of a factor: (ctor, [(kind, ...)])"""
        res = []
        for f in self.ctors(cls):
            ptrs = [(k, p) for k, p in enumerate(f["params"]) if p["t"].get("ptr") or self.ptr_cls(p)]
            opts = []
            for k, p in ptrs:
                c = self.ptr_cls(p)
                o = self.var_class_options(c)
                if not o:
                    o = [(None, None)]
                opts.append(o)
            bools = [k for k, p in enumerate(f["params"]) if p["t"].get("bool")]
            ints = [k for k, p in enumerate(f["params"]) if p["t"].get("int") and "id" not in p["name"].lower().split("_")]
            ints = [k for k in ints if k != 0]
            dyn = [k for k, p in enumerate(f["params"]) if (I.parse_mat_type(p["t"].get("n", "")) or (0, 0, 0))[:2] == (-1, 1)]
            for combo in itertools.product(*opts):
                for bs in itertools.product([False, True], repeat=len(bools)):
                    for iv in itertools.product([0, 1], repeat=len(ints)):
                        res.append({"ctor": f, "ptr": {k: c for (k, p), c in zip(ptrs, combo)}, "bool": dict(zip(bools, bs)), "int": dict(zip(ints, iv)), "dyn": dyn})
        return res

    def ptr_cls(self, p):
        t = p["t"]
        n = t.get("n", "")
        if t.get("ptr") or n.endswith("*"):
            return (t.get("pointee") or n).replace("*", "").replace("const ", "").strip()
        if n.startswith("std::shared_ptr<"):
            return n[len("std::shared_ptr<"):-1]
        return None

    id_offset = 0      # added to the identifiers of the objects built

    def build(self, it, cls, cfg, const=None, raw=False):
        """(factor object, [variable objects in parameter order])"""
        f = cfg["ctor"]
        cells = []
        vs = []
        for k, p in enumerate(f["params"]):
            if k in cfg["ptr"]:
                c, d = cfg["ptr"][k]
                if c is None:
                    cells.append(Cell(None))
                    continue
                v = self.make_var(it, c, "%s" % p["name"], d, vid=10 + k + self.id_offset)
                self.abstract_state(it, v)
                vs.append(v)
                cells.append(Cell(v))
            elif k in cfg["bool"]:
                cells.append(Cell(cfg["bool"][k]))
            elif k in cfg["int"]:
                cells.append(Cell(cfg["int"][k]))
            elif p["t"].get("int"):
                cells.append(Cell(99 + self.id_offset))
            elif "def" in p and p["t"].get("fp") and not self.sigma(p["name"]):
                cells.append(Cell(it.coerce(it.eval(p["def"], {}, None), p["t"])))
            else:
                dim = None
                if k in cfg["dyn"]:
                    dim = max([it.to_int(it.method(v, "size")) for v in vs] or [2]) + cfg.get("dynoff", {}).get(k, 0)
                cells.append(Cell(self.arg(it, p, "f", dim, raw)))
        o = Obj(cls)
        it.ctor_args = [it.mpolys(c.v) if isinstance(c.v, Mat) else c.v for c in cells]
        it.run_ctor(f, o, cells)
        o.tag = "factor"
        return o, vs

    def factor_vars(self, it, fac):
        r = it.method(fac, "variables")
        return [c.v for c in r.c]

    def residual_fn(self, cls, nargs):
        for c in self.F.bases(cls):
            for f in self.F.methods(c, "compute_residual", inherited=False):
                if len(f["params"]) == nargs and "body" in f:
                    return f
        return None

    def residual_value(self, it, fac):
        f = self.residual_fn(fac.cls, 0)
        if f is None:
            raise Unsupported("no compute_residual() in " + fac.cls)
        v, cell = it.call(f, fac, [])
        if v is None and cell is not None:
            v = cell.v
        return v

    def residual_inplace(self, it, fac, n, names="out"):
        f = self.residual_fn(fac.cls, 1)
        if f is None:
            raise Unsupported("no compute_residual(result) in " + fac.cls)
        m = it.newmat(n, 1, [latom("%s%d" % (names, i), kind="uninit") for i in range(n)], -1, 1)
        m.isref = True
        it.call(f, fac, [Cell(m)])
        return m

    def jacobians(self, it, fac, vec):
        f = None
        for c in self.F.bases(fac.cls):
            for g in self.F.methods(c, "compute_jacobians", inherited=False):
                if "body" in g:
                    f = g
                    break
            if f:
                break
        if f is None:
            raise Unsupported("no compute_jacobians in " + fac.cls)
        it.call(f, fac, [Cell(vec)])
        return vec
