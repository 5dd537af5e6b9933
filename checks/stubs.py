"""Canonical variables and factors used to analyse code that only sees the abstract Variable / Factor interface.

The graph and the optimiser treat variables and factors through their virtual interface alone, so a stub that answers
every interface call with a fresh value number stands for every implementation that honours the interface's contract
(C01, C09, C10 are checked separately for the built-in ones)."""
import algebra as al, interp as I, model as M
from algebra import C, ZERO, ONE
from interp import Cell, Mat, Obj, Str, Vec, Unsupported, UB, Throw

SV, SF = "stub::Variable", "stub::Factor"


class VarData:
    def __init__(self, vid, dim, const, name, additive=True):
        self.id, self.dim, self.const, self.name = vid, dim, const, name
        self.val = None


class FacData:
    def __init__(self, fid, rows, vs, name):
        self.id, self.rows, self.vs, self.name = fid, rows, vs, name
        self.bad = None       # (variable index, rows, cols) of a misbehaving Jacobian block


class World:
    """hooks for one interpreter"""

    def __init__(self, it, quad=False):
        self.it = it
        self.log = []         # (event, stub, detail, location)
        self.ver = {}
        self.quad = quad
        self.zeros = False    # every other residual and Jacobian entry is exactly zero, another half at every evaluation
        self.thrower = None   # (method, nth) -> the interface call throws
        self.n = {}
        for q, base in ((SV, M.VAR), (SF, M.FAC)):
            if q not in it.F.rec:
                it.F.rec[q] = {"q": q, "bases": [base], "methods": [], "fields": [], "file": "", "line": 0}
        for m in ("size", "value", "set_value_from_vector", "apply_increment", "type", "clone", "id", "name", "print", "is_constant", "set_constant",
                  "residual_size", "compute_residual", "compute_jacobians", "variables"):
            it.hooks["*::" + m] = self.hook(m)

    def var(self, vid, dim, const=False, name=None):
        o = Obj(SV)
        nm = name or "v%s" % vid
        d = VarData(vid, dim, const, nm)
        d.val = self.it.newmat(dim, 1, [M.latom("%s[%d]" % (nm, k)) for k in range(dim)], -1, 1)
        o.tag = d
        return o

    def fac(self, fid, rows, vs, name=None):
        o = Obj(SF)
        o.tag = FacData(fid, rows, vs, name or "f%s" % fid)
        return o

    def value(self, o):
        return self.it.mpolys(o.tag.val)

    def hook(self, m):
        def h(it, o, cells, e):
            if not isinstance(o, Obj) or not isinstance(o.tag, (VarData, FacData)):
                return NotImplemented
            self.n[m] = self.n.get(m, 0) + 1
            if self.thrower and self.thrower[0] == m and self.n[m] == self.thrower[1]:
                self.log.append(("throw", o, m, it.loc))
                raise Throw(I.Opaque("exception"), it.loc)
            d = o.tag
            loc = it.L(e) if e else it.loc
            if m == "id":
                return d.id
            if m == "name":
                return Str("n")
            if m == "print":
                return None
            if m == "type":
                return 1
            if isinstance(d, VarData):
                return self.varcall(it, o, d, m, cells, loc)
            return self.faccall(it, o, d, m, cells, loc)
        return h

    def varcall(self, it, o, d, m, cells, loc):
        if m == "size":
            return d.dim
        if m == "is_constant":
            return d.const
        if m == "value":
            return Cell(d.val)
        if m == "set_constant":
            d.const = bool(cells[0].v)
            self.log.append(("constness", o, d.const, loc))
            return None
        if m == "clone":
            c = Obj(SV)
            c.tag = VarData(d.id, d.dim, d.const, d.name + "'")
            c.tag.val = it.newmat(d.dim, 1, it.mpolys(d.val), -1, 1)
            return c
        if m in ("set_value_from_vector", "apply_increment"):
            x = self.vec(it, cells[0].v)
            if len(x) != d.dim:
                raise Throw(I.Opaque("exception"), loc)
            new = [a + b for a, b in zip(it.mpolys(d.val), x)] if m == "apply_increment" else list(x)
            self.log.append((m, o, list(x), loc))
            for c, v in zip(d.val.cells, new):
                c.v = v
            return None
        raise Unsupported("Variable::" + m)

    def vec(self, it, v):
        if not isinstance(v, Mat):
            raise Unsupported("vector argument")
        return it.mpolys(v)

    def version(self, d):
        k = (d.name,) + tuple(tuple(self.value(v)) + (v.tag.const,) for v in d.vs)
        t = self.ver.setdefault(d.name, {})
        return t.setdefault(k, len(t))

    def residual(self, d):
        if self.quad:
            out = []
            for r in range(d.rows):
                p = M.latom("%s.c%d" % (d.name, r))
                for vi, v in enumerate(d.vs):
                    for c, x in enumerate(self.value(v)):
                        p = p + M.latom("%s.a%d.%d.%d" % (d.name, r, vi, c)) * x + M.latom("%s.b%d.%d.%d" % (d.name, r, vi, c)) * x * x
                out.append(p)
            return out
        k = self.version(d)
        return [ZERO if self.zeros and (r + k) % 2 else M.latom("%s.r%d@%d" % (d.name, r, k)) for r in range(d.rows)]

    def jac(self, d, vi, r, c):
        k = self.version(d)
        if self.zeros and (r + c + vi + k) % 2:
            return ZERO
        return M.latom("%s.J%d.%d.%d@%d" % (d.name, vi, r, c, k))

    def faccall(self, it, o, d, m, cells, loc):
        if m == "residual_size":
            return d.rows
        if m == "variables":
            return Vec([Cell(v) for v in d.vs])
        if m == "compute_residual":
            r = self.residual(d)
            self.log.append(("residual", o, None, loc))
            if not cells:
                return it.newmat(d.rows, 1, r, -1, 1)
            out = cells[0].v
            if not isinstance(out, Mat):
                raise Unsupported("residual buffer")
            if out.rows * out.cols != d.rows:
                raise Throw(I.Opaque("exception"), loc)
            for c, v in zip(out.cells, r):
                c.v = v
            return None
        if m == "compute_jacobians":
            vec = cells[0].v
            if not isinstance(vec, Vec):
                raise Unsupported("Jacobian list")
            self.log.append(("jacobians", o, None, loc))
            vec.c[:] = []
            for vi, v in enumerate(d.vs):
                rows, cols = d.rows, v.tag.dim
                if v.tag.const:
                    rows = cols = 0
                if d.bad and d.bad[0] == vi:
                    rows, cols = d.bad[1:]
                vec.c.append(Cell(it.newmat(rows, cols, [self.jac(d, vi, r, c) for r in range(rows) for c in range(cols)], -1, -1)))
            return None
        raise Unsupported("Factor::" + m)
