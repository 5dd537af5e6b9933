"""Abstract interpreter over the extracted syntax trees.  Scalars are value numbers (algebra.Poly), integers and control
data are concrete per scenario, branches on value numbers are partitioned (both sides are analysed) with consistent
decisions along a trace.  Anything the interpreter has no transfer function for raises Unsupported: the check then
abstains on that obligation, it never guesses."""
import re
from fractions import Fraction as Fr
import algebra as al
from algebra import Poly, C, ZERO, ONE


class Unsupported(Exception):
    pass


class UB(Exception):
    def __init__(self, what, loc):
        Exception.__init__(self, "%s at %s" % (what, loc))
        self.what, self.loc = what, loc


class Throw(Exception):
    def __init__(self, val, loc):
        Exception.__init__(self, "throw at %s" % (loc,))
        self.val, self.loc = val, loc


class PathEnd(Exception):
    """the trace is infeasible or not of interest"""


class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class Mat:
    __slots__ = ("rows", "cols", "cells", "fr", "fc", "owner", "elt", "isref")

    def __init__(self, rows, cols, cells, fr=-1, fc=-1, owner=True, elt="d", isref=False):
        self.rows, self.cols, self.cells, self.fr, self.fc, self.owner, self.elt, self.isref = rows, cols, cells, fr, fc, owner, elt, isref

    @property
    def size(self):
        return self.rows * self.cols

    def at(self, i, j):
        return self.cells[i * self.cols + j]


class Obj:
    __slots__ = ("cls", "f", "tag")

    def __init__(self, cls, f=None, tag=None):
        self.cls, self.f, self.tag = cls, f or {}, tag

    def __repr__(self):
        return "<%s %s>" % (self.cls.split("::")[-1], self.tag or "")


class Vec:
    __slots__ = ("c", "elt")

    def __init__(self, c=None, elt=None):
        self.c, self.elt = c if c is not None else [], elt


class Map:
    __slots__ = ("d", "elt", "kt")

    def __init__(self, elt=None, kt=None):
        self.d, self.elt, self.kt = {}, elt, kt


class Iter:
    __slots__ = ("cont", "i", "rev")

    def __init__(self, cont, i, rev=False):
        self.cont, self.i, self.rev = cont, i, rev


class ArrPtr:
    __slots__ = ("cells", "off")

    def __init__(self, cells, off=0):
        self.cells, self.off = cells, off


class Str:
    __slots__ = ("s",)

    def __init__(self, s=None):
        self.s = s


class Opaque:
    __slots__ = ("tag", "data")

    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data

    def __repr__(self):
        return "Opaque(%s)" % self.tag


class Lambda:
    __slots__ = ("node", "env", "this", "fn", "outer")

    def __init__(self, node, env, this, fn):
        self.node, self.env, self.this, self.fn = node, env, this, fn
        self.outer = None


class Comma:
    __slots__ = ("m", "r", "c", "br")

    def __init__(self, m):
        self.m, self.r, self.c, self.br = m, 0, 0, 1


class Sparse:
    __slots__ = ("rows", "cols", "d", "cap")

    def __init__(self, rows=0, cols=0):
        self.rows, self.cols, self.d, self.cap = rows, cols, {}, None    # cap: room per column while not compressed

    def map(self, f):
        s = Sparse(self.rows, self.cols)
        s.d = {k: Cell(f(c.v)) for k, c in self.d.items()}
        return s

    def nnz(self, j):
        return sum(1 for k in self.d if k[1] == j)

    def made(self, j):
        """room after a new element went into column j"""
        if self.cap is None:
            self.cap = "?" if len(self.d) > 1 else [2] * self.cols
        elif self.cap != "?" and self.nnz(j) > self.cap[j]:
            n = self.nnz(j) - 1
            self.cap[j] = n + max(2, n)

    def slots(self, f):
        """the value (or index) array with its gaps"""
        if self.cap is None:
            return [f(k) for k in self.order()]
        if self.cap == "?":
            raise Unsupported("layout of an uncompressed matrix")
        out = []
        for j in range(self.cols):
            col = [f(k) for k in self.order() if k[1] == j]
            out += col + [Cell(None) for _ in range(self.cap[j] - len(col))]
        return out

    def order(self):
        return sorted(self.d, key=lambda k: (k[1], k[0]))


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Goto(Exception):
    def __init__(self, name):
        self.name = name


def array_type(n):
    """(element type, length) of a type written T[n]"""
    if not n.endswith("]"):
        return None
    m = re.match(r"(.*?)\s*\[(\d+)\]((?:\[\d+\])*)$", n)
    return (m.group(1) + m.group(3), int(m.group(2))) if m else None


def elem_type(n):
    """type description of an element type given by its name only"""
    n = n[6:] if n.startswith("const ") and not n.rstrip().endswith("*") else n
    t = {"n": n}
    if n in ("double", "float", "const double"):
        t["fp"] = 1
    elif n == "bool":
        t["bool"] = 1
    elif n in ("int", "unsigned int", "long", "unsigned long", "short", "char", "unsigned char"):
        t["int"] = 1
    elif n.rstrip().endswith("*") or n.rstrip().endswith("*const"):
        t["ptr"] = 1
    return t


def targs_of(n):
    """template arguments written in a type name"""
    if "<" not in n:
        return []
    s, out, d, cur = n[n.index("<") + 1:n.rindex(">")], [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += ch in "<(["
        d -= ch in ">)]"
        cur += ch
    return out + [cur.strip()]


class _Return(Exception):
    def __init__(self, v, cell=None):
        self.v, self.cell = v, cell


LEAVES = (Throw, _Return, _Break, _Continue, _Goto)      # ways to leave a scope on which destructors run


def is_num(v):
    return isinstance(v, (int, Poly)) and not isinstance(v, bool)


class Path:
    """decisions of one trace"""

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.signs = {}
        self.facts = []      # (d, relation to zero): outcomes of the program's own comparisons
        self.keys = {}
        self.degenerate = []
        self.log = []

    def choose(self, n, order=None):
        k = len(self.taken)
        order = order or list(range(n))
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            c = order[0]
            for o in order[1:]:
                self.alts.append(self.taken + [o])
        self.taken.append(c)
        return c


def parse_mat_type(n):
    """(rows, cols, elt) of an Eigen plain type name, else None"""
    if n.startswith("const "):
        n = n[6:]
    m = re.match(r"Eigen::(Matrix|Array)<([\w ]+),(-?\d+),(-?\d+)>$", n)
    if m:
        e = {"double": "d", "float": "d", "int": "i", "long": "i", "bool": "b"}.get(m.group(2))
        return int(m.group(3)), int(m.group(4)), e or "d"
    return None


def wrap_int(v, name):
    """value of an integer converted to the integer type of this name (modulo its width)"""
    w = [x for x in name.replace("const", " ").replace("volatile", " ").split()]
    if not w or any(x not in ("unsigned", "signed", "char", "short", "int", "long") for x in w) or w == ["char"]:
        bits = 8 if w == ["char"] else None
    else:
        bits = 8 if "char" in w else 16 if "short" in w else 64 if "long" in w else 32
    if bits is None:
        return v
    uns = "unsigned" in w
    v &= (1 << bits) - 1
    return v if uns or v < 1 << (bits - 1) else v - (1 << bits)


class Interp:
    AXIOMS = {"exp": None, "log": None, "jinv": None}

    def __init__(self, F, path=None, axioms=None):
        self.F = F
        self.path = path or Path([])
        self.steps = 0
        self.max_steps = 400000
        self.max_dec = 60
        self.depth = 0
        self.axioms = axioms if axioms is not None else {}
        self.hooks = {}       # qualified name -> callable(interp, this, args, node) for stubs
        self.trace_cb = None
        self.div_cb = None
        self.called = set()
        self.loc = None
        self.curfn = None
        self.ctor_depth = 0
        self.temps = []
        self.equality_false = True
        self.globals = {}
        self.uninit_n = 0
        self.frames = []       # environments of the active calls
        self.threeway = False  # comparisons of value numbers also consider equality
        self.nan_mode = False  # values of kind 'nonfinite' compare like NaN
        self.loop_symbolic = {}
        self.exact_signs = False   # past decisions are only found again for identical value numbers
        self.finite_hook = None
        self.coeff_hook = None  # minCoeff / maxCoeff of symbolic results
        self.loop_hook = None  # called at the head of every for / while / do loop

    # ------------------------------------------------------------------------------------------------ decisions
    def L(self, n):
        return "%s:%s" % ((self.curfn or {}).get("file", "?").split("/")[-1], n.get("l", 0))

    def decide_key(self, key, n=2, order=None):
        if key in self.path.keys:
            return self.path.keys[key]
        if len(self.path.taken) > self.max_dec:
            raise Unsupported("too many decisions")
        c = self.path.choose(n, order)
        self.path.keys[key] = c
        return c

    def sign(self, d, why=""):
        """sign (+1/-1/0) of a value number on this trace (0 only when identically zero)"""
        d = al.cancel(d)
        if not d.t:
            return 0
        if d.is_const():
            return 1 if d.cval() > 0 else -1
        c, mono, q = al.content(d)
        s = 1 if c > 0 else -1
        rest = []
        for i, e in mono:
            if i in al.CTX.pos or e % 2 == 0:
                continue
            rest.append((i, 1))
        # sqrt(P) - c  ->  P - c^2
        if not rest and len(q.t) == 2 and () in q.t:
            (m, cc), = [(m, cc) for m, cc in q.t.items() if m != ()]
            k = q.t[()]
            if len(m) == 1 and m[0][1] == 1 and al.CTX.atoms[m[0][0]].kind == "sqrt":
                x = -k / cc
                if x < 0:
                    return s * (1 if cc > 0 else -1)
                P = al.CTX.atoms[m[0][0]].args[0]
                s = s * (1 if cc > 0 else -1)
                small = x <= Fr(1, 1000)
                r = self._sign0(P - C(x * x), small)
                return s * r
        # sqrt(P) - sqrt(Q)  ->  P - Q
        if not rest and len(q.t) == 2 and () not in q.t:
            (m1, c1), (m2, c2) = q.t.items()
            if all(len(m) == 1 and m[0][1] == 1 and al.CTX.atoms[m[0][0]].kind == "sqrt" for m in (m1, m2)) and c1 * c2 < 0:
                P = al.CTX.atoms[m1[0][0]].args[0].scale(c1 * c1) - al.CTX.atoms[m2[0][0]].args[0].scale(c2 * c2)
                return (s if c1 > 0 else -s) * (self.sign(P) if P.t else 0)
        p = q * al.monop(tuple(rest)) if rest else q
        small = False
        if () in p.t and len(p.t) >= 2:
            k = abs(p.t[()])
            mx = max(abs(v) for m, v in p.t.items() if m != ())
            small = 0 < k <= Fr(1, 1000) * mx
        return s * self._sign0(p, small)

    def _sign0(self, p, small=False):
        if p.is_const():
            return 0 if not p.t else (1 if p.cval() > 0 else -1)
        if al.positive_sum(p):
            return 1
        if al.positive_sum(-p):
            return -1
        c, mono, q = al.content(p)
        s = 1 if c > 0 else -1
        if mono:
            q = q * al.monop(mono)
        if q in self.path.signs:
            return s * self.path.signs[q]
        if self.exact_signs:
            n = -q
            if n in self.path.signs:
                return -s * self.path.signs[n]
        for k, v in (() if self.exact_signs else self.path.signs.items()):
            if al._alike(k, q):
                return s * v
            if al._alike(k, -q):
                return -s * v
        if len(self.path.taken) > self.max_dec:
            raise Unsupported("too many decisions")
        # default: the regular side first
        cst = q.t.get((), Fr(0))
        # q = X - eps : +1 is regular ; q = eps - X : -1 is regular
        reg = 1
        if small and cst > 0:
            reg = -1
        v = [reg, -reg, 0][self.path.choose(3 if self.threeway else 2)]
        self.path.signs[q] = v
        if small and v != reg:
            self.path.degenerate.append((q, v, self.loc))
        self.path.log.append("%s %s 0 (%s)" % (al.pstr(q, 4), ">" if v > 0 else "<" if v < 0 else "=", self.loc))
        return s * v

    def compare(self, op, a, b, n=None):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if is_num(a) and is_num(b):
            if n is not None:
                self.loc = self.L(n)
            a = self.to_poly(a)
            b = self.to_poly(b)
            if "infinity" in al.CTX.__dict__.get("nonfinite", {}):
                ia, ib = self.inf_sign(a), self.inf_sign(b)
                if (ia or ib) and ia is not None and ib is not None:
                    return {"<": ia < ib, ">": ia > ib, "<=": ia <= ib, ">=": ia >= ib, "==": ia == ib, "!=": ia != ib}[op]
                if self.nan_mode and (ia is None or ib is None):
                    return op == "!="
            if self.nan_mode and not (self.finite(a) and self.finite(b)):
                return op == "!="
            if op in ("==", "!="):
                z = al.is_zero(a - b)
                if z is True:
                    return op == "=="
                if (a - b).is_const():
                    return op != "=="
                if al.positive_sum(a - b) or al.positive_sum(b - a):
                    return op != "=="
                key = ("eq", a - b)
                if self.equality_false:
                    self.path.facts.append((a - b, "!="))
                    return op == "!="
                r = self.decide_key(key) == 1
                return r if op == "==" else not r
            s = self.sign(a - b)
            r = {"<": s < 0, ">": s > 0, "<=": s <= 0, ">=": s >= 0}[op]
            self.path.facts.append((a - b, op if r else {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]))
            return r
        if op in ("==", "!="):
            r = self.same(a, b)
            return r if op == "==" else not r
        raise Unsupported("comparison %s of %s and %s" % (op, type(a).__name__, type(b).__name__))

    def same(self, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            ai = a.i if a.i is not None else "end"
            bi = b.i if b.i is not None else "end"
            if isinstance(a.cont, Map):
                ai = "end" if ai not in a.cont.d else ai
                bi = "end" if bi not in b.cont.d else bi
            if a.rev != b.rev:
                return False
            if isinstance(a.cont, Vec) and isinstance(b.cont, Vec) and a.cont is not b.cont:
                # two temporaries over the same elements
                return len(a.cont.c) == len(b.cont.c) and all(x is y for x, y in zip(a.cont.c, b.cont.c)) and ai == bi
            return a.cont is b.cont and ai == bi
        if isinstance(a, Str) and isinstance(b, Str):
            if a.s is None or b.s is None:
                raise Unsupported("string comparison")
            return a.s == b.s
        if isinstance(a, ArrPtr) and isinstance(b, ArrPtr):
            return a.cells is b.cells and a.off == b.off
        if isinstance(a, Vec) and isinstance(b, Vec) or self.is_tuple(a) and self.is_tuple(b):
            ca, cb = (a.c, b.c) if isinstance(a, Vec) else (list(a.f.values()), list(b.f.values()))
            if len(ca) != len(cb):
                return False
            return all(self.compare("==", x.v, y.v) for x, y in zip(ca, cb))
        if self.is_opt(a) or self.is_opt(b):
            ha = self.opt_has(a) if self.is_opt(a) else not self.is_nullopt(a)
            hb = self.opt_has(b) if self.is_opt(b) else not self.is_nullopt(b)
            if not (ha and hb):
                return ha == hb
            return self.compare("==", a.f["v"].v if self.is_opt(a) else a, b.f["v"].v if self.is_opt(b) else b)
        if isinstance(a, (Obj, type(None), Opaque)) and isinstance(b, (Obj, type(None), Opaque)):
            return a is b
        if a is None or b is None:
            return a is b
        raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))

    # std::optional, std::tuple
    def is_opt(self, v):
        return isinstance(v, Obj) and v.cls == "std::optional"

    def is_tuple(self, v):
        return isinstance(v, Obj) and v.cls in ("std::pair", "std::tuple")

    def is_nullopt(self, v):
        return isinstance(v, Opaque) and "nullopt" in v.tag

    def opt_has(self, v):
        return bool(v.f["has"].v)

    def opt(self, v=None, has=False):
        return Obj("std::optional", {"has": Cell(has), "v": Cell(v)})

    def mktuple(self, vs):
        return Obj("std::tuple", {str(i): Cell(v) for i, v in enumerate(vs)})

    def span(self, a, b):
        """the elements between two iterators"""
        if isinstance(a, ArrPtr) and isinstance(b, ArrPtr):
            if a.off > b.off or a.off < 0 or b.off > len(a.cells):
                raise UB("range of a pointer pair outside its array", self.loc)
            return a.cells[a.off:b.off]
        if isinstance(a, Iter) and isinstance(b, Iter):
            if isinstance(a.cont, Map):
                ks = list(a.cont.d)
                i = ks.index(a.i) if a.i in a.cont.d else len(ks)
                j = ks.index(b.i) if b.i in b.cont.d else len(ks)
                return [self.iter_cell(Iter(a.cont, k), {}) for k in ks[i:j]]
            if isinstance(a.cont, Vec):
                n = len(a.cont.c)
                if a.rev:
                    return [a.cont.c[n - 1 - k] for k in range(a.i, b.i)]
                if a.i > b.i or a.i < 0 or b.i > n:
                    raise UB("iterator range outside its container", self.loc)
                return a.cont.c[a.i:b.i]
        raise Unsupported("range of %s" % type(a).__name__)

    def advance(self, it, d):
        if isinstance(it, ArrPtr):
            return ArrPtr(it.cells, it.off + d)
        if isinstance(it, Iter):
            r = it
            if isinstance(it.cont, Map):
                for _ in range(abs(d)):
                    r = self.iter_add(r, 1 if d > 0 else -1)
                return r
            return self.iter_add(it, d)
        raise Unsupported("advance of %s" % type(it).__name__)

    def less(self, a, b, fn=None):
        if fn is not None:
            return self.truth(self.apply(fn, [a, b]))
        return self.less_v(a.v, b.v)

    def less_v(self, a, b):
        if self.is_tuple(a) and self.is_tuple(b):
            for x, y in zip(a.f.values(), b.f.values()):
                if self.less_v(x.v, y.v):
                    return True
                if self.less_v(y.v, x.v):
                    return False
            return False
        if isinstance(a, Str) and isinstance(b, Str) and a.s is not None and b.s is not None:
            return a.s < b.s
        return self.compare("<", a, b)

    def apply(self, fn, cells, e=None):
        """call of a callable value"""
        if isinstance(fn, Lambda):
            return self.call_lambda(fn, cells)[0]
        if isinstance(fn, Opaque) and fn.tag == "fn":
            return self.call_callee(fn.data, cells, e or {})
        if isinstance(fn, Opaque) and fn.tag.startswith("std::"):
            op = {"std::plus": "+", "std::minus": "-", "std::multiplies": "*", "std::divides": "/", "std::less": "<", "std::greater": ">",
                  "std::equal_to": "==", "std::less_equal": "<=", "std::greater_equal": ">=", "std::not_equal_to": "!="}.get(fn.tag.split("<")[0])
            if op and len(cells) == 2:
                a, b = cells[0].v, cells[1].v
                if isinstance(a, Mat) or isinstance(b, Mat):
                    return self.matop(op, a, b, e or {})
                return self.binop(op, a, b, e or {})
        if isinstance(fn, Obj):
            g = [f for f in self.F.fn.values() if f.get("rec") == fn.cls and f.get("name") == "operator()" and "body" in f and len(f["params"]) == len(cells)]
            if len(g) == 1:
                return self.call(g[0], fn, cells)[0]
        raise Unsupported("call of %r" % (fn,))

    # values of +-infinity
    def inf_sign(self, p):
        """sign of the infinite part of a value, 0 when it is finite, None when it is not a number"""
        t = al.CTX.__dict__.get("nonfinite", {}).get("infinity")
        if t is None:
            return 0 if not al.has_kind(p, "nonfinite") else None
        (mono, one), = t.t.items()
        c = p.t.get(mono)
        rest = p
        if c is not None:
            rest = p - t.scale(c)
        if al.has_kind(rest, "nonfinite"):
            return None
        return 0 if c is None else (1 if c > 0 else -1)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if self.is_opt(v):
            return self.opt_has(v)
        if isinstance(v, (Mat, Vec, Map)):
            return True             # a pointer to one
        if isinstance(v, int):
            return v != 0
        if v is None:
            return False
        if isinstance(v, (Obj, ArrPtr, Lambda)):
            return True
        if isinstance(v, Poly):
            return self.compare("!=", v, 0)
        if isinstance(v, Opaque):
            if v.tag == "bool":
                return self.decide_key(("ob", id(v.data) if v.data is not None else id(v))) == 0
        raise Unsupported("truth of %r" % (v,))

    def to_poly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            return C(int(v))
        if isinstance(v, int):
            return C(v)
        raise Unsupported("number expected, got %s" % type(v).__name__)

    def to_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Poly) and v.is_const():
            c = v.cval()
            return int(c)
        raise Unsupported("integer expected, got %s" % (v,))

    # ------------------------------------------------------------------------------------------------ cells
    def read(self, cell, elt="d"):
        if cell.v is None and elt is not None:
            self.uninit_n += 1
            if elt == "d":
                cell.v = al.sym("uninit%d" % self.uninit_n, kind="uninit")
            else:
                raise UB("read of an uninitialised value", self.loc)
        return cell.v

    def mread(self, m, i, j):
        return self.read(m.at(i, j), m.elt)

    def mvals(self, m):
        return [self.read(c, m.elt) for c in m.cells]

    def mpolys(self, m):
        return [self.to_poly(x) if not isinstance(x, Poly) else x for x in self.mvals(m)]

    def newmat(self, rows, cols, vals=None, fr=-1, fc=-1, elt="d"):
        if vals is None:
            cells = [Cell() for _ in range(rows * cols)]
        else:
            cells = [Cell(v) for v in vals]
        return Mat(rows, cols, cells, fr, fc, True, elt)

    def view(self, m, idx, rows, cols):
        return Mat(rows, cols, [m.cells[k] for k in idx], -1, -1, False, m.elt)

    # ------------------------------------------------------------------------------------------------ types
    def is_ptr_type(self, n):
        return n.endswith("*") or n.endswith("*const") or n.endswith("* const") or n.startswith("std::shared_ptr<") or n.startswith("std::unique_ptr<") or n.startswith("std::weak_ptr<")

    def default(self, t):
        n = t.get("n", "")
        if n.startswith("const "):
            n = n[6:]
        if t.get("ptr"):
            return None
        return self.default_n(n, t)

    def default_n(self, n, t=None):
        ar = array_type(n)
        if ar:
            return Vec([Cell(self.default_n(ar[0], elem_type(ar[0]))) for _ in range(ar[1])], ar[0])
        if n.startswith("const "):
            n = n[6:]
        mt = parse_mat_type(n)
        if mt:
            r, c, e = mt
            rr, cc = (r if r >= 0 else 0), (c if c >= 0 else 0)
            return self.newmat(rr, cc, None, r, c, e)
        if self.is_ptr_type(n):
            return None
        if n.startswith("std::vector<") or n.startswith("std::array<") or n.startswith("std::deque<"):
            inner = n[n.index("<") + 1:-1]
            if n.startswith("std::array<"):
                k = inner.rindex(",")
                return Vec([Cell(self.default_scalar(inner[:k])) for _ in range(int(inner[k + 1:]))], inner[:k])
            return Vec([], inner)
        if n.startswith("std::unordered_map<") or n.startswith("std::map<"):
            inner = n[n.index("<") + 1:-1]
            k = inner.index(",")
            return Map(inner[k + 1:].strip(), inner[:k])
        if n.startswith("std::unordered_set<") or n.startswith("std::set<"):
            return Map(None, n[n.index("<") + 1:-1].split(",")[0])
        if n == "std::string" or n.startswith("std::basic_string"):
            return Str("")
        if n.startswith("Eigen::SparseMatrix<"):
            return Sparse()
        if n in self.F.rec:
            return None if t is None or t.get("ptr") else self.construct(n, [], None)
        if n.startswith("std::pair<"):
            ts = targs_of(n)
            return Obj("std::pair", {"first": Cell(self.default_scalar(ts[0])), "second": Cell(self.default_scalar(ts[1]))})
        if n.startswith("std::tuple<"):
            return self.mktuple([self.default_scalar(x) for x in targs_of(n)])
        if n.startswith("std::optional<"):
            return self.opt()
        if t and (t.get("int") or t.get("fp") or t.get("bool") or t.get("enum")):
            return None
        if n in ("int", "double", "bool", "float", "unsigned long", "unsigned int", "long", "char", "unsigned char", "long long", "unsigned long long", "short"):
            return None
        return Opaque(n)

    def default_scalar(self, n):
        """value-initialised element"""
        if n in ("int", "unsigned long", "unsigned int", "long", "char", "unsigned char", "long long", "short", "unsigned long long"):
            return 0
        if n in ("double", "float"):
            return ZERO
        if n == "bool":
            return False
        return self.default_n(n, None) if not n in self.F.rec else self.construct(n, [], None)

    def copyval(self, v, t=None):
        """value copy (t: type name when known)"""
        if isinstance(v, Mat):
            m = Mat(v.rows, v.cols, [Cell(c.v) for c in v.cells], v.fr, v.fc, True, v.elt)
            return m
        if isinstance(v, Vec):
            if v.elt and self.is_ptr_type(v.elt):
                return Vec([Cell(c.v) for c in v.c], v.elt)
            return Vec([Cell(self.copyval(c.v)) for c in v.c], v.elt)
        if isinstance(v, Map):
            m = Map(v.elt, v.kt)
            for k, c in v.d.items():
                m.d[k] = Cell(c.v if (v.elt and self.is_ptr_type(v.elt)) else self.copyval(c.v))
            return m
        if isinstance(v, Sparse):
            s = Sparse(v.rows, v.cols)
            s.d = {k: Cell(c.v) for k, c in v.d.items()}
            return s
        if isinstance(v, Obj):
            return self.copyobj(v)
        if isinstance(v, Iter):
            return Iter(v.cont, v.i, v.rev)
        if isinstance(v, Comma):
            return v
        return v

    def fields(self, cls):
        out = []
        for c in reversed(self.F.bases(cls)):
            r = self.F.rec.get(c)
            if r:
                out += [(f, c) for f in r["fields"]]
        return out

    def copyobj(self, o):
        if o.cls in self.F.rec:
            cc = [f for f in self.F.fn.values() if f.get("rec") == o.cls and f.get("copyctor")]
            for f in cc:
                if not f.get("implicit") and not f.get("defaulted") and not f.get("deleted") and "body" in f:
                    n = Obj(o.cls)
                    self.run_ctor(f, n, [Cell(o)])
                    return n
        n = Obj(o.cls)
        ft = {f["name"]: f["t"] for f, c in self.fields(o.cls)} if o.cls in self.F.rec else {}
        for k, c in o.f.items():
            t = ft.get(k)
            if t is not None and (t.get("ptr") or t.get("ref") or self.is_ptr_type(t.get("n", ""))):
                n.f[k] = Cell(c.v)
            elif t is None and isinstance(c.v, Obj):
                n.f[k] = Cell(c.v)
            else:
                n.f[k] = Cell(self.copyval(c.v))
        return n

    # ------------------------------------------------------------------------------------------------ construction
    def construct(self, cls, argcells, callee):
        f = self.F.fn.get((callee or {}).get("id")) if callee else None
        o = Obj(cls)
        if f is None:
            cands = [g for g in self.F.fn.values() if g.get("rec") == cls and g.get("ctor") and not g.get("copyctor") and not g.get("movector") and not g.get("deleted")]
            good = []
            for g in cands:
                ps = g["params"]
                if len(ps) < len(argcells):
                    continue
                if any("def" not in p for p in ps[len(argcells):]):
                    continue
                sc = self.match(ps, argcells)
                if sc is not None:
                    good.append((sc, g))
            if not good:
                if not argcells:
                    self.init_defaults(cls, o)
                    return o
                raise Unsupported("no constructor of %s for %d arguments" % (cls, len(argcells)))
            good.sort(key=lambda x: -x[0])
            f = good[0][1]
        self.run_ctor(f, o, argcells)
        return o

    def match(self, ps, args):
        sc = 0
        for p, a in zip(ps, args):
            t = p["t"]
            v = a.v
            n = t.get("n", "")
            if t.get("ptr") or self.is_ptr_type(n):
                if not (v is None or isinstance(v, (Obj, ArrPtr, Str))):
                    return None
                if isinstance(v, Obj) and t.get("pointee"):
                    pt = t["pointee"]
                    if pt in self.F.rec and pt not in self.F.bases(v.cls):
                        return None
                    sc += 1
            elif t.get("fp"):
                if not is_num(v):
                    return None
                sc += 2 if isinstance(v, Poly) else 1
            elif t.get("int") or t.get("enum"):
                if not isinstance(v, int) or isinstance(v, bool):
                    return None
                sc += 2
            elif t.get("bool"):
                if not isinstance(v, bool):
                    return None
                sc += 2
            elif n.startswith("Eigen::"):
                if not isinstance(v, Mat):
                    return None
                mt = parse_mat_type(n)
                if mt:
                    if (mt[0] >= 0 and mt[0] != v.rows) or (mt[1] >= 0 and mt[1] != v.cols):
                        return None
                sc += 1
            elif n in self.F.rec:
                if not isinstance(v, Obj) or n not in self.F.bases(v.cls):
                    return None
                sc += 2
            elif n.startswith("std::vector"):
                if not isinstance(v, Vec):
                    return None
        return sc

    def init_defaults(self, cls, o):
        for c in reversed(self.F.bases(cls)):
            r = self.F.rec.get(c)
            if not r:
                continue
            for f in r["fields"]:
                self.init_field(f, o)

    def init_field(self, f, o):
        if "init" in f:
            v = self.eval(f["init"], {}, o)
            mt = parse_mat_type(f["t"].get("n", ""))
            o.f[f["name"]] = Cell(self.coerce(v, f["t"]))
        else:
            o.f[f["name"]] = Cell(self.default(f["t"]))

    def run_ctor(self, f, o, argcells):
        if "body" not in f:
            if f.get("defaulted") or f.get("implicit"):
                if f.get("copyctor"):
                    n = self.copyobj(argcells[0].v)
                    o.f.update(n.f)
                    return
                r = self.F.rec.get(f["rec"])
                for b in r["bases"]:
                    if b in self.F.rec:
                        self.run_ctor_default(b, o)
                for fl in r["fields"]:
                    self.init_field(fl, o)
                return
            raise Unsupported("constructor without body: " + f["q"])
        self.called.add(f["id"])
        env = self.bind(f, argcells, o)
        saved = self.curfn
        self.curfn = f
        try:
            inited = set()
            r = self.F.rec.get(f["rec"])
            bases_done = set()
            for i in f.get("inits", []):
                if "base" in i:
                    bases_done.add(i["base"])
                    e = i["e"]
                    if e.get("k") == "construct":
                        if i["base"] in self.F.rec:
                            g = self.F.fn.get((e.get("callee") or {}).get("id"))
                            args = [self.argcell(a, env, o) for a in e.get("args", [])]
                            if g is not None:
                                self.run_ctor(g, o, self.with_defaults(g, args))
                            else:
                                self.run_ctor_default(i["base"], o)
                    elif e.get("k") == "copy":
                        src = self.eval(e["e"], env, o)
                        bn = {fl["name"] for fl, c in self.fields(i["base"])}
                        n = self.copyobj(src)
                        for k in bn:
                            if k in n.f:
                                o.f[k] = n.f[k]
                    else:
                        raise Unsupported("base initialiser")
                elif "delegating" in i:
                    e = i["e"]
                    g = self.F.fn.get((e.get("callee") or {}).get("id"))
                    args = [self.argcell(a, env, o) for a in e.get("args", [])]
                    self.run_ctor(g, o, self.with_defaults(g, args))
                    inited |= {fl["name"] for fl, c in self.fields(f["rec"])}
            for b in r["bases"]:
                if b in self.F.rec and b not in bases_done and not any("delegating" in i for i in f.get("inits", [])):
                    self.run_ctor_default(b, o)
            for i in f.get("inits", []):
                if "field" in i:
                    fl = next((x for x in r["fields"] if x["name"] == i["field"]), None)
                    e = i["e"]
                    self.loc = self.L(i)
                    if fl is not None and fl["t"].get("ref"):
                        o.f[i["field"]] = self.lv(e, env, o)
                    else:
                        mark = len(self.temps)
                        v = self.eval(e, env, o)
                        o.f[i["field"]] = Cell(self.coerce(v, fl["t"]) if fl else v)
                        self.taken(v, mark)
                    inited.add(i["field"])
            for fl in r["fields"]:
                if fl["name"] not in inited:
                    self.init_field(fl, o)
            try:
                self.exec(f["body"], env, o)
            except _Return:
                pass
        finally:
            self.curfn = saved

    def run_ctor_default(self, cls, o):
        g = [f for f in self.F.fn.values() if f.get("rec") == cls and f.get("ctor") and not f.get("copyctor") and not f.get("movector")]
        g0 = [f for f in g if all("def" in p for p in f["params"])]
        if g0 and "body" in g0[0]:
            self.run_ctor(g0[0], o, self.with_defaults(g0[0], []))
        else:
            for c in reversed(self.F.bases(cls)):
                r = self.F.rec.get(c)
                if r:
                    for f in r["fields"]:
                        self.init_field(f, o)

    def with_defaults(self, f, args):
        args = list(args)
        for p in f["params"][len(args):]:
            if "def" not in p:
                raise Unsupported("missing argument for " + f["q"])
            args.append(Cell(self.eval(p["def"], {}, None)))
        return args

    def coerce(self, v, t):
        """implicit conversions that are visible in the target type only"""
        n = t.get("n", "")
        if n.startswith("std::optional<") and not self.is_opt(v):
            return self.opt() if self.is_nullopt(v) or isinstance(v, list) and not v else self.opt(self.elt_coerce(v, n[14:-1]), True)
        if isinstance(v, list) and (n.startswith("std::pair<") or n.startswith("std::tuple<")):
            return self.elt_coerce(v, n)
        if t.get("ptr") and isinstance(v, Vec) and not t.get("pointee", "std::").replace("const ", "").startswith("std::"):
            return ArrPtr(v.c, 0)       # an array used as a pointer
        if n.endswith("]") and not t.get("ref") and not t.get("ptr") and isinstance(v, list):
            ar = array_type(n)
            if ar and len(v) <= ar[1]:
                et = elem_type(ar[0])
                zero = not array_type(ar[0]) and not parse_mat_type(ar[0])
                cs = [Cell(self.coerce(x, et)) for x in v]
                cs += [Cell(self.default_scalar(ar[0]) if zero else self.default_n(ar[0], et)) for _ in range(ar[1] - len(v))]
                return Vec(cs, ar[0])
        mt = parse_mat_type(n)
        if mt and isinstance(v, Mat):
            if (v.fr, v.fc) != mt[:2] or not v.owner:
                m = self.newmat(0 if mt[0] < 0 else mt[0], 0 if mt[1] < 0 else mt[1], None, mt[0], mt[1], mt[2])
                self.assign(m, v)
                return m
            return v
        if t.get("fp") and isinstance(v, (int, bool)):
            return C(int(v))
        if t.get("bool") and isinstance(v, int):
            return bool(v)
        return v

    # ------------------------------------------------------------------------------------------------ calls
    def bind(self, f, argcells, this):
        env = {}
        ps = f["params"]
        if len(argcells) < len(ps):
            argcells = self.with_defaults(f, argcells)
        for p, a in zip(ps, argcells):
            t = p["t"]
            if t.get("ref") or t.get("rref"):
                env[p["id"]] = a
            else:
                env[p["id"]] = Cell(self.coerce(a.v, t))
        return env

    def call(self, f, this, argcells, node=None):
        """call a function of the analysed program; returns (value, cell)"""
        q = f["q"]
        if q in self.hooks:
            r = self.hooks[q](self, this, argcells, node)
            if r is not NotImplemented:
                return r if isinstance(r, tuple) else (r, None)
        ax = self.axioms.get(f["id"])
        if ax:
            v = argcells[0].v
            return self.axiom(ax, v), None
        if "body" not in f:
            raise Unsupported("no body: " + q)
        if self.depth > 60:
            raise Unsupported("call depth")
        self.called.add(f["id"])
        env = self.bind(f, argcells, this)
        saved, sl = self.curfn, self.loc
        self.curfn = f
        self.depth += 1
        self.frames.append((f, env))
        mark = len(self.temps)
        try:
            self.exec(f["body"], env, this)
            if len(self.temps) > mark:
                raise Unsupported("a temporary with a destructor")
            return None, None
        except _Return as r:
            if len(self.temps) > mark:
                raise Unsupported("a temporary with a destructor")
            v, cell = r.v, r.cell
            if cell is None:
                v = self.coerce(v, f["ret"])
            return v, cell
        finally:
            self.curfn = saved
            self.depth -= 1
            self.frames.pop()

    def axiom(self, kind, m):
        v = self.mpolys(m)
        if kind == "exp":
            if len(v) != 3:
                raise UB("rotation exponential of a %d-vector" % len(v), self.loc)
            w = al.exp_word(v)
            return self.newmat(3, 3, al.word_entries(w), 3, 3)
        if kind == "log":
            w = self.find_word(v)
            if w is None:
                raise Unsupported("logarithm of a matrix that is not recognised as a rotation")
            return self.newmat(3, 1, al.log_atoms(w), 3, 1)
        if kind in ("jinv", "jinvr"):
            w = al.vec_is_log(v)
            if w is None:
                # a plain vector: give it a rotation
                w = al.exp_word(v)
            e = al.ji_atoms(w)
            if kind == "jinvr":
                e = [e[(i % 3) * 3 + i // 3] for i in range(9)]
            return self.newmat(3, 3, e, 3, 3)
        raise Unsupported(kind)

    def find_word(self, e):
        w = al.word_of(e)
        if w is not None:
            return w
        # a product expanded elsewhere: compare with short words
        ids = set()
        for p in e:
            ids |= {al.CTX.letterof[i][0] for i in p.atoms() if i in al.CTX.letterof}
        deg = max([sum(x for i, x in m if i in al.CTX.letterof) for p in e for m in p.t] or [0])
        ls = [(l, s) for l in sorted(ids) for s in (1, -1)]
        if deg > 3 or not ls:
            return None
        def rec(w):
            if len(w) == deg:
                yield w
                return
            for x in ls:
                if w and w[-1] == (x[0], -x[1]):
                    continue
                yield from rec(w + (x,))
        n = 0
        for w in rec(()):
            n += 1
            if n > 400:
                return None
            if al.word_entries(w) == list(e):
                return w
        return None

    def method(self, o, name, args=(), const=None, nargs=None):
        """convenience: call method by name on an object (virtual dispatch by dynamic class)"""
        cands = []
        for c in self.F.bases(o.cls):
            for f in self.F.methods(c, name, inherited=False):
                if "body" in f and len(f["params"]) >= len(args):
                    cands.append(f)
            if cands:
                break
        cells = [a if isinstance(a, Cell) else Cell(a) for a in args]
        cands = [f for f in cands if all("def" in p for p in f["params"][len(args):])]
        best = None
        for f in cands:
            sc = self.match(f["params"], cells)
            if sc is None:
                continue
            if best is None or sc > best[0]:
                best = (sc, f)
        if best is None:
            raise Unsupported("no method %s::%s" % (o.cls, name))
        f = best[1]
        v, cell = self.call(f, o, cells)
        return v

    def argcell(self, a, env, this):
        if a.get("k") == "defarg":
            return Cell(self.eval(a["e"], {}, None))
        if a.get("lv"):
            return self.lv(a, env, this)
        return Cell(self.eval(a, env, this))

    # ------------------------------------------------------------------------------------------------ statements
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget")

    def exec(self, s, env, this):
        self.tick()
        k = s["k"]
        getattr(self, "s_" + k, self.s_unknown)(s, env, this)

    def s_unknown(self, s, env, this):
        raise Unsupported("statement %s" % s["k"])

    def s_block(self, s, env, this):
        guards = [d for x in s["b"] if x["k"] == "decl" for d in x["d"] if self.has_dtor(d)]
        if not guards:
            self.stmts(s["b"], env, this)
            return
        for d in guards:
            env.pop(d["id"], None)
        out = None
        try:
            self.stmts(s["b"], env, this)
        except LEAVES as x:
            out = x
        for d in reversed(guards):
            c = env.get(d["id"])
            if c is not None and isinstance(c.v, Obj) and not (isinstance(out, _Return) and c.v is out.v):
                self.destroy(c.v)
        if out is not None:
            raise out

    def destroy(self, o):
        """the end of an object's life: its destructor, then its members and bases"""
        f = self.dtors().get(o.cls)
        if f is not None:
            self.call(f, o, [])
        for fl, c in reversed(self.fields(o.cls)):
            x = o.f.get(fl["name"])
            if x is not None and isinstance(x.v, Obj) and self.destructible(fl["t"]) and not (fl["t"].get("ref") or fl["t"].get("rref")):
                self.destroy(x.v)
        for b in self.F.bases(o.cls)[1:]:
            if b in self.dtors():
                self.call(self.dtors()[b], o, [])

    def taken(self, v, mark):
        """the temporary that became this value (perhaps copied on the way) is no temporary any more"""
        if isinstance(v, Obj):
            for k in range(len(self.temps) - 1, mark - 1, -1):
                if self.temps[k] is v or (k == len(self.temps) - 1 and self.temps[k].cls == v.cls):
                    del self.temps[k]
                    return

    def end_temps(self, mark, keep=None):
        """temporaries with a destructor die at the end of the full expression that made them"""
        gone = [t for t in self.temps[mark:] if t is not keep]
        del self.temps[mark:]
        for t in reversed(gone):
            self.destroy(t)

    def stmts(self, b, env, this):
        i = n = 0
        while i < len(b):
            try:
                self.exec(b[i], env, this)
            except _Goto as g:
                i = next((k for k, x in enumerate(b) if x["k"] == "label" and x.get("name") == g.name), None)
                n += 1
                if i is None:
                    raise
                if n > 1000:
                    raise Unsupported("goto loop")
                continue
            i += 1

    def s_goto(self, s, env, this):
        raise _Goto(s.get("name"))

    def dtors(self):
        if not hasattr(self.F, "_dtors"):
            self.F._dtors = {f["rec"]: f for f in self.F.fn.values() if f.get("dtor") and f.get("rec") and f.get("body", {}).get("b")}
        return self.F._dtors

    def destructible(self, t):
        """does the end of an object of this type run code of the program?"""
        n = t.get("n", "")
        n = n[6:] if n.startswith("const ") else n
        if t.get("ptr") or n not in self.F.rec or not self.dtors():
            return False
        memo = self.F.__dict__.setdefault("_destructible", {})
        if n not in memo:
            memo[n] = False
            memo[n] = any(b in self.dtors() for b in self.F.bases(n)) or any(
                self.destructible(f["t"]) for f, c in self.fields(n) if not (f["t"].get("ref") or f["t"].get("rref")))
        return memo[n]

    def has_dtor(self, d):
        t = d.get("t", {})
        if d.get("static") or not self.destructible(t):
            return False
        if t.get("ref") or t.get("rref"):
            e = d.get("init") or {}        # a reference prolongs the life of a temporary
            return not (e.get("lv") or e.get("k") in ("ref", "member"))
        return True

    def s_empty(self, s, env, this):
        pass

    def s_expr(self, s, env, this):
        self.full(s["e"], env, this)

    def full(self, e, env, this, keep=False):
        """a full expression; keep: its value outlives it"""
        mark = len(self.temps)
        v, out = None, None
        try:
            v = self.eval(e, env, this)
        except LEAVES as x:
            out = x
        if len(self.temps) > mark:
            self.end_temps(mark, v if keep else None)
        if out is not None:
            raise out
        return v

    def s_decl(self, s, env, this):
        for d in s["d"]:
            mark = len(self.temps)
            out = None
            try:
                self.declare(d, env, this)
            except LEAVES as x:
                out = x
            if len(self.temps) > mark:
                if "id" in d and out is None:
                    self.taken(env[d["id"]].v, mark)
                self.end_temps(mark)
            if out is not None:
                raise out

    def declare(self, d, env, this):
        t = d["t"]
        self.loc = self.L(d)
        if d.get("static") and d["id"] in self.globals:
            env[d["id"]] = self.globals[d["id"]]
            return
        if "bindings" in d:
            v = self.eval(d["init"], env, this)
            cells = self.destructure(v, len(d["bindings"]))
            for b, c in zip(d["bindings"], cells):
                env[b["id"]] = c if (t.get("ref") or t.get("rref")) else Cell(self.copyval(c.v))
            return
        if "init" in d:
            if t.get("ref") or t.get("rref"):
                e = d["init"]
                if e.get("lv") or e["k"] in ("ref", "member"):
                    env[d["id"]] = self.lv(e, env, this)
                else:
                    env[d["id"]] = Cell(self.eval(e, env, this))
            else:
                v = self.eval(d["init"], env, this)
                if isinstance(v, (Mat,)) and not v.owner and parse_mat_type(t.get("n", "")) is None:
                    env[d["id"]] = Cell(v)     # auto bound to a view
                else:
                    env[d["id"]] = Cell(self.coerce(v, t))
        else:
            env[d["id"]] = Cell(self.default(t))
        if d.get("static"):
            self.globals[d["id"]] = env[d["id"]]

    def destructure(self, v, n):
        if isinstance(v, Obj):
            return list(v.f.values())[:n]
        if isinstance(v, Vec):
            return v.c[:n]
        raise Unsupported("structured binding")

    def s_if(self, s, env, this):
        if "init" in s:
            self.exec(s["init"], env, this)
        if "cv" in s:
            self.declare(s["cv"], env, this)
        if self.truth(self.eval(s["c"], env, this)):
            self.exec(s["then"], env, this)
        elif "else" in s:
            self.exec(s["else"], env, this)

    def s_for(self, s, env, this):
        if "init" in s:
            self.exec(s["init"], env, this)
        n = 0
        while True:
            if self.loop_hook:
                self.loop_hook(self, s, env, this, n)
            self.tick()
            nf = len(self.path.facts)
            if "c" in s and not self.truth(self.eval(s["c"], env, this)):
                break
            self.loop_symbolic[(id(s), len(self.frames))] = len(self.path.facts) > nf
            n += 1
            if n > 5000:
                raise Unsupported("loop bound")
            try:
                self.exec(s["body"], env, this)
            except _Break:
                break
            except _Continue:
                pass
            if "inc" in s:
                self.eval(s["inc"], env, this)

    def s_while(self, s, env, this):
        n = 0
        while True:
            if self.loop_hook:
                self.loop_hook(self, s, env, this, n)
            self.tick()
            if "cv" in s:
                self.declare(s["cv"], env, this)
            nf = len(self.path.facts)
            if not self.truth(self.eval(s["c"], env, this)):
                break
            self.loop_symbolic[(id(s), len(self.frames))] = len(self.path.facts) > nf
            n += 1
            if n > 5000:
                raise Unsupported("loop bound")
            try:
                self.exec(s["body"], env, this)
            except _Break:
                break
            except _Continue:
                pass

    def s_do(self, s, env, this):
        n = 0
        while True:
            if self.loop_hook:
                self.loop_hook(self, s, env, this, n)
            n += 1
            if n > 5000:
                raise Unsupported("loop bound")
            try:
                self.exec(s["body"], env, this)
            except _Break:
                break
            except _Continue:
                pass
            if not self.truth(self.eval(s["c"], env, this)):
                break

    def s_rangefor(self, s, env, this):
        r = self.eval(s["range"], env, this)
        if isinstance(r, Vec):
            cells = list(r.c)
        elif isinstance(r, Map):
            cells = []
            for k in (list(r.d)[::-1] if getattr(self, "map_reverse", False) else list(r.d)):
                if r.elt is None:
                    cells.append(Cell(k))
                else:
                    cells.append(Cell(Obj("std::pair", {"first": Cell(k), "second": r.d[k]})))
        elif isinstance(r, Mat) and (r.cols == 1 or r.rows == 1):
            cells = list(r.cells)
        elif isinstance(r, list):
            cells = [Cell(x) for x in r]
        else:
            raise Unsupported("range-for over %s" % type(r).__name__)
        v = s["var"]
        for c in cells:
            self.tick()
            if "bindings" in v:
                for b, x in zip(v["bindings"], self.destructure(c.v, len(v["bindings"]))):
                    env[b["id"]] = x
            elif v["t"].get("ref") or v["t"].get("rref"):
                env[v["id"]] = c
            else:
                x = c.v
                if not (v["t"].get("ptr") or self.is_ptr_type(v["t"].get("n", ""))):
                    x = self.copyval(x)
                env[v["id"]] = Cell(x)
            try:
                self.exec(s["body"], env, this)
            except _Break:
                break
            except _Continue:
                continue

    def s_switch(self, s, env, this):
        v = self.eval(s["c"], env, this)
        v = self.to_int(v)
        flat = []
        for x in s["body"]["b"]:
            while x["k"] in ("case", "default"):
                flat.append((x["k"], x.get("v")))
                x = x["s"]
            flat.append(("stmt", x))
        start = None
        for i, (k, x) in enumerate(flat):
            if k == "case" and self.to_int(self.eval(x, env, this)) == v:
                start = i
                break
        if start is None:
            for i, (k, x) in enumerate(flat):
                if k == "default":
                    start = i
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == "stmt":
                    self.exec(x, env, this)
        except _Break:
            pass

    def s_return(self, s, env, this):
        if "e" not in s:
            raise _Return(None)
        e = s["e"]
        self.loc = self.L(s)
        if (self.curfn or {}).get("ret", {}).get("ref"):
            c = self.lv(e, env, this)
            raise _Return(c.v, c)
        raise _Return(self.full(e, env, this, True))

    def s_break(self, s, env, this):
        raise _Break()

    def s_continue(self, s, env, this):
        raise _Continue()

    def s_try(self, s, env, this):
        try:
            self.exec(s["body"], env, this)
        except Throw as t:
            for h in s["h"]:
                if not self.catches(h, t.val):
                    continue
                if "id" in h:
                    env[h["id"]] = Cell(t.val)
                self.exec(h["body"], env, this)
                return
            raise

    EXC = {"std::runtime_error": "std::exception", "std::logic_error": "std::exception", "std::invalid_argument": "std::logic_error",
           "std::out_of_range": "std::logic_error", "std::domain_error": "std::logic_error", "std::length_error": "std::logic_error",
           "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error",
           "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception", "std::bad_optional_access": "std::exception",
           "std::bad_function_call": "std::exception", "std::system_error": "std::runtime_error"}

    def catches(self, h, val):
        if h.get("all"):
            return True
        n = h.get("t", {}).get("n", "")
        n = n[6:] if n.startswith("const ") else n
        q = val.tag.split(":", 1)[1] if isinstance(val, Opaque) and val.tag.startswith("exception:") else (val.cls if isinstance(val, Obj) else None)
        if q is None:
            return True                 # an exception of no particular type
        known = False
        for _ in range(8):
            if q == n:
                return True
            if q in self.EXC:
                known = True
                q = self.EXC[q]
            elif q in self.F.rec and self.F.rec[q]["bases"]:
                known = True
                q = self.F.rec[q]["bases"][0]
            else:
                break
        return not (known and (n in self.EXC or n == "std::exception" or n in self.F.rec or n in ("int", "double", "bool")))

    def s_label(self, s, env, this):
        self.exec(s["s"], env, this)

    # ------------------------------------------------------------------------------------------------ expressions
    def eval(self, e, env, this):
        self.tick()
        f = getattr(self, "e_" + e["k"], None)
        if f is None:
            raise Unsupported("expression %s (%s)" % (e["k"], e.get("cls", "")))
        return f(e, env, this)

    def lv(self, e, env, this):
        """cell designated by an lvalue expression"""
        k = e["k"]
        if k == "ref":
            dk = e.get("dk")
            if dk in ("param", "local", "binding"):
                c = env.get(e["id"])
                if c is None:
                    raise Unsupported("unbound variable " + e["name"])
                return c
            if dk == "global":
                return self.global_cell(e, env, this)
            return Cell(self.eval(e, env, this))
        if k == "member" and e.get("field"):
            b = self.eval(e["base"], env, this)
            return self.field_cell(b, e)
        if k == "opcall":
            r = self.opcall(e, env, this, want_cell=True)
            return r if isinstance(r, Cell) else Cell(r)
        if k in ("mcall", "call"):
            r = self.do_call(e, env, this, want_cell=True)
            return r if isinstance(r, Cell) else Cell(r)
        if k == "unary" and e["op"] == "*":
            p = self.eval(e["e"], env, this)
            return self.deref(p, e)
        if k == "unary" and e["op"] in ("++", "--"):
            self.eval(e, env, this)
            return self.lv(e["e"], env, this)
        if k == "index":
            a = self.eval(e["a"], env, this)
            i = self.to_int(self.eval(e["b"], env, this))
            return self.arr(a, i, e)
        if k in ("assign", "cassign"):
            self.eval(e, env, this)
            return self.lv(e["a"], env, this)
        if k == "cast":
            return self.lv(e["e"], env, this)
        if k == "cond":
            return self.lv(e["a"] if self.truth(self.eval(e["c"], env, this)) else e["b"], env, this)
        if k == "binary" and e["op"] == ",":
            self.eval(e["a"], env, this)
            return self.lv(e["b"], env, this)
        return Cell(self.eval(e, env, this))

    def arr(self, a, i, e):
        if isinstance(a, ArrPtr):
            k = a.off + i
            if k < 0 or k >= len(a.cells):
                raise UB("array index %d out of range" % k, self.L(e))
            return a.cells[k]
        if isinstance(a, Vec):
            if i < 0 or i >= len(a.c):
                raise UB("array index %d out of range" % i, self.L(e))
            return a.c[i]
        raise Unsupported("index of %s" % type(a).__name__)

    def field_cell(self, b, e):
        if b is None:
            raise UB("null pointer dereference (member %s)" % e["name"], self.L(e))
        if isinstance(b, Obj):
            c = b.f.get(e["name"])
            if c is None:
                c = b.f[e["name"]] = Cell()
            return c
        if isinstance(b, Opaque):
            return Cell(Opaque(b.tag + "." + e["name"]))
        raise Unsupported("member %s of %s" % (e["name"], type(b).__name__))

    def deref(self, p, e):
        if p is None:
            raise UB("null pointer dereference", self.L(e))
        if self.is_opt(p):
            if not self.opt_has(p):
                raise UB("value of an empty optional", self.L(e))
            return p.f["v"]
        if isinstance(p, Obj):
            return Cell(p)
        if isinstance(p, ArrPtr):
            return self.arr(p, 0, e)
        if isinstance(p, Iter):
            return self.iter_cell(p, e)
        if isinstance(p, (Mat, Vec, Map, Sparse)):
            return Cell(p)
        if isinstance(p, Obj) and p.cls == "back_inserter":
            return Cell(p)
        raise Unsupported("dereference of %s" % type(p).__name__)

    def iter_cell(self, it, e):
        if isinstance(it.cont, Map):
            if it.i not in it.cont.d:
                raise UB("dereference of end iterator", self.L(e))
            if it.cont.elt is None:
                return Cell(it.i)
            return Cell(Obj("std::pair", {"first": Cell(it.i), "second": it.cont.d[it.i]}))
        cells = it.cont.c if isinstance(it.cont, Vec) else it.cont.cells
        if it.rev:
            if not 0 <= it.i < len(cells):
                raise UB("dereference of iterator out of range", self.L(e))
            return cells[len(cells) - 1 - it.i]
        if it.i < 0 or it.i >= len(cells):
            raise UB("dereference of iterator out of range", self.L(e))
        return cells[it.i]

    def global_cell(self, e, env, this):
        if e.get("id") in self.globals:
            return self.globals[e["id"]]
        strs = self.F.strings().get(e.get("q"))
        if strs is not None:
            c = Cell(Vec([Cell(Str(x)) if x is not None else Cell(None) for x in strs]))
        elif "init" in e:
            v = self.eval(e["init"], env, this)
            c = Cell(self.coerce(v, e.get("t", {})))
        else:
            c = Cell(Opaque("global:" + e.get("q", "?")))
        self.globals[e.get("id")] = c
        return c

    # --- literals
    def e_int(self, e, env, this):
        return e["v"]

    def e_float(self, e, env, this):
        s = e.get("sp", "").rstrip("fFlL").replace("'", "")
        try:
            return C(Fr(s))
        except (ValueError, ZeroDivisionError):
            return C(Fr(repr(e["v"])))

    def e_boollit(self, e, env, this):
        return bool(e["v"])

    def e_str(self, e, env, this):
        return Str(e.get("v"))

    def e_char(self, e, env, this):
        return e["v"]

    def e_nullptr(self, e, env, this):
        return None

    def e_null(self, e, env, this):
        return None

    def e_this(self, e, env, this):
        return this

    def e_defarg(self, e, env, this):
        return self.eval(e["e"], {}, None)

    def e_zeroinit(self, e, env, this):
        t = e.get("t", {})
        if t.get("fp"):
            return ZERO
        if t.get("int") or t.get("enum"):
            return 0
        if t.get("bool"):
            return False
        return self.default(t)

    def e_sizeof(self, e, env, this):
        return e.get("v", 8)

    def e_ref(self, e, env, this):
        dk = e.get("dk")
        if dk == "enum":
            return e["v"]
        if dk == "fn":
            return Opaque("fn", e["callee"])
        c = self.lv(e, env, this)
        return self.load(c, e)

    def load(self, c, e):
        if c.v is None:
            t = e.get("t", {})
            if t.get("fp"):
                return self.read(c, "d")
            if t.get("int") or t.get("bool"):
                raise UB("read of an uninitialised variable", self.L(e))
        return c.v

    def e_member(self, e, env, this):
        if not e.get("field"):
            return Opaque("memberfn", e)
        b = self.eval(e["base"], env, this)
        return self.load(self.field_cell(b, e), e)

    def e_copy(self, e, env, this):
        v = self.eval(e["e"], env, this)
        t = e.get("t", {})
        if t.get("ptr") or self.is_ptr_type(t.get("n", "")):
            return v
        if isinstance(v, Obj) and e.get("rec") in self.F.rec and e.get("rec") != v.cls:
            n = self.copyobj(v)      # slicing keeps only the base part
            keep = {f["name"] for f, c in self.fields(e["rec"])}
            return Obj(e["rec"], {k: c for k, c in n.f.items() if k in keep})
        return self.copyval(v)

    def e_construct(self, e, env, this):
        rec = e.get("rec", "")
        t = e.get("t", {})
        args = e.get("args", [])
        n = t.get("n", "")
        if n.startswith("const "):
            n = n[6:]
        mt = parse_mat_type(n)
        if mt:
            return self.construct_mat(mt, args, env, this, e)
        if rec == "Eigen::Ref":
            v = self.eval(args[0], env, this)
            if isinstance(v, Mat):
                return Mat(v.rows, v.cols, v.cells, -1, -1, False, v.elt, isref=True)
            raise Unsupported("Ref of %s" % type(v).__name__)
        if rec == "Eigen::AngleAxis":
            vs = [self.eval(a, env, this) for a in args]
            if len(vs) == 1 and isinstance(vs[0], Mat):
                w = self.find_word(self.mpolys(vs[0]))
                if w is None:
                    raise Unsupported("AngleAxis of an unrecognised matrix")
                return Opaque("angleaxis", ("word", w))
            if len(vs) == 1 and isinstance(vs[0], Opaque):
                return vs[0]
            if len(vs) == 2:
                ang = self.to_poly(vs[0])
                ax = self.mpolys(vs[1])
                return Opaque("angleaxis", ("aa", ang, ax))
            return Opaque("angleaxis", None)
        if rec in ("Eigen::Quaternion",):
            vs = [self.eval(a, env, this) for a in args]
            if len(vs) == 1 and isinstance(vs[0], Mat) and vs[0].rows == 3 and vs[0].cols == 3:
                w = self.find_word(self.mpolys(vs[0]))
                if w is None:
                    raise Unsupported("Quaternion of an unrecognised matrix")
                return Opaque("angleaxis", ("word", w))
            if len(vs) == 1 and isinstance(vs[0], Opaque) and vs[0].tag == "angleaxis":
                return vs[0]
            raise Unsupported("Quaternion")
        if rec == "std::vector":
            return self.construct_vec(n, args, env, this, e)
        if rec == "std::optional":
            vs = [self.eval(a, env, this) for a in args if a.get("k") != "defarg"]
            if not vs or self.is_nullopt(vs[0]):
                return self.opt()
            if self.is_opt(vs[0]):
                return self.copyval(vs[0])
            v = vs[0]
            return self.opt(self.elt_coerce(v if self.is_ptr_type(n[14:-1]) else self.copyval(v), n[14:-1]), True)
        if rec == "__gnu_cxx::__normal_iterator":
            vs = [self.eval(a, env, this) for a in args if a.get("k") != "defarg"]
            return vs[0] if len(vs) == 1 and isinstance(vs[0], Iter) else Opaque(rec)
        if rec in ("std::pair", "std::tuple"):
            vs = [self.eval(a, env, this) for a in args if a.get("k") != "defarg"]
            ts = targs_of(n)
            if len(vs) == 1 and self.is_tuple(vs[0]) and len(ts) != 1:
                return self.copyval(vs[0])
            if not vs:
                return self.default_n(n)
            if len(vs) == len(ts):
                vs = [v if self.is_ptr_type(t) else self.copyval(v) for v, t in zip(vs, ts)]
                vs = [self.elt_coerce(v, t) for v, t in zip(vs, ts)]
                return Obj("std::pair", {"first": Cell(vs[0]), "second": Cell(vs[1])}) if rec == "std::pair" else self.mktuple(vs)
            raise Unsupported(rec + " construction")
        if rec == "Eigen::Map":
            return self.map_of(n, [self.eval(a, env, this) for a in args if a.get("k") != "defarg"], e)
        if rec == "Eigen::Rotation2D":
            vs = [self.eval(a, env, this) for a in args]
            if len(vs) == 1 and is_num(vs[0]):
                a = self.to_poly(vs[0])
                return self.newmat(2, 2, [al.cos(a), -al.sin(a), al.sin(a), al.cos(a)], 2, 2)
            raise Unsupported("Rotation2D")
        if rec.endswith("InnerIterator"):
            vs = [self.eval(a, env, this) for a in args]
            if len(vs) == 2 and isinstance(vs[0], Sparse):
                j = self.to_int(vs[1])
                if not 0 <= j < vs[0].cols:
                    raise UB("iteration over column %d of a %dx%d sparse matrix" % (j, vs[0].rows, vs[0].cols), self.L(e))
                return Obj("InnerIterator", {"m": Cell(vs[0]), "j": Cell(j), "k": Cell(0)})
            raise Unsupported("InnerIterator")
        if rec in ("std::unordered_map", "std::map", "std::set", "std::unordered_set"):
            if args and not all(a.get("k") == "defarg" for a in args):
                vs = [self.eval(a, env, this) for a in args if a.get("k") != "defarg"]
                if len(vs) == 1 and isinstance(vs[0], Map):
                    return self.copyval(vs[0])
                if len(vs) >= 1 and isinstance(vs[0], list):
                    r = self.default_n(n)
                    for x in vs[0]:
                        if r.elt is None:
                            r.d.setdefault(x, Cell(None))
                        elif self.is_tuple(x):
                            k, v = [c.v for c in x.f.values()]
                            r.d.setdefault(k, Cell(self.elt_coerce(v, r.elt)))
                        elif isinstance(x, list) and len(x) == 2:
                            r.d.setdefault(x[0], Cell(self.elt_coerce(x[1], r.elt)))
                        else:
                            raise Unsupported("map construction")
                    return self.ordered(r, n)
                if len(vs) >= 2 and isinstance(vs[0], Iter):
                    r = self.default_n(n)
                    for c in self.span(vs[0], vs[1]):
                        if r.elt is None:
                            r.d.setdefault(c.v, Cell(None))
                        else:
                            k, v = [x.v for x in c.v.f.values()]
                            r.d.setdefault(k, Cell(self.copyval(v) if not self.is_ptr_type(r.elt) else v))
                    return self.ordered(r, n)
                if not (len(vs) == 1 and isinstance(vs[0], int)):
                    raise Unsupported("map construction")
            return self.default_n(n)
        if rec in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr"):
            if not args:
                return None
            return self.eval(args[0], env, this)
        if rec == "std::basic_string" or n == "std::string":
            for a in args:
                if a.get("k") == "str":
                    return Str(a.get("v"))
            vs = [self.eval(a, env, this) for a in args if a.get("k") != "defarg"]
            if not vs:
                return Str("")
            return vs[0] if isinstance(vs[0], Str) else Str(None)
        if rec == "std::pair" or rec == "std::tuple":
            vs = [self.eval(a, env, this) for a in args]
            if len(vs) == 2:
                return Obj("std::pair", {"first": Cell(vs[0]), "second": Cell(vs[1])})
            return Obj("std::tuple", {"e%d" % i: Cell(v) for i, v in enumerate(vs)})
        if rec == "std::function":
            return self.eval(args[0], env, this) if args else None
        if rec == "Eigen::SparseMatrix":
            vs = [self.eval(a, env, this) for a in args]
            if not vs:
                return Sparse()
            if len(vs) == 2:
                return Sparse(self.to_int(vs[0]), self.to_int(vs[1]))
            if len(vs) == 1 and isinstance(vs[0], Sparse):
                return self.copyval(vs[0])
            return Opaque("sparse", vs)
        if rec == "Eigen::Triplet":
            vs = [self.eval(a, env, this) for a in args]
            return Obj("Eigen::Triplet", {"r": Cell(vs[0]), "c": Cell(vs[1]), "v": Cell(vs[2] if len(vs) > 2 else ZERO)}) if vs else Obj("Eigen::Triplet")
        if rec in self.F.rec:
            cells = [self.argcell(a, env, this) for a in args]
            o = self.construct(rec, cells, e.get("callee"))
            if self.destructible({"n": rec}):
                self.temps.append(o)
            return o
        if rec.startswith("std::") and ("error" in rec or "exception" in rec or "argument" in rec or "out_of_range" in rec):
            return Opaque("exception:" + rec)
        if rec == "std::allocator" or rec.startswith("std::chrono") or rec.startswith("std::"):
            return Opaque(rec)
        hk = self.hooks.get("construct:" + rec)
        if hk:
            return hk(self, this, [self.eval(a, env, this) for a in args], e)
        return Opaque(rec or n)

    def construct_mat(self, mt, args, env, this, e):
        r, c, el = mt
        args = [a for a in args]
        if not args:
            return self.newmat(max(r, 0), max(c, 0), None, r, c, el)
        if e.get("list") and len(args) == 1 and args[0].get("k") == "initlist":
            v = self.eval(args[0], env, this)
            return self.mat_from_list(v, mt)
        vs = [self.eval(a, env, this) for a in args]
        if len(vs) == 1:
            v = vs[0]
            if isinstance(v, Mat):
                m = self.newmat(max(r, 0), max(c, 0), None, r, c, el)
                self.assign(m, v)
                return m
            if isinstance(v, (list, Vec)):
                return self.mat_from_list(v, mt)
            if isinstance(v, Opaque) and v.tag == "angleaxis":
                return self.coerce(self.aa_matrix(v), {"n": "Eigen::Matrix<double,%d,%d>" % (r, c)})
            if isinstance(v, Comma):
                return self.copyval(v.m)
            if isinstance(v, Sparse):
                return self.newmat(v.rows, v.cols, [v.d[(i, j)].v if (i, j) in v.d else ZERO for i in range(v.rows) for j in range(v.cols)], r, c, el)
            if isinstance(v, ArrPtr):
                raise Unsupported("matrix from raw pointer")
            if r < 0 or c < 0:
                n = self.to_int(v)
                if n < 0:
                    raise UB("negative matrix size", self.L(e))
                return self.newmat(n, 1, None, r, c, el) if c == 1 else self.newmat(1, n, None, r, c, el)
            if r * c == 1:
                return self.newmat(1, 1, [self.to_poly(v)], r, c, el)
            return self.newmat(r, c, None, r, c, el)
        if len(vs) == 2:
            if r >= 0 and c >= 0 and r * c == 2:
                return self.newmat(r, c, [self.elem(x, el) for x in vs], r, c, el)
            if r < 0 or c < 0:
                return self.newmat(self.to_int(vs[0]), self.to_int(vs[1]), None, r, c, el)
            return self.newmat(r, c, None, r, c, el)
        if r * c == len(vs):
            return self.newmat(r, c, [self.elem(x, el) for x in vs], r, c, el)
        raise Unsupported("matrix constructor")

    def elem(self, v, el):
        return self.to_poly(v) if el == "d" else v

    def mat_from_list(self, v, mt):
        r, c, el = mt
        items = v if isinstance(v, list) else [x.v for x in v.c]
        if items and isinstance(items[0], (list, Vec)):
            rows = [x if isinstance(x, list) else [y.v for y in x.c] for x in items]
            if len(rows) == 1 and c == 1:
                items = rows[0]
            else:
                return self.newmat(len(rows), len(rows[0]), [self.elem(x, el) for row in rows for x in row], r, c, el)
        if c == 1:
            return self.newmat(len(items), 1, [self.elem(x, el) for x in items], r, c, el)
        if r == 1:
            return self.newmat(1, len(items), [self.elem(x, el) for x in items], r, c, el)
        raise Unsupported("matrix from list")

    def ordered(self, m, n):
        if n.startswith(("std::map", "std::set")) and all(isinstance(k, int) for k in m.d):
            items = sorted(m.d.items())
            m.d.clear()
            m.d.update(items)
        return m

    def map_of(self, n, vs, e):
        mt = parse_mat_type(targs_of(n)[0])
        if vs and isinstance(vs[0], Vec):
            vs[0] = ArrPtr(vs[0].c, 0)
        if mt is None or not isinstance(vs[0], ArrPtr):
            raise Unsupported("Map of %s" % (type(vs[0]).__name__ if vs else "nothing"))
        r, c, el = mt
        ints = [self.to_int(x) for x in vs[1:]]
        if len(ints) == 2:
            r, c = ints
        elif len(ints) == 1:
            r, c = (ints[0], 1) if c == 1 else (1, ints[0])
        if r < 0 or c < 0:
            raise Unsupported("Map size")
        a = vs[0]
        if a.off < 0 or a.off + r * c > len(a.cells):
            raise UB("Map of %dx%d elements outside its array of %d" % (r, c, len(a.cells) - a.off), self.L(e))
        if mt[0] == 1 or mt[1] == 1 or r == 1 or c == 1:
            return Mat(r, c, a.cells[a.off:a.off + r * c], mt[0], mt[1], False, el)
        return Mat(r, c, [a.cells[a.off + j * r + i] for i in range(r) for j in range(c)], mt[0], mt[1], False, el)

    def construct_vec(self, n, args, env, this, e):
        elt = n[n.index("<") + 1:-1] if "<" in n else None
        real = [a for a in args if a.get("k") != "defarg" and a.get("rec") != "std::allocator"]
        if not real:
            return Vec([], elt)
        vs = [self.eval(a, env, this) for a in real]
        if isinstance(vs[0], list):
            return Vec([Cell(self.elt_coerce(x, elt)) for x in vs[0]], elt)
        if isinstance(vs[0], Vec):
            return self.copyval(vs[0])
        if isinstance(vs[0], int):
            if len(vs) >= 2 and not isinstance(vs[1], Opaque):
                return Vec([Cell(self.copyval(self.elt_coerce(vs[1], elt)) if not self.is_ptr_type(elt or "") else vs[1]) for _ in range(vs[0])], elt)
            return Vec([Cell(self.default_scalar(elt)) for _ in range(vs[0])], elt)
        if isinstance(vs[0], (Iter, ArrPtr)) and len(vs) >= 2:
            cells = self.span(vs[0], vs[1])
            return Vec([Cell(self.copyval(c.v) if not self.is_ptr_type(elt or "") else c.v) for c in cells], elt)
        raise Unsupported("vector constructor")

    def elt_coerce(self, v, elt):
        if elt == "double" and isinstance(v, int):
            return C(v)
        mt = parse_mat_type(elt or "")
        if mt and isinstance(v, Mat):
            return self.coerce(v, {"n": elt})
        if isinstance(v, list) and elt:
            ts = targs_of(elt)
            if elt.startswith("std::pair<") and len(v) == 2:
                return Obj("std::pair", {"first": Cell(self.elt_coerce(v[0], ts[0])), "second": Cell(self.elt_coerce(v[1], ts[1]))})
            if elt.startswith("std::tuple<"):
                return self.mktuple([self.elt_coerce(x, t) for x, t in zip(v, ts)])
            if elt.startswith("std::vector<"):
                return Vec([Cell(self.elt_coerce(x, ts[0])) for x in v], ts[0])
            if mt:
                return self.mat_from_list(v, mt)
        return v

    def e_initlist(self, e, env, this):
        t = e.get("t", {})
        n = t.get("n", "")
        if n in self.F.rec:
            o = Obj(n)
            fl = self.fields(n)
            args = e.get("args", [])
            for (f, c), a in zip(fl, args):
                if f["t"].get("ref"):
                    o.f[f["name"]] = self.lv(a, env, this)
                    continue
                mark = len(self.temps)
                o.f[f["name"]] = Cell(self.coerce(self.eval(a, env, this), f["t"]))
                self.taken(o.f[f["name"]].v, mark)
            for f, c in fl[len(args):]:
                self.init_field(f, o)
            if self.destructible({"n": n}):
                self.temps.append(o)
            return o
        vs = [self.eval(a, env, this) for a in e.get("args", [])]
        if n.startswith("const "):
            n = n[6:]
        if n.endswith("]"):
            return vs
        if n.startswith("std::pair") and len(vs) == 2 or n.startswith("std::tuple<"):
            return self.elt_coerce(vs, n)
        if len(vs) == 1 and (t.get("int") or t.get("fp") or t.get("bool") or t.get("ptr")):
            return vs[0]
        if not vs and (t.get("int") or t.get("fp") or t.get("bool")):
            return self.e_zeroinit(e, env, this)
        if n.startswith("std::array<"):
            v = vs[0] if len(vs) == 1 and isinstance(vs[0], list) else vs
            return Vec([Cell(x) for x in v], None)
        return vs

    def e_cast(self, e, env, this):
        v = self.eval(e["e"], env, this)
        t = e.get("to", {})
        if t.get("n") == "void":
            return None
        if e.get("style") == "CXXDynamicCastExpr" or e.get("ck") == "Dynamic":
            if v is None:
                return None
            if isinstance(v, Obj):
                pt = t.get("pointee") or t.get("n")
                if pt and pt.startswith("const "):
                    pt = pt[6:]
                return v if pt in self.F.bases(v.cls) else None
        return self.conv(v, t)

    def counting(self, v):
        """a whole number of iterations: counters of merged loops and the iteration limit"""
        return all(c.denominator == 1 for c in v.t.values()) and all(al.CTX.atoms[i].name.split(".")[0] in ("n", "np") or al.CTX.atoms[i].name == "set.max_num_iterations" for i in v.atoms())

    def conv(self, v, t):
        if t.get("fp"):
            return self.to_poly(v)
        if t.get("bool"):
            return self.truth(v)
        if t.get("int") or t.get("enum"):
            if isinstance(v, Poly) and not v.is_const():
                if t.get("int") and self.counting(v):
                    return v
                raise Unsupported("conversion of a real value to an integer")
            if isinstance(v, ArrPtr):
                return v
            return wrap_int(self.to_int(v), t.get("n", "")) if t.get("int") else self.to_int(v)
        return v

    def e_icast(self, e, env, this):
        v = self.eval(e["e"], env, this)
        t = e.get("t", {})
        if e.get("ck") == "IntegralCast" and isinstance(v, int):
            return wrap_int(int(v), t.get("n", ""))
        return self.conv(v, t)

    def e_unary(self, e, env, this):
        op = e["op"]
        if op in ("++", "--"):
            c = self.lv(e["e"], env, this)
            old = self.load(c, e["e"])
            d = 1 if op == "++" else -1
            if isinstance(old, Iter):
                c.v = self.iter_add(old, d)
            elif isinstance(old, ArrPtr):
                c.v = ArrPtr(old.cells, old.off + d)
            elif isinstance(old, int):
                c.v = old + d
            else:
                c.v = self.to_poly(old) + C(d)
            return old if e.get("post") else c.v
        if op == "&":
            sub = e["e"]
            if sub["k"] == "ref" and sub.get("dk") != "fn" or sub["k"] == "member" and sub.get("field"):
                # taking an address reads nothing
                c = self.lv(sub, env, this)
                if c.v is None:
                    return ArrPtr([c], 0)
            v = self.eval(sub, env, this) if sub["k"] in ("ref", "member", "opcall", "mcall", "call", "unary", "this") else None
            if isinstance(v, (Obj, Mat, Vec, Map)):
                return v
            if isinstance(v, Opaque) and v.tag == "fn":
                return v
            if sub["k"] == "index":
                a = self.eval(sub["a"], env, this)
                if isinstance(a, ArrPtr):
                    return ArrPtr(a.cells, a.off + self.to_int(self.eval(sub["b"], env, this)))
            c = self.lv(sub, env, this)
            if sub["k"] in ("opcall", "mcall"):
                # element of a contiguous container
                o = sub["args"][0] if sub["k"] == "opcall" else sub.get("obj")
                b = self.eval(o, env, this) if o is not None and o["k"] in ("ref", "member") else None
                cs = b.c if isinstance(b, Vec) else b.cells if isinstance(b, Mat) and b.cols == 1 else []
                for i, x in enumerate(cs):
                    if x is c:
                        return ArrPtr(cs, i)
            return ArrPtr([c], 0)
        if op == "*":
            p = self.eval(e["e"], env, this)
            if isinstance(p, (Mat, Vec, Map)):
                return p
            return self.deref(p, e).v
        v = self.eval(e["e"], env, this)
        if op == "-":
            if isinstance(v, Mat):
                return self.mapm(v, lambda x: -x)
            return -v if is_num(v) else self._un(op)
        if op == "+":
            return v
        if op == "!":
            return not self.truth(v)
        if op == "~":
            return ~self.to_int(v)
        return self._un(op)

    def _un(self, op):
        raise Unsupported("operator " + op)

    def iter_add(self, it, d):
        if isinstance(it.cont, Map):
            ks = list(it.cont.d)
            if it.i is None:
                raise Unsupported("increment of end")
            if it.i not in it.cont.d:
                raise Unsupported("increment of an invalid iterator")
            k = ks.index(it.i) + d
            return Iter(it.cont, ks[k] if k < len(ks) else None)
        return Iter(it.cont, it.i + d, it.rev)

    def e_binary(self, e, env, this):
        op = e["op"]
        if op == "&&":
            return self.truth(self.eval(e["a"], env, this)) and self.truth(self.eval(e["b"], env, this))
        if op == "||":
            return self.truth(self.eval(e["a"], env, this)) or self.truth(self.eval(e["b"], env, this))
        if op == ",":
            self.eval(e["a"], env, this)
            return self.eval(e["b"], env, this)
        a = self.eval(e["a"], env, this)
        b = self.eval(e["b"], env, this)
        return self.binop(op, a, b, e)

    def binop(self, op, a, b, e):
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b, e)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, ArrPtr) and isinstance(b, int):
            return ArrPtr(a.cells, a.off + (b if op == "+" else -b))
        if isinstance(a, ArrPtr) and isinstance(b, ArrPtr) and op == "-":
            return a.off - b.off
        if isinstance(a, int) and isinstance(b, int):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op in ("/", "%"):
                if b == 0:
                    raise UB("integer division by zero", self.L(e))
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == "/" else a - q * b
            if op in ("<<", ">>", "&", "|", "^"):
                return {"<<": a << b, ">>": a >> b, "&": a & b, "|": a | b, "^": a ^ b}[op]
        if is_num(a) and is_num(b):
            a, b = self.to_poly(a), self.to_poly(b)
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return self.fdiv(a, b, e)
        raise Unsupported("operator %s on %s and %s" % (op, type(a).__name__, type(b).__name__))

    def fdiv(self, a, b, e=None, safe=False):
        if self.div_cb and not safe:
            self.div_cb(self, b, e)
        r = al.div(a, b)
        if r is None:
            return al.sym("inf", kind="nonfinite")
        return r

    def e_cond(self, e, env, this):
        return self.eval(e["a"] if self.truth(self.eval(e["c"], env, this)) else e["b"], env, this)

    def e_assign(self, e, env, this):
        v = self.eval(e["b"], env, this)
        self.loc = self.L(e)
        c = self.lv(e["a"], env, this)
        t = e["a"].get("t", {})
        c.v = self.coerce(v, t) if not isinstance(v, Mat) else v
        self.note_write(c, e)
        return c.v

    def note_write(self, c, e):
        pass

    def e_cassign(self, e, env, this):
        v = self.eval(e["b"], env, this)
        c = self.lv(e["a"], env, this)
        old = self.load(c, e["a"])
        self.loc = self.L(e)
        r = self.binop(e["op"][:-1], old, v, e)
        t = e["a"].get("t", {})
        c.v = self.conv(r, t) if (t.get("fp") or t.get("int")) and not isinstance(r, ArrPtr) else r
        return c.v

    def e_index(self, e, env, this):
        a = self.eval(e["a"], env, this)
        i = self.to_int(self.eval(e["b"], env, this))
        return self.load(self.arr(a, i, e), e)

    def e_throw(self, e, env, this):
        n = e.get("e", {}).get("t", {}).get("n", "")
        n = n[6:] if n.startswith("const ") else n
        raise Throw(Opaque("exception:" + n) if n in self.EXC else Opaque("exception"), self.L(e))

    def e_new(self, e, env, this):
        if "e" in e:
            v = self.eval(e["e"], env, this)
            if isinstance(v, Obj) and self.destructible({"n": v.cls}):
                raise Unsupported("dynamic object with a destructor: " + v.cls)
            return v
        if self.destructible({"n": e["nt"]["n"]}):
            raise Unsupported("dynamic object with a destructor: " + e["nt"]["n"])
        return self.default_n(e["nt"]["n"], {})

    def e_delete(self, e, env, this):
        return None

    def e_lambda(self, e, env, this):
        cap = {}
        outer = None
        for c in e.get("caps", []):
            if "init" in c:
                v = self.eval(c["init"], env, this)
                if c.get("t", {}).get("ref"):
                    cap[c["id"]] = self.lv(c["init"], env, this)
                else:
                    cap[c["id"]] = Cell(self.coerce(v if c.get("t", {}).get("ptr") else self.copyval(v), c.get("t", {})))
                continue
            if "id" in c and c["id"] not in env and c.get("byref"):
                outer = env             # declared in the statement that makes the lambda
            if "id" in c and c["id"] in env:
                cap[c["id"]] = env[c["id"]] if c.get("byref") else Cell(self.copyval(env[c["id"]].v) if not isinstance(env[c["id"]].v, Obj) else env[c["id"]].v)
        lam = Lambda(e, cap, this, self.curfn)
        lam.outer = outer
        return lam

    def call_lambda(self, lam, cells):
        n = lam.node
        env = dict(lam.env)
        if lam.outer is not None:
            for c in n.get("caps", []):
                if "id" in c and c["id"] not in env and c["id"] in lam.outer:
                    env[c["id"]] = lam.outer[c["id"]]
        for p, a in zip(n["params"], cells):
            if p["t"].get("ref") or p["t"].get("rref"):
                env[p["id"]] = a
            else:
                env[p["id"]] = Cell(self.coerce(a.v, p["t"]))
        saved = self.curfn
        self.curfn = dict(lam.fn or {}, ret=n.get("ret", {}))
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth")
        self.frames.append((n, env))
        try:
            self.exec(n["body"], env, lam.this)
            return None, None
        except _Return as r:
            if r.cell is None:
                return self.coerce(r.v, n.get("ret", {})), None
            return r.v, r.cell
        finally:
            self.curfn = saved
            self.depth -= 1
            self.frames.pop()

    def e_unknown(self, e, env, this):
        raise Unsupported("expression class " + e.get("cls", "?"))

    def e_opcall(self, e, env, this):
        r = self.opcall(e, env, this)
        if isinstance(r, Cell):
            return self.load(r, e)
        return r

    def e_mcall(self, e, env, this):
        r = self.do_call(e, env, this)
        return r

    def e_call(self, e, env, this):
        return self.do_call(e, env, this)

    # ------------------------------------------------------------------------------------------------ operators
    def is_stream(self, e):
        t = e.get("t", {}).get("n", "")
        return "basic_ostream" in t or "basic_istream" in t or "stringstream" in t or "ostringstream" in t

    def opcall(self, e, env, this, want_cell=False):
        op = e["op"]
        args = e["args"]
        callee = e.get("callee") or {}
        self.loc = self.L(e)
        if op in ("<<", ">>") and (self.is_stream(args[0]) or self.is_stream(e)):
            return Opaque("stream")
        if callee.get("id") and callee["id"] in self.F.fn:
            f = self.F.fn[callee["id"]]
            if f.get("rec") and not f.get("static"):
                o = self.eval(args[0], env, this)
                if not f.get("implicit") and not f.get("defaulted"):
                    v, c = self.call(f, o, [self.argcell(a, env, this) for a in args[1:]], e)
                    return c if (want_cell and c) else v
                if op == "=":
                    src = self.copyval(self.eval(args[1], env, this))
                    for k, c in src.f.items():
                        if k in o.f and isinstance(o.f[k].v, Mat) and isinstance(c.v, Mat):
                            self.assign(o.f[k].v, c.v)
                        else:
                            o.f[k] = c if k not in o.f else o.f[k]
                            o.f[k].v = c.v
                    return o
            else:
                v, c = self.call(f, None, [self.argcell(a, env, this) for a in args], e)
                return c if (want_cell and c) else v
        if op == "=":
            rhs = self.eval(args[1], env, this)
            lhs = self.eval_lazy(args[0], env, this)
            if isinstance(lhs, Mat):
                if isinstance(rhs, Mat):
                    self.assign(lhs, rhs)
                    return lhs
                if isinstance(rhs, list):
                    self.assign(lhs, self.mat_from_list(rhs, (lhs.fr, lhs.fc, lhs.elt)))
                    return lhs
                if is_num(rhs):
                    # array = scalar
                    for c in lhs.cells:
                        c.v = self.elem(rhs, lhs.elt)
                    return lhs
                if isinstance(rhs, Opaque) and rhs.tag == "angleaxis":
                    self.assign(lhs, self.aa_matrix(rhs))
                    return lhs
                if isinstance(rhs, Sparse):
                    self.assign(lhs, self.newmat(rhs.rows, rhs.cols, [rhs.d[(i, j)].v if (i, j) in rhs.d else ZERO for i in range(rhs.rows) for j in range(rhs.cols)]))
                    return lhs
                raise Unsupported("assignment of %s to a matrix" % type(rhs).__name__)
            c = self.lv(args[0], env, this)
            if isinstance(c.v, Obj) and c.v.tag == "tie":
                vals = [x.v for x in rhs.f.values()] if self.is_tuple(rhs) else None
                if vals is None or len(vals) != len(c.v.f):
                    raise Unsupported("assignment to tie")
                for x, v in zip(c.v.f.values(), vals):
                    if isinstance(x.v, Mat) and isinstance(v, Mat):
                        self.assign(x.v, v)
                    else:
                        x.v = v
                return c if want_cell else c.v
            if isinstance(c.v, Obj) and c.v.cls == "back_inserter":
                v = c.v.f["c"].v
                v.c.append(Cell(self.elt_coerce(rhs if self.is_ptr_type(v.elt or "") else self.copyval(rhs), v.elt)))
                return c if want_cell else c.v
            if self.is_opt(c.v) and not isinstance(rhs, list):
                src = rhs if self.is_opt(rhs) else self.opt() if self.is_nullopt(rhs) else self.opt(rhs, True)
                src = self.copyval(src)
                c.v.f["has"].v, c.v.f["v"].v = src.f["has"].v, src.f["v"].v
                return c if want_cell else c.v
            if isinstance(rhs, list):
                if isinstance(c.v, Vec):
                    rhs = Vec([Cell(self.elt_coerce(x, c.v.elt)) for x in rhs], c.v.elt)
                elif len(rhs) == 0:
                    rhs = self.default(args[0].get("t", {}))
            isp = args[0].get("t", {}).get("ptr") or self.is_ptr_type(args[0].get("t", {}).get("n", ""))
            if isinstance(rhs, (Vec, Map, Sparse)) and isinstance(c.v, type(rhs)):
                src = self.copyval(rhs)
                if isinstance(rhs, Vec):
                    c.v.c[:] = src.c
                elif isinstance(rhs, Map):
                    c.v.d.clear()
                    c.v.d.update(src.d)
                else:
                    c.v.rows, c.v.cols, c.v.d, c.v.cap = src.rows, src.cols, src.d, None
                return c if want_cell else c.v
            c.v = rhs if (isp or not isinstance(rhs, Obj)) else self.copyval(rhs)
            return c if want_cell else c.v
        if op == "()":
            f0 = args[0]
            o = self.eval(f0, env, this)
            if isinstance(o, Lambda):
                v, c = self.call_lambda(o, [self.argcell(a, env, this) for a in args[1:]])
                return c if (want_cell and c) else v
            if isinstance(o, Opaque) and o.tag == "fn":
                return self.call_callee(o.data, [self.argcell(a, env, this) for a in args[1:]], e)
            if isinstance(o, Mat):
                return self.coeff(o, [self.to_int(self.eval(a, env, this)) for a in args[1:]], e)
            if isinstance(o, Opaque) and o.tag.startswith("std::"):
                return self.apply(o, [self.argcell(a, env, this) for a in args[1:]], e)
            raise Unsupported("operator() on %s" % type(o).__name__)
        if op == "[]":
            o = self.eval(args[0], env, this)
            i = self.eval(args[1], env, this)
            if isinstance(o, Mat):
                return self.coeff(o, [self.to_int(i)], e)
            if isinstance(o, Vec):
                i = self.to_int(i)
                if i < 0 or i >= len(o.c):
                    raise UB("vector index %d out of range (size %d)" % (i, len(o.c)), self.L(e))
                return o.c[i]
            if isinstance(o, Map):
                if i not in o.d:
                    o.d[i] = Cell(self.default_scalar(o.elt))
                return o.d[i]
            if isinstance(o, ArrPtr):
                return self.arr(o, self.to_int(i), e)
            if isinstance(o, Opaque):
                return Str(None) if "names" in o.tag else Opaque(o.tag + "[]")
            if isinstance(o, Str):
                return 0
            raise Unsupported("operator[] on %s" % type(o).__name__)
        if op == "->":
            o = self.eval(args[0], env, this)
            if isinstance(o, Iter):
                return self.iter_cell(o, e)
            if o is None:
                raise UB("null pointer dereference", self.L(e))
            if self.is_opt(o):
                if not self.opt_has(o):
                    raise UB("value of an empty optional", self.L(e))
                return o.f["v"]
            return o
        if op == "*" and len(args) == 1:
            o = self.eval(args[0], env, this)
            return self.deref(o, e)
        if op in ("++", "--"):
            c = self.lv(args[0], env, this)
            old = c.v
            if isinstance(old, Iter):
                c.v = self.iter_add(old, 1 if op == "++" else -1)
                return old if len(args) == 2 else c
            if isinstance(old, Obj) and old.cls == "InnerIterator":
                old.f["k"].v += 1
                return c
            if isinstance(old, Obj) and old.cls == "back_inserter":
                return c
            raise Unsupported("++ on %s" % type(old).__name__)
        if op == "<<":
            o = self.eval_lazy(args[0], env, this)
            v = self.eval(args[1], env, this)
            if isinstance(o, Mat):
                cm = Comma(o)
                self.comma(cm, v, e)
                return cm
            raise Unsupported("operator<<")
        if op == ",":
            o = self.eval(args[0], env, this)
            v = self.eval(args[1], env, this)
            if isinstance(o, Comma):
                self.comma(o, v, e)
                return o
            return v
        a = self.eval_lazy(args[0], env, this) if op.endswith("=") and op not in ("==", "!=", "<=", ">=") else self.eval(args[0], env, this)
        if len(args) == 1:
            if op == "-":
                if isinstance(a, Mat):
                    return self.mapm(a, lambda x: -x)
                if isinstance(a, Opaque) or isinstance(a, Sparse):
                    return self.lib_op("neg", [a], e)
                return -self.to_poly(a)
            if op == "!":
                return not self.truth(a)
            if op == "+":
                return a
            raise Unsupported("operator " + op)
        b = self.eval(args[1], env, this)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isinstance(a, Mat) and isinstance(b, Mat):
                if op in ("==", "!=") and "Array" not in ((e.get("callee") or {}).get("q", "") + e.get("t", {}).get("n", "")):
                    r = (a.rows, a.cols) == (b.rows, b.cols) and all(al.is_zero(x - y) is True for x, y in zip(self.mpolys(a), self.mpolys(b)))
                    return r if op == "==" else not r
            if isinstance(a, Mat) or isinstance(b, Mat):
                m = a if isinstance(a, Mat) else b
                va = self.mvals(a) if isinstance(a, Mat) else [a] * m.size
                vb = self.mvals(b) if isinstance(b, Mat) else [b] * m.size
                if len(va) != len(vb):
                    raise UB("comparison of arrays of different sizes", self.L(e))
                return self.newmat(m.rows, m.cols, [self.compare(op, x, y, e) for x, y in zip(va, vb)], m.fr, m.fc, "b")
            if self.is_tuple(a) and self.is_tuple(b) and op in ("<", ">", "<=", ">="):
                return self.less_v(a, b) if op == "<" else self.less_v(b, a) if op == ">" else not self.less_v(b, a) if op == "<=" else not self.less_v(a, b)
            if isinstance(a, Iter) and isinstance(b, Iter) and op in ("<", ">", "<=", ">=") and not isinstance(a.cont, Map):
                return self.compare(op, a.i, b.i, e)
            return self.compare(op, a, b, e)
        if isinstance(a, Str) or isinstance(b, Str):
            if isinstance(b, int) and not isinstance(b, bool) and 0 < b < 128:
                b = Str(chr(b))
            if isinstance(a, int) and not isinstance(a, bool) and 0 < a < 128:
                a = Str(chr(a))
            if op == "+=":
                c = self.lv(args[0], env, this)
                c.v = Str(a.s + b.s if isinstance(a, Str) and isinstance(b, Str) and a.s is not None and b.s is not None else None)
                return c
            return Str(a.s + b.s if isinstance(a, Str) and isinstance(b, Str) and a.s is not None and b.s is not None else None)
        if isinstance(a, (Iter,)) and isinstance(b, (int, Iter)):
            if isinstance(b, Iter):
                return (a.i if a.i is not None else len(a.cont.c)) - b.i
            if op in ("+=", "-="):
                c = self.lv(args[0], env, this)
                c.v = self.iter_add(a, b if op == "+=" else -b)
                return c
            return self.iter_add(a, b if op == "+" else -b)
        if isinstance(a, Opaque) and a.tag == "vectorwise" and op in ("+", "-", "+=", "-=") and isinstance(b, Mat):
            return self.broadcast(op, a.data[0], a.data[1], b, e)
        if isinstance(a, (Opaque, Sparse)) or isinstance(b, (Opaque, Sparse)):
            return self.lib_op(op, [a, b], e)
        if op in ("+=", "-=", "*=", "/=") and isinstance(a, Mat):
            r = self.matop(op[0], a, b, e)
            self.assign(a, r)
            return a
        if op in ("+=", "-=", "*=", "/="):
            c = self.lv(args[0], env, this)
            c.v = self.binop(op[0], c.v, b, e)
            return c
        return self.matop(op, a, b, e)

    def broadcast(self, op, way, m, v, e):
        n = m.rows if way == "colwise" else m.cols
        if v.size != n:
            raise UB("%s of a vector of length %d to the %s of a %dx%d matrix" % (op, v.size, way, m.rows, m.cols), self.L(e))
        vv, mv = self.mpolys(v), self.mpolys(m)
        r = self.newmat(m.rows, m.cols, [mv[i * m.cols + j] + (vv[i if way == "colwise" else j] if op[0] == "+" else -vv[i if way == "colwise" else j])
                                         for i in range(m.rows) for j in range(m.cols)])
        if op.endswith("="):
            self.assign(m, r)
            return m
        return r

    def sparse_op(self, op, args, e):
        a = args[0]
        if op == "neg":
            return a.map(lambda x: -x)
        b = args[1]
        core = op[0] if op in ("+=", "-=", "*=", "/=") else op
        r = None
        if core == "*":
            if isinstance(a, Sparse) and isinstance(b, Sparse):
                if a.cols != b.rows:
                    raise UB("product of %dx%d and %dx%d" % (a.rows, a.cols, b.rows, b.cols), self.L(e))
                r = Sparse(a.rows, b.cols)
                byrow = {}
                for (k, j), c in b.d.items():
                    byrow.setdefault(k, []).append((j, c.v))
                for (i, k), c in a.d.items():
                    for j, v in byrow.get(k, ()):
                        x = self.to_poly(c.v) * self.to_poly(v)
                        if (i, j) in r.d:
                            r.d[(i, j)].v = r.d[(i, j)].v + x
                        else:
                            r.d[(i, j)] = Cell(x)
            elif isinstance(a, Sparse) and isinstance(b, Mat) or isinstance(a, Mat) and isinstance(b, Sparse):
                r = self.matop("*", self.densify(a), self.densify(b), e)
            elif is_num(a) or is_num(b):
                x, y = (a, b) if is_num(b) else (b, a)
                y = self.to_poly(y)
                r = x.map(lambda v: self.to_poly(v) * y)
        elif core == "/" and is_num(b):
            b = self.to_poly(b)
            r = a.map(lambda v: self.fdiv(self.to_poly(v), b, e))
        elif core in ("+", "-"):
            if isinstance(a, Sparse) and isinstance(b, Sparse):
                if (a.rows, a.cols) != (b.rows, b.cols):
                    raise UB("%s of %dx%d and %dx%d" % (core, a.rows, a.cols, b.rows, b.cols), self.L(e))
                r = a.map(lambda v: v)
                for k, c in b.d.items():
                    v = self.to_poly(c.v) if core == "+" else -self.to_poly(c.v)
                    if k in r.d:
                        r.d[k].v = self.to_poly(r.d[k].v) + v
                    else:
                        r.d[k] = Cell(v)
            elif isinstance(a, Mat) or isinstance(b, Mat):
                r = self.matop(core, self.densify(a), self.densify(b), e)
        if r is None:
            return Opaque("lib:" + op, args)
        if core != op:
            if isinstance(a, Sparse) and isinstance(r, Sparse):
                a.rows, a.cols, a.d, a.cap = r.rows, r.cols, r.d, None
                return a
            if isinstance(a, Mat):
                self.assign(a, self.densify(r))
                return a
            raise Unsupported("operator " + op)
        return r

    def densify(self, a):
        if isinstance(a, Sparse):
            return self.newmat(a.rows, a.cols, [a.d[(i, j)].v if (i, j) in a.d else ZERO for i in range(a.rows) for j in range(a.cols)])
        return a

    def lib_op(self, op, args, e):
        if any(isinstance(a, Sparse) for a in args) and all(isinstance(a, (Sparse, Mat)) or is_num(a) for a in args):
            return self.sparse_op(op, args, e)
        if any(isinstance(a, Opaque) and a.tag in ("chrono", "std::chrono") for a in args):
            return Opaque("chrono")
        for a in args:
            if isinstance(a, Opaque) and a.tag == "angleaxis":
                ms = [self.aa_matrix(x) if isinstance(x, Opaque) and x.tag == "angleaxis" else x for x in args]
                if op == "*" and all(isinstance(x, Mat) for x in ms):
                    r = self.matop("*", ms[0], ms[1], e)
                    if r.rows == 3 and r.cols == 3 and all(isinstance(x, Opaque) for x in args):
                        return Opaque("angleaxis", ("word", self.find_word(self.mpolys(r))))
                    return r
        return Opaque("lib:" + op, args)

    def eval_lazy(self, a, env, this):
        """operand that is about to be written: do not force a read"""
        if a["k"] in ("ref", "member") and a.get("t", {}).get("n", "").startswith(("Eigen::", "const Eigen::")) or a["k"] == "opcall":
            return self.lv(a, env, this).v
        return self.eval(a, env, this) if a["k"] not in ("ref", "member") else self.lv(a, env, this).v

    def coeff(self, m, idx, e):
        if len(idx) == 2:
            i, j = idx
            if not (0 <= i < m.rows and 0 <= j < m.cols):
                raise UB("matrix index (%d,%d) out of range %dx%d" % (i, j, m.rows, m.cols), self.L(e))
            c = m.at(i, j)
        else:
            k = idx[0]
            if m.cols != 1 and m.rows != 1:
                # column-major linear index
                if not (0 <= k < m.size):
                    raise UB("matrix index %d out of range %dx%d" % (k, m.rows, m.cols), self.L(e))
                c = m.at(k % m.rows, k // m.rows)
            else:
                if not (0 <= k < m.size):
                    raise UB("vector index %d out of range (size %d)" % (k, m.size), self.L(e))
                c = m.cells[k]
        return c

    def comma(self, cm, v, e):
        m = cm.m
        if isinstance(v, Mat):
            r, c = v.rows, v.cols
        else:
            r = c = 1
        if cm.c == m.cols and not (cm.r == 0 and cm.c == 0):
            cm.r += cm.br
            cm.c = 0
            cm.br = r
        if cm.c == 0 and cm.r == 0:
            cm.br = r
        if cm.r + r > m.rows or cm.c + c > m.cols:
            raise UB("comma initialiser does not fit a %dx%d matrix" % (m.rows, m.cols), self.L(e))
        if isinstance(v, Mat):
            vals = self.mvals(v)
            for i in range(r):
                for j in range(c):
                    m.at(cm.r + i, cm.c + j).v = vals[i * c + j]
        else:
            m.at(cm.r, cm.c).v = self.elem(v, m.elt)
        cm.c += c

    def assign(self, dst, src, e=None):
        vals = self.mvals(src) if src.elt == "d" else [c.v for c in src.cells]
        r, c = src.rows, src.cols
        if (dst.rows, dst.cols) != (r, c):
            if dst.owner and not dst.isref:
                nr = r
                nc = c
                # vectors: a row expression assigned to a column vector of the same length is transposed by Eigen
                if dst.fc == 1 and c != 1 and r == 1:
                    nr, nc = c, 1
                elif dst.fr == 1 and r != 1 and c == 1:
                    nr, nc = 1, r
                if (dst.fr >= 0 and dst.fr != nr) or (dst.fc >= 0 and dst.fc != nc):
                    raise UB("assignment of a %dx%d expression to a %dx%d matrix" % (r, c, dst.rows, dst.cols), self.loc)
                dst.rows, dst.cols = nr, nc
                dst.cells = [Cell(v) for v in vals]
                return
            if dst.size == r * c and (1 in (dst.rows, dst.cols)) and (1 in (r, c)):
                pass
            else:
                raise UB("assignment of a %dx%d expression to a %dx%d block" % (r, c, dst.rows, dst.cols), self.loc)
        for cell, v in zip(dst.cells, vals):
            cell.v = v

    def mapm(self, m, f):
        return self.newmat(m.rows, m.cols, [f(x) for x in self.mvals(m)], m.fr, m.fc, m.elt)

    def matop(self, op, a, b, e):
        if isinstance(a, Mat) and isinstance(b, Mat):
            if op in ("+", "-"):
                if (a.rows, a.cols) != (b.rows, b.cols):
                    raise UB("%s of %dx%d and %dx%d" % (op, a.rows, a.cols, b.rows, b.cols), self.L(e))
                va, vb = self.mvals(a), self.mvals(b)
                return self.newmat(a.rows, a.cols, [x + y if op == "+" else x - y for x, y in zip(va, vb)])
            if op == "*":
                if getattr(a, "elt", "") == "arr":
                    raise Unsupported("array product")
                t = (e.get("callee") or {}).get("q", "") + (e.get("callee") or {}).get("rec", "")
                if "ArrayBase" in t:
                    return self.newmat(a.rows, a.cols, [x * y for x, y in zip(self.mpolys(a), self.mpolys(b))])
                if a.cols != b.rows:
                    raise UB("product of %dx%d and %dx%d" % (a.rows, a.cols, b.rows, b.cols), self.L(e))
                return self.matmul(a, b)
            if op == "/":
                return self.newmat(a.rows, a.cols, [self.fdiv(x, y, e) for x, y in zip(self.mpolys(a), self.mpolys(b))])
        if isinstance(a, Mat) and is_num(b):
            b = self.to_poly(b)
            if op == "*":
                return self.mapm(a, lambda x: self.to_poly(x) * b)
            if op == "/":
                return self.mapm(a, lambda x: self.fdiv(self.to_poly(x), b, e))
            if op == "+":
                return self.mapm(a, lambda x: self.to_poly(x) + b)
            if op == "-":
                return self.mapm(a, lambda x: self.to_poly(x) - b)
        if isinstance(b, Mat) and is_num(a):
            a = self.to_poly(a)
            if op == "*":
                return self.mapm(b, lambda x: a * self.to_poly(x))
            if op == "+":
                return self.mapm(b, lambda x: a + self.to_poly(x))
            if op == "-":
                return self.mapm(b, lambda x: a - self.to_poly(x))
            if op == "/":
                return self.mapm(b, lambda x: self.fdiv(a, self.to_poly(x), e))
        if is_num(a) and is_num(b):
            return self.binop(op, a, b, e)
        if isinstance(a, Comma):
            return self.matop(op, a.m, b, e)
        raise Unsupported("operator %s on %s and %s" % (op, type(a).__name__, type(b).__name__))

    def matmul(self, a, b):
        va, vb = self.mpolys(a), self.mpolys(b)
        if a.rows == a.cols == b.cols == 3:
            wa, wb = al.word_of(va), al.word_of(vb)
            if wa is not None and wb is not None and len(wa) + len(wb) <= 5:
                w = al.wreduce(wa + wb)
                return self.newmat(3, 3, al.word_entries(w), 3, 3)
        out = []
        for i in range(a.rows):
            for j in range(b.cols):
                s = ZERO
                for k in range(a.cols):
                    s = s + va[i * a.cols + k] * vb[k * b.cols + j]
                out.append(s)
        return self.newmat(a.rows, b.cols, out)

    # ------------------------------------------------------------------------------------------------ calls
    def do_call(self, e, env, this, want_cell=False):
        callee = e.get("callee") or {}
        self.loc = self.L(e)
        if e["k"] == "call" and "fn" in e:
            o = self.eval(e["fn"], env, this)
            cells = [self.argcell(a, env, this) for a in e["args"]]
            if isinstance(o, Lambda):
                v, c = self.call_lambda(o, cells)
                return c if (want_cell and c) else v
            if isinstance(o, Opaque) and o.tag == "fn":
                return self.call_callee(o.data, cells, e)
            raise Unsupported("indirect call")
        f = self.F.fn.get(callee.get("id")) if callee.get("id") else None
        if e["k"] == "mcall":
            objn = e.get("obj")
            if f is not None and not f.get("static"):
                o = self.eval(objn, env, this) if objn is not None else this
                if o is None:
                    raise UB("null pointer dereference (call of %s)" % e.get("name"), self.L(e))
                if isinstance(o, Opaque):
                    return self.lib_method(o, e.get("name"), e, env, this, want_cell)
                if not isinstance(o, Obj):
                    raise Unsupported("method of %s" % type(o).__name__)
                if callee.get("virt") and not e.get("qual"):
                    g = self.F.resolve_virtual(o.cls, f)
                    if g is None:
                        hk = self.hooks.get(f["q"]) or self.hooks.get("*::" + f["name"])
                        if hk:
                            g = f
                        else:
                            raise Unsupported("no override of %s in %s" % (f["q"], o.cls))
                    f = g
                hk = self.hooks.get("*::" + f["name"])
                cells = [self.argcell(a, env, this) for a in e["args"]]
                if hk:
                    r = hk(self, o, cells, e)
                    if isinstance(r, Cell):
                        return r if want_cell else self.load(r, e)
                    if r is not NotImplemented:
                        return r
                v, c = self.call(f, o, cells, e)
                if c is not None and want_cell:
                    return c
                if c is not None:
                    return self.load(c, e)
                return v
            return self.lib_method(None, e.get("name"), e, env, this, want_cell)
        if f is not None:
            cells = [self.argcell(a, env, this) for a in e["args"]]
            v, c = self.call(f, None if f.get("static") or not f.get("rec") else this, cells, e)
            return c if (want_cell and c is not None) else v
        return self.lib_call(e, env, this, want_cell)

    def call_callee(self, callee, cells, e):
        f = self.F.fn.get(callee.get("id"))
        if f is None:
            raise Unsupported("call of " + callee.get("q", "?"))
        v, c = self.call(f, None, cells, e)
        return v

    def abs(self, p):
        p = self.to_poly(p)
        if p.is_const():
            return C(abs(p.cval()))
        return p if self.sign(p) >= 0 else -p

    # --- free library functions
    def lib_call(self, e, env, this, want_cell=False):
        name = e.get("name", "")
        q = (e.get("callee") or {}).get("q", "")
        args = e["args"]
        hk = self.hooks.get("lib:" + name)
        if hk:
            r = hk(self, this, e, env)
            if r is not NotImplemented:
                return r
        if name in ("Zero", "Ones", "Constant", "Identity", "UnitX", "UnitY", "UnitZ", "UnitW", "Unit", "Random", "LinSpaced") and "Eigen" in q:
            return self.nullary(name, q, [self.eval(a, env, this) for a in args], e)
        if name in ("move", "forward", "as_const", "ref", "cref", "addressof"):
            return self.lv(args[0], env, this) if want_cell else self.eval(args[0], env, this)
        if name == "make_shared" or name == "make_unique":
            cls = (e.get("callee") or {}).get("targs", ["?"])[0]
            cells = [self.argcell(a, env, this) for a in args]
            if cls in self.F.rec:
                if len(cells) == 1 and isinstance(cells[0].v, Obj) and args[0].get("k") != "ref" and cells[0].v.cls == cls and not args[0].get("t", {}).get("ptr"):
                    return self.copyobj(cells[0].v)
                if len(cells) == 1 and isinstance(cells[0].v, Obj) and cells[0].v.cls == cls and not args[0].get("t", {}).get("ptr"):
                    return self.copyobj(cells[0].v)
                if self.destructible({"n": cls}):
                    raise Unsupported("dynamic object with a destructor: " + cls)
                return self.construct(cls, cells, None)
            mt = parse_mat_type(cls)
            if mt:
                return self.construct_mat(mt, args, env, this, e)
            if cls.startswith("std::vector<"):
                return self.construct_vec(cls, args, env, this, e)
            if cls in ("double", "float", "int", "bool", "long", "unsigned long", "unsigned int"):
                return ArrPtr([Cell(self.conv(cells[0].v, elem_type(cls)) if cells else self.default_scalar(cls))], 0)
            raise Unsupported("make_shared of " + str(cls))
        if name in ("static_pointer_cast", "const_pointer_cast"):
            return self.eval(args[0], env, this)
        if name == "dynamic_pointer_cast":
            v = self.eval(args[0], env, this)
            cls = (e.get("callee") or {}).get("targs", ["?"])[0]
            return v if v is not None and cls in self.F.bases(v.cls) else None
        if name in ("max", "min") and "numeric_limits" in q:
            return 2147483647 if "<int>" in q else (C(Fr(10) ** 308) if name == "max" else C(Fr(1, 10 ** 308)))
        if name in ("quiet_NaN", "signaling_NaN", "infinity"):
            t = al.CTX.__dict__.setdefault("nonfinite", {})
            if name not in t:
                t[name] = al.sym(name, kind="nonfinite")
            return t[name]
        if name in ("epsilon", "lowest") and "numeric_limits" in q:
            return C(Fr(1, 2 ** 52)) if name == "epsilon" else C(-(Fr(10) ** 308))
        if name in ("to_string",):
            v = self.eval(args[0], env, this)
            return Str(str(v) if isinstance(v, int) and not isinstance(v, bool) else None)
        if name in ("now", "duration_cast", "time_point_cast", "seconds", "milliseconds"):
            return Opaque("chrono")
        if name == "make_pair":
            vs = [self.eval(a, env, this) for a in args]
            return Obj("std::pair", {"first": Cell(vs[0]), "second": Cell(vs[1])})
        if name in ("begin", "end", "cbegin", "cend"):
            o = self.eval(args[0], env, this)
            if isinstance(o, Mat):
                o = Vec(list(o.cells))
            if isinstance(o, list):
                o = Vec([Cell(x) for x in o])
            if isinstance(o, Map):
                return Iter(o, (next(iter(o.d)) if o.d else None) if "begin" in name else None)
            if not isinstance(o, Vec):
                raise Unsupported("%s of %s" % (name, type(o).__name__))
            return Iter(o, 0 if "begin" in name else len(o.c))
        if name in ("rbegin", "rend", "crbegin", "crend") and len(args) == 1:
            o = self.eval(args[0], env, this)
            if not isinstance(o, Vec):
                raise Unsupported("%s of %s" % (name, type(o).__name__))
            return Iter(o, 0 if "begin" in name else len(o.c), True)
        if name in ("size", "ssize", "empty", "data") and len(args) == 1:
            o = self.eval(args[0], env, this)
            if isinstance(o, Vec):
                return ArrPtr(o.c, 0) if name == "data" else not o.c if name == "empty" else len(o.c)
            if isinstance(o, Map):
                return not o.d if name == "empty" else len(o.d)
        if name == "exchange":
            c = self.lv(args[0], env, this)
            old, v = c.v, self.eval(args[1], env, this)
            if isinstance(old, (Mat, Vec, Map, Sparse)):
                raise Unsupported("exchange of a container")
            c.v = self.coerce(v, args[0].get("t", {}))
            return old
        if name == "tie":
            return Obj("std::tuple", {str(i): self.lv(a, env, this) for i, a in enumerate(args)}, tag="tie")
        if name == "make_tuple" or name == "forward_as_tuple":
            return self.mktuple([v if a.get("t", {}).get("ptr") or self.is_ptr_type(a.get("t", {}).get("n", "")) else self.copyval(v)
                                 for a, v in ((a, self.eval(a, env, this)) for a in args)])
        if name == "make_optional":
            return self.opt(self.copyval(self.eval(args[0], env, this)), True)
        if name == "advance":
            c = self.lv(args[0], env, this)
            c.v = self.advance(c.v, self.to_int(self.eval(args[1], env, this)))
            return None
        if name == "back_inserter":
            o = self.eval(args[0], env, this)
            return Obj("back_inserter", {"c": Cell(o)})
        if name == "swap":
            a, b = self.lv(args[0], env, this), self.lv(args[1], env, this)
            a.v, b.v = b.v, a.v
            return None
        if name == "get" and "callee" in e:
            v = self.eval(args[0], env, this)
            i = (e["callee"].get("targs") or [0])[0]
            if isinstance(v, Vec):
                cs = v.c
            elif self.is_tuple(v):
                cs = list(v.f.values())
            else:
                raise Unsupported("get of %s" % type(v).__name__)
            if not isinstance(i, int):
                raise Unsupported("get by type")
            return cs[i] if want_cell else self.load(cs[i], e)
        vs = [self.eval(a, env, this) for a in args]
        if name in ("abs", "fabs", "fabsf"):
            if isinstance(vs[0], int):
                return abs(vs[0])
            return self.abs(vs[0])
        if name in ("max", "min", "fmax", "fmin"):
            if len(vs) == 1 and isinstance(vs[0], list):
                r = vs[0][0]
                for x in vs[0][1:]:
                    r = self.minmax(name, r, x)
                return r
            return self.minmax(name, vs[0], vs[1])
        if name == "clamp":
            return self.minmax("min", self.minmax("max", vs[0], vs[1]), vs[2])
        if name in ("isfinite",):
            return self.finite(vs[0])
        if name in ("isnan", "isinf"):
            return not self.finite(vs[0])
        if name == "sqrt":
            return al.sqrt(self.to_poly(vs[0]))
        if name == "hypot":
            s = ZERO
            for v in vs:
                p = self.to_poly(v)
                s = s + p * p
            return al.sqrt(s)
        if name in ("sin", "cos", "tan"):
            return getattr(al, name)(self.to_poly(vs[0]))
        if name == "atan2":
            return al.atan2(self.to_poly(vs[0]), self.to_poly(vs[1]))
        if name == "atan":
            return al.atan2(self.to_poly(vs[0]), ONE) 
        if name in ("acos", "asin"):
            x = al.cancel(self.to_poly(vs[0]))
            if x.is_const() and x.cval() in (-1, 0, 1):
                t = {-1: al.PI, 0: al.PI / 2, 1: Fr(0)}[int(x.cval())]
                return C(t if name == "acos" else al.PI / 2 - t)
            return al.fn(name, [x])
        if name in ("remainder", "fmod", "floor", "ceil", "round", "trunc", "exp", "log"):
            ps = [al.cancel(self.to_poly(v)) for v in vs]
            if all(p.is_const() for p in ps) and name in ("floor", "ceil"):
                import math
                return C(math.floor(ps[0].cval()) if name == "floor" else math.ceil(ps[0].cval()))
            return al.fn(name, ps, pos=(name == "exp"))
        if name == "pow":
            a, b = self.to_poly(vs[0]), self.to_poly(vs[1])
            if b.is_const() and b.cval().denominator == 1 and abs(b.cval()) <= 8:
                n = int(b.cval())
                r = a ** abs(n)
                return r if n >= 0 else self.fdiv(ONE, r, e)
            if b == C(Fr(1, 2)):
                return al.sqrt(a)
            raise Unsupported("pow")
        if name == "copysign":
            m = self.abs(vs[0])
            return m if self.sign(self.to_poly(vs[1])) >= 0 else -m
        if name == "signbit":
            return self.sign(self.to_poly(vs[0])) < 0
        if name == "fma":
            return self.to_poly(vs[0]) * self.to_poly(vs[1]) + self.to_poly(vs[2])
        r = self.algorithm(name, vs, e)
        if r is not NotImplemented:
            return r
        if name == "distance":
            return len(self.span(vs[0], vs[1]))
        if name in ("next", "prev"):
            n = self.to_int(vs[1]) if len(vs) > 1 else 1
            return self.advance(vs[0], n if name == "next" else -n)
        if name == "lerp" and len(vs) == 3:
            a, b, t = (self.to_poly(x) for x in vs)
            return a + t * (b - a)
        if name in ("setprecision", "setw", "fixed", "scientific", "flush", "endl", "setfill", "left", "right"):
            return Opaque("stream")
        if name in ("__assert_fail", "printf", "fprintf", "puts"):
            return None
        raise Unsupported("library function " + (q or name))

    def put(self, out, vals, e):
        """write values through an output iterator; returns the iterator past the last one"""
        if isinstance(out, Obj) and out.cls == "back_inserter":
            v = out.f["c"].v
            for x in vals:
                v.c.append(Cell(self.elt_coerce(x if self.is_ptr_type(v.elt or "") else self.copyval(x), v.elt)))
            return out
        if isinstance(out, ArrPtr):
            cells = out.cells[out.off:]
        elif isinstance(out, Iter) and isinstance(out.cont, Vec) and not out.rev:
            cells = out.cont.c[out.i:]
        else:
            raise Unsupported("output iterator")
        if len(vals) > len(cells):
            raise UB("an algorithm writes past the end", self.L(e))
        for c, x in zip(cells, vals):
            if isinstance(c.v, Mat) and isinstance(x, Mat):
                self.assign(c.v, x)
            else:
                c.v = self.to_poly(x) if isinstance(c.v, Poly) and is_num(x) else x
        return self.advance(out, len(vals))

    def at_iter(self, a, k):
        return self.advance(a, k)

    def algorithm(self, name, vs, e):
        """the algorithms of <algorithm> and <numeric> over element ranges"""
        rng = len(vs) >= 2 and isinstance(vs[0], (Iter, ArrPtr)) and type(vs[0]) is type(vs[1])
        if name in ("copy_n", "fill_n", "for_each_n", "generate_n") and isinstance(vs[0], (Iter, ArrPtr)):
            n = self.to_int(vs[1])
            vs = [vs[0], self.advance(vs[0], n)] + list(vs[2:])
            name, rng = name[:-2], True
        elif name == "fill_n" and isinstance(vs[0], Obj) and vs[0].cls == "back_inserter":
            return self.put(vs[0], [vs[2]] * self.to_int(vs[1]), e)
        if not rng:
            return NotImplemented
        cells = self.span(vs[0], vs[1])
        rest = vs[2:]
        call = lambda f, *a: self.apply(f, list(a), e)
        true = lambda f, *a: self.truth(call(f, *a))
        pick = lambda cond: next((self.advance(vs[0], i) for i, c in enumerate(cells) if cond(c)), vs[1])
        if name in ("copy", "move"):
            return self.put(rest[0], [c.v for c in cells], e)
        if name == "copy_if":
            return self.put(rest[0], [c.v for c in cells if true(rest[1], c)], e)
        if name == "transform":
            if len(rest) == 2:
                return self.put(rest[0], [call(rest[1], c) for c in cells], e)
            other = self.span(rest[0], self.advance(rest[0], len(cells)))
            return self.put(rest[1], [call(rest[2], c, d) for c, d in zip(cells, other)], e)
        if name == "fill":
            for c in cells:
                if isinstance(c.v, Mat) and isinstance(rest[0], Mat):
                    self.assign(c.v, rest[0])
                else:
                    c.v = self.to_poly(rest[0]) if isinstance(c.v, Poly) and is_num(rest[0]) else self.copyval(rest[0]) if not isinstance(rest[0], Obj) else rest[0]
            return None
        if name == "generate":
            for c in cells:
                c.v = call(rest[0])
            return None
        if name == "iota":
            v = rest[0]
            for c in cells:
                c.v = v
                v = self.binop("+", v, 1, e)
            return None
        if name == "for_each":
            for c in cells:
                call(rest[0], c)
            return rest[0]
        if name in ("any_of", "all_of", "none_of"):
            for c in cells:
                if true(rest[0], c) != (name == "all_of"):
                    return name == "any_of"
            return name != "any_of"
        if name in ("count_if", "count"):
            return sum(1 for c in cells if (true(rest[0], c) if name == "count_if" else self.compare("==", c.v, rest[0])))
        if name in ("find_if", "find_if_not", "find"):
            if name == "find":
                return pick(lambda c: self.compare("==", c.v, rest[0]))
            return pick(lambda c: true(rest[0], c) == (name == "find_if"))
        if name in ("accumulate", "reduce"):
            r = rest[0] if rest else ZERO
            for c in cells:
                r = call(rest[1], Cell(r), c) if len(rest) > 1 else self.matop("+", r, c.v, e) if isinstance(r, Mat) else self.plus(r, c.v, e)
            return r
        if name == "inner_product" or name == "transform_reduce" and isinstance(rest[0], (Iter, ArrPtr)):
            other = self.span(rest[0], self.advance(rest[0], len(cells)))
            r = rest[1]
            for c, d in zip(cells, other):
                p = call(rest[3], c, d) if len(rest) > 3 else self.binop("*", c.v, d.v, e)
                r = call(rest[2], Cell(r), Cell(p)) if len(rest) > 2 else self.binop("+", r, p, e)
            return r
        if name == "transform_reduce":
            r = rest[0]
            for c in cells:
                r = call(rest[1], Cell(r), Cell(call(rest[2], c)))
            return r
        if name == "partial_sum":
            out, r = [], None
            for c in cells:
                r = c.v if r is None else call(rest[1], Cell(r), c) if len(rest) > 1 else self.binop("+", r, c.v, e)
                out.append(r)
            return self.put(rest[0], out, e)
        if name in ("max_element", "min_element", "minmax_element"):
            f = rest[0] if rest else None
            lo = hi = 0
            for k in range(1, len(cells)):
                if self.less(cells[k], cells[lo], f):
                    lo = k
                if name == "minmax_element":
                    if not self.less(cells[k], cells[hi], f):
                        hi = k
                elif self.less(cells[hi], cells[k], f):
                    hi = k
            if not cells:
                return vs[1]
            if name == "minmax_element":
                return Obj("std::pair", {"first": Cell(self.advance(vs[0], lo)), "second": Cell(self.advance(vs[0], hi))})
            return self.advance(vs[0], hi if name == "max_element" else lo)
        if name in ("sort", "stable_sort"):
            f = rest[0] if rest else None
            out = []
            for v in [c.v for c in cells]:
                k = len(out)
                while k > 0 and self.less(Cell(v), Cell(out[k - 1]), f):
                    k -= 1
                out.insert(k, v)
            for c, v in zip(cells, out):
                c.v = v
            return None
        if name == "is_sorted":
            f = rest[0] if rest else None
            return not any(self.less(b, a, f) for a, b in zip(cells, cells[1:]))
        if name == "reverse":
            for c, v in zip(cells, [c.v for c in reversed(cells)]):
                c.v = v
            return None
        if name in ("remove", "remove_if", "unique"):
            if name == "unique":
                keep = []
                for c in cells:
                    if not (keep and self.compare("==", keep[-1], c.v)):
                        keep.append(c.v)
            else:
                keep = [c.v for c in cells if not (true(rest[0], c) if name == "remove_if" else self.compare("==", c.v, rest[0]))]
            for c, v in zip(cells, keep):
                c.v = v
            return self.advance(vs[0], len(keep))
        if name in ("replace", "replace_if"):
            for c in cells:
                if true(rest[0], c) if name == "replace_if" else self.compare("==", c.v, rest[0]):
                    c.v = rest[1]
            return None
        if name in ("lower_bound", "upper_bound", "binary_search"):
            f = rest[1] if len(rest) > 1 else None
            k = 0
            while k < len(cells) and (self.less(cells[k], Cell(rest[0]), f) if name != "upper_bound" else not self.less(Cell(rest[0]), cells[k], f)):
                k += 1
            if name == "binary_search":
                return k < len(cells) and not self.less(Cell(rest[0]), cells[k], f)
            return self.advance(vs[0], k)
        if name == "equal":
            end = rest[1] if len(rest) > 1 and isinstance(rest[1], (Iter, ArrPtr)) else self.advance(rest[0], len(cells))
            other = self.span(rest[0], end)
            f = rest[-1] if not isinstance(rest[-1], (Iter, ArrPtr)) else None
            if len(other) != len(cells):
                return False
            return all(true(f, c, d) if f is not None else self.compare("==", c.v, d.v) for c, d in zip(cells, other))
        if name == "swap_ranges":
            other = self.span(rest[0], self.advance(rest[0], len(cells)))
            for c, d in zip(cells, other):
                c.v, d.v = d.v, c.v
            return self.advance(rest[0], len(cells))
        return NotImplemented

    def plus(self, a, b, e):
        if isinstance(a, Str) and isinstance(b, Str):
            return Str(a.s + b.s if a.s is not None and b.s is not None else None)
        return self.binop("+", a, b, e)

    def minmax(self, name, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return max(a, b) if "max" in name else min(a, b)
        a, b = self.to_poly(a), self.to_poly(b)
        if self.nan_mode and not (self.finite(a) and self.finite(b)):
            if name.startswith("f"):
                return b if not self.finite(a) else a
            return a
        s = self.sign(a - b)
        self.path.facts.append((a - b, ">=" if s >= 0 else "<="))
        if "max" in name:
            return a if s >= 0 else b
        return a if s <= 0 else b

    def finite(self, v):
        p = self.to_poly(v)
        if al.has_kind(p, "nonfinite"):
            return False
        if self.finite_hook is not None:
            return self.finite_hook(self, p)
        return True

    def nullary(self, name, q, vs, e):
        m = re.search(r"Eigen::(?:Matrix|Array)<(\w+), (-?\d+), (-?\d+)", q)
        if not m:
            raise Unsupported("nullary " + q)
        el = "d" if m.group(1) == "double" else "i"
        fr, fc = int(m.group(2)), int(m.group(3))
        ints = [v for v in vs]
        val = None
        if name == "Constant":
            val = ints.pop()
        if name == "Unit":
            k = ints.pop()
        if name == "Random":
            raise Unsupported(name)
        if name == "LinSpaced":
            lo, hi = self.to_poly(ints[-2]), self.to_poly(ints[-1])
            n = self.to_int(ints[0]) if len(ints) == 3 else max(fr, 1) * max(fc, 1)
            if n < 1:
                raise Unsupported(name)
            vals = [lo + (hi - lo).scale(Fr(k, n - 1)) if n > 1 else hi for k in range(n)]
            return self.newmat(n if fc == 1 else 1, 1 if fc == 1 else n, vals, fr, fc, "d")
        if len(ints) == 2:
            r, c = self.to_int(ints[0]), self.to_int(ints[1])
        elif len(ints) == 1:
            n = self.to_int(ints[0])
            r, c = (n, 1) if fc == 1 else (1, n)
        else:
            r, c = fr, fc
        if r < 0 or c < 0:
            raise UB("negative matrix size", self.L(e))
        one, zero = (ONE, ZERO) if el == "d" else (1, 0)
        if name == "Zero":
            vals = [zero] * (r * c)
        elif name == "Ones":
            vals = [one] * (r * c)
        elif name == "Constant":
            vals = [self.elem(val, el)] * (r * c)
        elif name == "Identity":
            vals = [one if i == j else zero for i in range(r) for j in range(c)]
        else:
            k = {"UnitX": 0, "UnitY": 1, "UnitZ": 2, "UnitW": 3}.get(name, None) if name != "Unit" else k
            vals = [one if i == k else zero for i in range(r * c)]
        return self.newmat(r, c, vals, fr, fc, el)

    def aa_matrix(self, o):
        d = o.data
        if d[0] == "word":
            return self.newmat(3, 3, al.word_entries(d[1]), 3, 3)
        v = [al.cancel(d[1] * x) for x in d[2]]
        return self.newmat(3, 3, al.word_entries(al.exp_word(v)), 3, 3)

    # --- library methods
    def lib_method(self, o, name, e, env, this, want_cell=False):
        callee = e.get("callee") or {}
        rec = e.get("rec", "")
        if o is None:
            objn = e.get("obj")
            if objn is None:
                raise Unsupported("method " + str(name))
            o = self.lv(objn, env, this).v if objn["k"] in ("ref", "member") and objn.get("lv") else self.eval(objn, env, this)
        args = e["args"]
        if o is None and rec in ("std::__shared_ptr", "std::shared_ptr", "std::unique_ptr", "std::__shared_ptr_access"):
            if name == "get":
                return None
            if name == "operator bool":
                return False
            if name in ("reset", "operator="):
                c = self.lv(e["obj"], env, this)
                c.v = self.eval(args[0], env, this) if args else None
                return None
            raise UB("null shared pointer", self.L(e))
        if isinstance(o, Obj) and (rec.startswith("std::__shared_ptr") or rec in ("std::shared_ptr", "std::unique_ptr")):
            if name == "get":
                return o
            if name == "operator bool":
                return True
            if name in ("reset", "operator="):
                c = self.lv(e["obj"], env, this)
                c.v = self.eval(args[0], env, this) if args else None
                return None
            if name == "use_count":
                return 1
        if self.is_opt(o):
            if name in ("has_value", "operator bool"):
                return self.opt_has(o)
            if name in ("value", "operator*", "operator->"):
                if not self.opt_has(o):
                    if name == "value":
                        raise Throw(Opaque("exception:std::bad_optional_access"), self.L(e))
                    raise UB("value of an empty optional", self.L(e))
                return o.f["v"] if want_cell else self.load(o.f["v"], e)
            if name == "value_or":
                return o.f["v"].v if self.opt_has(o) else self.eval(args[0], env, this)
            if name == "reset":
                o.f["has"].v = False
                return None
            if name == "emplace":
                o.f["has"].v, o.f["v"].v = True, self.copyval(self.eval(args[0], env, this))
                return o.f["v"] if want_cell else o.f["v"].v
        if isinstance(o, Obj) and o.cls == "InnerIterator":
            sm, j, k = o.f["m"].v, o.f["j"].v, o.f["k"].v
            ks = [x for x in sm.order() if x[1] == j]
            if name == "operator bool":
                return k < len(ks)
            if k >= len(ks):
                raise UB("sparse iterator past the end of its column", self.L(e))
            if name in ("value", "valueRef"):
                c = sm.d[ks[k]]
                return c if want_cell else c.v
            if name in ("row", "index", "col", "outer"):
                return ks[k][0] if name in ("row", "index") else j
        if isinstance(o, ArrPtr) and ("shared_ptr" in rec or "unique_ptr" in rec):
            if name in ("get", "operator bool"):
                return o if name == "get" else True
        if isinstance(o, Opaque) and o.tag == "vectorwise":
            way, m = o.data
            n, k = (m.cols, m.rows) if way == "colwise" else (m.rows, m.cols)
            lines = [Mat(k, 1, [m.at(x, i) if way == "colwise" else m.at(i, x) for x in range(k)], -1, 1, False, m.elt) for i in range(n)]
            if name in ("sum", "norm", "squaredNorm", "mean", "maxCoeff", "minCoeff", "prod", "all", "any"):
                vals = [self.mat_method(x, name, dict(e, args=[]), env, this) for x in lines]
                el = "b" if name in ("all", "any") else m.elt
                return self.newmat(1, n, vals, 1, -1, el) if way == "colwise" else self.newmat(n, 1, vals, -1, 1, el)
            if name in ("normalized", "normalize"):
                r = [self.mat_method(x, "normalized", dict(e, args=[]), env, this) for x in lines]
                r = self.newmat(m.rows, m.cols, [(r[j].cells[i].v if way == "colwise" else r[i].cells[j].v) for i in range(m.rows) for j in range(m.cols)])
                if name == "normalize":
                    self.assign(m, r)
                    return None
                return r
            if name == "reverse":
                pos = [(i, j) for i in range(m.rows) for j in range(m.cols)]
                return self.view(m, [((m.rows - 1 - i) if way == "colwise" else i) * m.cols + (j if way == "colwise" else m.cols - 1 - j) for i, j in pos], m.rows, m.cols)
            raise Unsupported("%s of the %s" % (name, way))
        if isinstance(o, Comma):
            if name == "finished":
                return o.m
            o = o.m
        if isinstance(o, Mat):
            return self.mat_method(o, name, e, env, this, want_cell)
        if isinstance(o, Vec):
            return self.vec_method(o, name, e, env, this, want_cell)
        if isinstance(o, Map):
            return self.map_method(o, name, e, env, this, want_cell)
        if isinstance(o, Sparse):
            return self.sparse_method(o, name, e, env, this, want_cell)
        if isinstance(o, Str):
            if name in ("size", "length"):
                if o.s is None:
                    raise Unsupported("length of an unknown string")
                return len(o.s)
            if name == "empty":
                if o.s is None:
                    raise Unsupported("unknown string")
                return o.s == ""
            return Str(None)
        if isinstance(o, Opaque):
            if o.tag == "angleaxis":
                d = o.data
                if d is None:
                    raise Unsupported("default AngleAxis")
                if name in ("toRotationMatrix", "matrix"):
                    return self.aa_matrix(o)
                if name in ("angle", "axis"):
                    if d[0] == "aa":
                        return d[1] if name == "angle" else self.newmat(3, 1, d[2], 3, 1)
                    L = al.log_atoms(d[1])
                    A = al.sqrt(L[0] * L[0] + L[1] * L[1] + L[2] * L[2])
                    if name == "angle":
                        return A
                    return self.newmat(3, 1, [self.fdiv(x, A, e, safe=True) for x in L], 3, 1)
                if name == "inverse":
                    if d[0] == "word":
                        return Opaque("angleaxis", ("word", al.winv(d[1])))
                    return Opaque("angleaxis", ("aa", -d[1], d[2]))
                if name == "normalized":
                    return o
                raise Unsupported("AngleAxis::" + name)
            if "chrono" in o.tag or o.tag == "stream" or o.tag.startswith("std::"):
                if name == "count":
                    return al.sym("time", kind="time")
                return Opaque(o.tag)
            hk = self.hooks.get("method:" + o.tag.split("<")[0])
            if hk:
                return hk(self, o, name, [self.eval(a, env, this) for a in args], e)
            if o.tag.startswith("exception"):
                return Str(None)
        if isinstance(o, Obj):
            hk = self.hooks.get("method:" + o.cls)
            if hk:
                return hk(self, o, name, [self.eval(a, env, this) for a in args], e)
            if o.cls == "Eigen::Triplet":
                return o.f[{"row": "r", "col": "c", "value": "v"}[name]].v
        if isinstance(o, list) and name in ("size",):
            return len(o)
        if isinstance(o, (Lambda,)) :
            v, c = self.call_lambda(o, [self.argcell(a, env, this) for a in args])
            return v
        if self.is_tuple(o) and name == "swap":
            p = self.eval(args[0], env, this)
            for x, y in zip(o.f.values(), p.f.values()):
                x.v, y.v = y.v, x.v
            return None
        if isinstance(o, Iter) and name == "base" and o.rev:
            return Iter(o.cont, len(o.cont.c) - o.i)
        if is_num(o) and name in ("transpose", "value", "eval"):
            return o
        raise Unsupported("method %s::%s on %s" % (rec, name, type(o).__name__ if not isinstance(o, Opaque) else o.tag))

    def mat_method(self, m, name, e, env, this, want_cell=False):
        args = e["args"]
        targs = (e.get("callee") or {}).get("targs") or []
        ti = [t for t in targs if isinstance(t, int)]
        if name in ("rows",):
            return m.rows
        if name in ("cols",):
            return m.cols
        if name in ("size",):
            return m.size
        if name in ("outerSize",):
            return m.cols
        if name in ("innerSize",):
            return m.rows
        if name == "outerStride":
            return m.rows
        if name in ("noalias", "array", "matrix", "eval", "derived", "const_cast_derived", "finished", "real", "conjugate", "nestedExpression", "reshaped", "template cast"):
            if name == "eval":
                return self.copyval(m)
            return m
        if name == "cast":
            return self.mapm(m, lambda x: self.to_poly(x)) if targs and targs[0] == "double" else m
        vs = None
        if name in ("resize", "conservativeResize", "resizeLike", "setZero", "setConstant", "setOnes", "setIdentity", "fill", "setRandom"):
            vs = [self.eval(a, env, this) for a in args]
            if name == "setRandom":
                raise Unsupported(name)
            if name == "fill":
                name = "setConstant"
            if name == "resizeLike":
                vs = [vs[0].rows, vs[0].cols]
                name = "resize"
            val = None
            if name == "setConstant":
                val = vs.pop()
            if vs:
                if len(vs) == 2:
                    r, c = self.to_int(vs[0]), self.to_int(vs[1])
                else:
                    n = self.to_int(vs[0])
                    r, c = (n, 1) if m.fc == 1 or (m.fc < 0 and m.cols == 1) else (1, n)
                    if m.fc == 1:
                        r, c = n, 1
                if not m.owner or m.isref:
                    if (r, c) != (m.rows, m.cols):
                        raise UB("resize of a %dx%d reference to %dx%d" % (m.rows, m.cols, r, c), self.L(e))
                elif (r, c) != (m.rows, m.cols):
                    if r < 0 or c < 0:
                        raise UB("negative matrix size", self.L(e))
                    if (m.fr >= 0 and r != m.fr) or (m.fc >= 0 and c != m.fc):
                        raise UB("resize of a fixed size matrix", self.L(e))
                    if name == "conservativeResize":
                        cells = [m.at(i, j) if i < m.rows and j < m.cols else Cell() for i in range(r) for j in range(c)]
                    elif r * c == m.size:
                        # storage (column-major) is reinterpreted
                        flat = [m.at(i, j) for j in range(m.cols) for i in range(m.rows)]
                        cells = [flat[j * r + i] for i in range(r) for j in range(c)]
                    else:
                        cells = [Cell() for _ in range(r * c)]
                    m.rows, m.cols, m.cells = r, c, cells
            if name == "setZero":
                for c in m.cells:
                    c.v = ZERO if m.elt == "d" else 0
            elif name == "setOnes":
                for c in m.cells:
                    c.v = ONE if m.elt == "d" else 1
            elif name == "setConstant":
                for c in m.cells:
                    c.v = self.elem(val, m.elt)
            elif name == "setIdentity":
                for i in range(m.rows):
                    for j in range(m.cols):
                        m.at(i, j).v = ONE if i == j else ZERO
            return m
        if name in ("x", "y", "z", "w"):
            k = "xyzw".index(name)
            if k >= m.size:
                raise UB("component %s of a %d-vector" % (name, m.size), self.L(e))
            c = m.cells[k]
            return c if want_cell else self.read(c, m.elt)
        if name in ("operator()", "operator[]", "coeff", "coeffRef"):
            c = self.coeff(m, [self.to_int(self.eval(a, env, this)) for a in args], e)
            return c if want_cell else self.read(c, m.elt)
        if name == "operator=":
            v = self.eval(args[0], env, this)
            self.assign(m, v)
            return m
        if name == "data":
            return ArrPtr([m.at(i, j) for j in range(m.cols) for i in range(m.rows)], 0)
        if name in ("begin", "end", "cbegin", "cend"):
            return Iter(Vec(list(m.cells)), 0 if "begin" in name else m.size)
        iv = None
        if name in ("segment", "head", "tail", "block", "col", "row", "topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
            iv = [self.to_int(self.eval(a, env, this)) for a in args if a.get("k") != "defarg"]
            r0 = c0 = 0
            nr, nc = m.rows, m.cols
            if name in ("segment", "head", "tail"):
                if name == "segment":
                    st = iv[0]
                    n = ti[0] if ti else iv[1]
                else:
                    n = ti[0] if ti else iv[0]
                    st = 0 if name == "head" else m.size - n
                if st < 0 or n < 0 or st + n > m.size:
                    raise UB("segment [%d,%d) of a %d-vector" % (st, st + n, m.size), self.L(e))
                return self.view(m, list(range(st, st + n)), n, 1) if m.cols == 1 else self.view(m, list(range(st, st + n)), 1, n)
            if name == "block":
                r0, c0 = iv[0], iv[1]
                nr, nc = (ti[0], ti[1]) if len(ti) >= 2 and len(iv) == 2 else (iv[2], iv[3])
            elif name == "col":
                c0, nc = iv[0], 1
            elif name == "row":
                r0, nr = iv[0], 1
            elif name == "topRows":
                nr = ti[0] if ti else iv[0]
            elif name == "bottomRows":
                nr = ti[0] if ti else iv[0]
                r0 = m.rows - nr
            elif name == "leftCols":
                nc = ti[0] if ti else iv[0]
            elif name == "rightCols":
                nc = ti[0] if ti else iv[0]
                c0 = m.cols - nc
            elif name == "middleRows":
                r0 = iv[0]
                nr = ti[0] if ti else iv[1]
            elif name == "middleCols":
                c0 = iv[0]
                nc = ti[0] if ti else iv[1]
            else:
                nr, nc = (ti[0], ti[1]) if len(ti) >= 2 else (iv[0], iv[1])
                if "bottom" in name:
                    r0 = m.rows - nr
                if "Right" in name:
                    c0 = m.cols - nc
            if r0 < 0 or c0 < 0 or nr < 0 or nc < 0 or r0 + nr > m.rows or c0 + nc > m.cols:
                raise UB("block (%d,%d,%d,%d) outside a %dx%d matrix" % (r0, c0, nr, nc, m.rows, m.cols), self.L(e))
            return self.view(m, [(r0 + i) * m.cols + c0 + j for i in range(nr) for j in range(nc)], nr, nc)
        if name == "diagonal":
            n = min(m.rows, m.cols)
            return self.view(m, [i * m.cols + i for i in range(n)], n, 1)
        if name in ("transpose", "adjoint"):
            v = self.view(m, [i * m.cols + j for j in range(m.cols) for i in range(m.rows)], m.cols, m.rows)
            return v
        if name in ("transposeInPlace",):
            vals = self.mvals(m)
            r, c = m.rows, m.cols
            new = [vals[i * c + j] for j in range(c) for i in range(r)]
            m.rows, m.cols = c, r
            m.cells = [Cell(v) for v in new]
            return None
        if name == "swap":
            o = self.eval(args[0], env, this)
            m.rows, o.rows, m.cols, o.cols, m.cells, o.cells = o.rows, m.rows, o.cols, m.cols, o.cells, m.cells
            return None
        if name in ("squaredNorm", "norm", "stableNorm", "blueNorm"):
            s = ZERO
            for x in self.mpolys(m):
                s = s + x * x
            s = al.cancel(s)
            return s if name == "squaredNorm" else al.sqrt(s)
        if name in ("normalized", "normalize", "stableNormalized", "stableNormalize"):
            s = ZERO
            ps = self.mpolys(m)
            for x in ps:
                s = s + x * x
            n = al.sqrt(al.cancel(s))
            out = [self.fdiv(x, n, e, safe=True) for x in ps]
            if name.endswith("ize"):
                for c, v in zip(m.cells, out):
                    c.v = v
                return None
            return self.newmat(m.rows, m.cols, out)
        if name == "dot":
            o = self.eval(args[0], env, this)
            if o.size != m.size:
                raise UB("dot of %d and %d vectors" % (m.size, o.size), self.L(e))
            s = ZERO
            for x, y in zip(self.mpolys(m), self.mpolys(o)):
                s = s + x * y
            return al.cancel(s)
        if name == "cross":
            o = self.eval(args[0], env, this)
            a, b = self.mpolys(m), self.mpolys(o)
            if len(a) != 3 or len(b) != 3:
                raise UB("cross product of non 3-vectors", self.L(e))
            return self.newmat(3, 1, al.skewmul(a, b), 3, 1)
        if name == "trace":
            s = ZERO
            for i in range(min(m.rows, m.cols)):
                s = s + self.to_poly(self.mread(m, i, i))
            return s
        if name in ("sum", "prod", "mean"):
            vals = self.mvals(m)
            if not vals:
                return ZERO if m.elt == "d" else 0
            r = vals[0]
            for x in vals[1:]:
                r = r * x if name == "prod" else r + x
            if name == "mean":
                r = self.to_poly(r).scale(Fr(1, len(vals)))
            return r
        if name in ("cwiseAbs", "abs"):
            return self.mapm(m, lambda x: self.abs(x))
        if name in ("cwiseAbs2", "abs2", "square"):
            return self.mapm(m, lambda x: x * x)
        if name in ("cwiseInverse", "inverse") and (name == "cwiseInverse"):
            return self.mapm(m, lambda x: self.fdiv(ONE, x, e))
        if name in ("cwiseSqrt", "sqrt"):
            return self.mapm(m, lambda x: al.sqrt(x))
        if name in ("cwiseProduct", "cwiseQuotient", "cwiseMax", "cwiseMin"):
            o = self.eval(args[0], env, this)
            ov = self.mpolys(o) if isinstance(o, Mat) else [self.to_poly(o)] * m.size
            f = {"cwiseProduct": lambda x, y: x * y, "cwiseQuotient": lambda x, y: self.fdiv(x, y, e),
                 "cwiseMax": lambda x, y: self.minmax("max", x, y), "cwiseMin": lambda x, y: self.minmax("min", x, y)}[name]
            return self.newmat(m.rows, m.cols, [f(x, y) for x, y in zip(self.mpolys(m), ov)])
        if name in ("maxCoeff", "minCoeff"):
            vals = self.mvals(m)
            if not vals:
                raise UB("%s of an empty matrix" % name, self.L(e))
            if args and not all(a.get("k") == "defarg" for a in args):
                best = 0
                for k in range(1, len(vals)):
                    s = self.compare(">" if name == "maxCoeff" else "<", vals[k], vals[best])
                    if s:
                        best = k
                ps = [self.eval(a, env, this) for a in args if a.get("k") != "defarg"]
                if not all(isinstance(c, ArrPtr) for c in ps) or len(ps) == 1 and m.rows != 1 and m.cols != 1:
                    raise Unsupported(name)
                for c, v in zip(ps, (best,) if len(ps) == 1 else (best // m.cols, best % m.cols)):
                    c.cells[c.off].v = v
                return vals[best]
            if self.coeff_hook is not None:
                r = self.coeff_hook(self, name, [self.to_poly(x) for x in vals])
                if r is not None:
                    return r
            r = vals[0]
            for x in vals[1:]:
                r = self.minmax("max" if name == "maxCoeff" else "min", r, x)
            return r
        if name == "allFinite":
            return all(self.finite(x) for x in self.mpolys(m))
        if name == "hasNaN":
            return not all(self.finite(x) for x in self.mpolys(m))
        if name in ("isZero", "isApprox", "isIdentity", "isUnitary", "isOnes"):
            if name == "isZero":
                if all(not x.t for x in self.mpolys(m)):
                    return True
                if any(x.is_const() and abs(x.cval()) > Fr(1, 1000) for x in self.mpolys(m)):
                    return False
                return self.decide_key(("isZero", tuple(self.mpolys(m))), 2, [0, 1]) == 1
            if name == "isApprox":
                o = self.eval(args[0], env, this)
                if (o.rows, o.cols) != (m.rows, m.cols):
                    raise UB("isApprox of different sizes", self.L(e))
                pa, pb = self.mpolys(m), self.mpolys(o)
                if all(al.is_zero(x - y) is True for x, y in zip(pa, pb)):
                    return True
                if all(x.is_const() and y.is_const() for x, y in zip(pa, pb)):
                    d = sum((x.cval() - y.cval()) ** 2 for x, y in zip(pa, pb))
                    q = min(sum(x.cval() ** 2 for x in pa), sum(y.cval() ** 2 for y in pb))
                    prec = self.to_poly(self.eval(args[1], env, this)).cval() if len(args) > 1 and args[1].get("k") != "defarg" else Fr(1, 10 ** 12)
                    return d <= prec * prec * q
                return self.decide_key((name, tuple(pa), tuple(pb)), 2, [0, 1]) == 1
            return self.decide_key((name, tuple(self.mpolys(m))), 2, [1, 0]) == 1
        if name == "determinant":
            return self.det(self.mpolys(m), m.rows)
        if name == "inverse":
            return self.inverse(m, e)
        if name == "asDiagonal":
            n = m.size
            vals = self.mpolys(m)
            return self.newmat(n, n, [vals[i] if i == j else ZERO for i in range(n) for j in range(n)])
        if name == "colwise" or name == "rowwise":
            return Opaque("vectorwise", (name, m))
        if name == "unaryExpr":
            f = self.eval(args[0], env, this)
            return self.mapm(m, lambda x: self.call_lambda(f, [Cell(x)])[0])
        if name == "format":
            return Opaque("stream")
        if name in ("value", "operator const double", "operator double", "operator const Scalar", "operator Scalar"):
            if m.size != 1:
                raise UB("%s of a %dx%d matrix" % (name, m.rows, m.cols), self.L(e))
            return self.mread(m, 0, 0)
        if name in ("all", "any", "count"):
            bs = [self.truth(x) for x in self.mvals(m)]
            return all(bs) if name == "all" else any(bs) if name == "any" else sum(bs)
        if name == "select":
            vs = [self.eval(a, env, this) for a in args]
            ops = [self.mpolys(v) if isinstance(v, Mat) else [self.to_poly(v)] * m.size for v in vs]
            return self.newmat(m.rows, m.cols, [ops[0][i] if self.truth(b) else ops[1][i] for i, b in enumerate(self.mvals(m))])
        if name == "replicate":
            vs = [self.to_int(self.eval(a, env, this)) for a in args] or ti[:2]
            if len(vs) != 2:
                raise Unsupported(name)
            vals = self.mvals(m)
            return self.newmat(m.rows * vs[0], m.cols * vs[1], [vals[(i % m.rows) * m.cols + j % m.cols] for i in range(m.rows * vs[0]) for j in range(m.cols * vs[1])])
        if name == "reverse":
            return self.view(m, list(range(m.size))[::-1], m.rows, m.cols)
        if name == "reverseInPlace":
            vals = self.mvals(m)[::-1]
            for c, v in zip(m.cells, vals):
                c.v = v
            return None
        if name == "triangularView":
            mode = ti[0] if ti else None
            if mode not in (1, 2, 5, 6, 9, 10):
                raise Unsupported(name)
            vals = self.mpolys(m)
            def keep(i, j):
                if i == j:
                    return ONE if mode in (5, 6) else ZERO if mode in (9, 10) else vals[i * m.cols + j]
                return vals[i * m.cols + j] if (i > j) == (mode & 1 == 1) else ZERO
            return self.newmat(m.rows, m.cols, [keep(i, j) for i in range(m.rows) for j in range(m.cols)])
        if name == "toDenseMatrix" or name == "toRotationMatrix":
            return m
        if name == "isConstant":
            raise Unsupported(name)
        if name == "lpNorm":
            ps = [self.abs(x) for x in self.mpolys(m)]
            if ti == [1]:
                r = ZERO
                for x in ps:
                    r = r + x
                return r
            raise Unsupported("lpNorm")
        raise Unsupported("matrix method " + name)

    def det(self, v, n):
        if n == 1:
            return v[0]
        if n == 2:
            return v[0] * v[3] - v[1] * v[2]
        s = ZERO
        for j in range(n):
            minor = [v[i * n + k] for i in range(1, n) for k in range(n) if k != j]
            s = s + (v[j] * self.det(minor, n - 1) if j % 2 == 0 else -(v[j] * self.det(minor, n - 1)))
        return s

    def inverse(self, m, e):
        v = self.mpolys(m)
        n = m.rows
        if n == 3:
            w = al.word_of(v)
            if w is not None:
                return self.newmat(3, 3, al.word_entries(al.winv(w)), 3, 3)
        if n > 3:
            raise Unsupported("inverse")
        d = al.inv(self.det(v, n))
        out = []
        for i in range(n):
            for j in range(n):
                minor = [v[a * n + b] for a in range(n) for b in range(n) if a != j and b != i]
                c = self.det(minor, n - 1) if n > 1 else ONE
                out.append(al.cancel((c if (i + j) % 2 == 0 else -c) * d))
        return self.newmat(n, n, out)

    def vec_method(self, o, name, e, env, this, want_cell=False):
        args = e["args"]
        if name in ("size",):
            return len(o.c)
        if name == "capacity":
            return len(o.c)
        if name == "empty":
            return not o.c
        if name == "clear":
            del o.c[:]
            return None
        if name in ("reserve", "shrink_to_fit"):
            return None
        if name == "resize":
            vs = [self.eval(a, env, this) for a in args]
            n = self.to_int(vs[0])
            if n < 0 or n > 10 ** 6:
                raise UB("vector resize to %d" % n, self.L(e))
            while len(o.c) > n:
                o.c.pop()
            while len(o.c) < n:
                o.c.append(Cell((vs[1] if self.is_ptr_type(o.elt or "") else self.copyval(vs[1])) if len(vs) > 1 else self.default_scalar(o.elt)))
            return None
        if name == "assign":
            vs = [self.eval(a, env, this) for a in args]
            if len(vs) == 2 and isinstance(vs[0], int):
                o.c[:] = [Cell(self.copyval(vs[1])) for _ in range(vs[0])]
            elif len(vs) == 2 and isinstance(vs[0], (Iter, ArrPtr)):
                o.c[:] = [Cell(self.copyval(c.v) if not self.is_ptr_type(o.elt or "") else c.v) for c in self.span(vs[0], vs[1])]
            elif len(vs) == 1 and isinstance(vs[0], list):
                o.c[:] = [Cell(v) for v in vs[0]]
            else:
                raise Unsupported("vector assign")
            return None
        if name in ("push_back", "emplace_back"):
            if self.destructible({"n": o.elt or ""}):
                raise Unsupported("list of objects with a destructor: " + o.elt)
            real = [a for a in args if a.get("k") != "defarg"]
            if name == "emplace_back" and real and ((real[0].get("t") or {}).get("int") or len(real) > 1) and ((o.elt or "").startswith("std::vector<") or parse_mat_type(o.elt or "")):
                mt = parse_mat_type(o.elt)
                v = self.construct_mat(mt, real, env, this, e) if mt else self.construct_vec(o.elt, real, env, this, e)
                c = Cell(v)
                o.c.append(c)
                return c if want_cell else c.v
            vs = [self.eval(a, env, this) for a in args]
            if name == "emplace_back" and (len(vs) != 1 or (o.elt in self.F.rec)):
                if len(vs) == 0:
                    v = self.default_scalar(o.elt)
                elif o.elt in self.F.rec and not (len(vs) == 1 and isinstance(vs[0], Obj) and vs[0].cls == o.elt):
                    v = self.construct(o.elt, [Cell(x) for x in vs], None)
                elif parse_mat_type(o.elt or "") and all(isinstance(x, int) for x in vs):
                    mt = parse_mat_type(o.elt)
                    v = self.newmat(vs[0], vs[1] if len(vs) > 1 else 1, None, mt[0], mt[1], mt[2])
                elif (o.elt or "").startswith("Eigen::Triplet"):
                    v = Obj("Eigen::Triplet", {"r": Cell(vs[0]), "c": Cell(vs[1]), "v": Cell(vs[2])})
                elif (o.elt or "").startswith(("std::pair<", "std::tuple<")) and len(vs) == len(targs_of(o.elt)):
                    v = self.elt_coerce([x if self.is_ptr_type(t) else self.copyval(x) for x, t in zip(vs, targs_of(o.elt))], o.elt)
                else:
                    v = vs[0]
            else:
                v = vs[0]
            if args and args[0].get("lv") and not self.is_ptr_type(o.elt or ""):
                v = self.copyval(v)
            c = Cell(self.elt_coerce(v, o.elt))
            o.c.append(c)
            return c if want_cell else c.v
        if name == "pop_back":
            if not o.c:
                raise UB("pop_back of an empty vector", self.L(e))
            o.c.pop()
            return None
        if name in ("back", "front"):
            if not o.c:
                raise UB("%s of an empty vector" % name, self.L(e))
            c = o.c[-1 if name == "back" else 0]
            return c if want_cell else c.v
        if name in ("at", "operator[]"):
            i = self.to_int(self.eval(args[0], env, this))
            if i < 0 or i >= len(o.c):
                if name == "at":
                    raise Throw(Opaque("exception:std::out_of_range"), self.L(e))
                raise UB("vector index %d out of range (size %d)" % (i, len(o.c)), self.L(e))
            return o.c[i] if want_cell else o.c[i].v
        if name in ("begin", "cbegin"):
            return Iter(o, 0)
        if name in ("end", "cend"):
            return Iter(o, len(o.c))
        if name in ("rbegin", "crbegin"):
            return Iter(o, 0, True)
        if name in ("rend", "crend"):
            return Iter(o, len(o.c), True)
        if name == "data":
            return ArrPtr(o.c, 0)
        if name == "fill":
            v = self.eval(args[0], env, this)
            for c in o.c:
                c.v = v if isinstance(v, Obj) else self.copyval(v)
            return None
        if name == "operator=":
            v = self.eval(args[0], env, this)
            if isinstance(v, list):
                o.c[:] = [Cell(self.elt_coerce(x, o.elt)) for x in v]
            else:
                o.c[:] = self.copyval(v).c
            return o
        if name == "erase":
            vs = [self.eval(a, env, this) for a in args]
            if len(vs) == 1:
                del o.c[vs[0].i]
                return Iter(o, vs[0].i)
            del o.c[vs[0].i:vs[1].i]
            return Iter(o, vs[0].i)
        if name == "insert":
            vs = [self.eval(a, env, this) for a in args]
            if len(vs) == 3 and isinstance(vs[1], (Iter, ArrPtr)):
                o.c[vs[0].i:vs[0].i] = [Cell(self.copyval(c.v) if not self.is_ptr_type(o.elt or "") else c.v) for c in self.span(vs[1], vs[2])]
                return Iter(o, vs[0].i)
            if len(vs) == 3:
                o.c[vs[0].i:vs[0].i] = [Cell(self.elt_coerce(vs[2] if self.is_ptr_type(o.elt or "") else self.copyval(vs[2]), o.elt)) for _ in range(self.to_int(vs[1]))]
                return Iter(o, vs[0].i)
            if isinstance(vs[1], list):
                o.c[vs[0].i:vs[0].i] = [Cell(self.elt_coerce(x, o.elt)) for x in vs[1]]
                return Iter(o, vs[0].i)
            o.c.insert(vs[0].i, Cell(self.elt_coerce(vs[1] if self.is_ptr_type(o.elt or "") else self.copyval(vs[1]), o.elt)))
            return Iter(o, vs[0].i)
        if name == "swap":
            p = self.eval(args[0], env, this)
            o.c, p.c = p.c, o.c
            return None
        raise Unsupported("vector method " + name)

    def map_method(self, o, name, e, env, this, want_cell=False):
        args = e["args"]
        if name == "size":
            return len(o.d)
        if name == "empty":
            return not o.d
        if name == "clear":
            o.d.clear()
            return None
        if name in ("begin", "cbegin"):
            return Iter(o, next(iter(o.d)) if o.d else None)
        if name in ("end", "cend"):
            return Iter(o, None)
        if name == "reserve":
            return None
        vs = [self.eval(a, env, this) for a in args]
        if name == "find":
            return Iter(o, vs[0] if vs[0] in o.d else None)
        if name in ("count", "contains"):
            return int(vs[0] in o.d) if name == "count" else vs[0] in o.d
        if name in ("at", "operator[]"):
            if vs[0] not in o.d:
                if name == "at":
                    raise Throw(Opaque("exception:std::out_of_range"), self.L(e))
                o.d[vs[0]] = Cell(self.default_scalar(o.elt))
            c = o.d[vs[0]]
            return c if want_cell else c.v
        if name in ("emplace", "insert", "try_emplace", "insert_or_assign"):
            if len(vs) == 1:
                if o.elt is None:
                    k = vs[0]
                    fresh = k not in o.d
                    o.d.setdefault(k, Cell(True))
                    return Obj("std::pair", {"first": Cell(Iter(o, k)), "second": Cell(fresh)})
                p = vs[0]
                if isinstance(p, list):
                    k, v = p
                else:
                    k, v = p.f["first"].v, p.f["second"].v
            else:
                k, v = vs[0], vs[1]
                if o.elt in self.F.rec and not (isinstance(v, Obj) and v.cls == o.elt):
                    v = self.construct(o.elt, [Cell(x) for x in vs[1:]], None)
            fresh = k not in o.d
            if fresh or name == "insert_or_assign":
                o.d[k] = Cell(v if self.is_ptr_type(o.elt or "") else self.copyval(v))
            return Obj("std::pair", {"first": Cell(Iter(o, k)), "second": Cell(fresh)})
        if name == "erase":
            k = vs[0].i if isinstance(vs[0], Iter) else vs[0]
            r = int(k in o.d)
            o.d.pop(k, None)
            return r
        raise Unsupported("map method " + name)

    def sparse_method(self, o, name, e, env, this, want_cell=False):
        args = e["args"]
        if name == "rows":
            return o.rows
        if name in ("cols", "outerSize"):
            return o.cols
        if name == "nonZeros":
            return len(o.d)
        if name in ("finalize", "startVec", "data"):
            return None
        if name in ("makeCompressed", "squeeze"):
            o.cap = None
            return None
        if name == "uncompress":
            if o.cap is None:
                o.cap = [o.nnz(j) for j in range(o.cols)]
            return None
        if name == "reserve":
            a = self.eval(args[0], env, this)
            if isinstance(a, Mat) or isinstance(a, Vec):
                sz = [self.to_int(c.v) for c in (a.cells if isinstance(a, Mat) else a.c)]
                if len(sz) != o.cols:
                    raise UB("reserve with %d sizes for %d columns" % (len(sz), o.cols), self.L(e))
                if o.cap != "?":
                    o.cap = [max(n + o.nnz(j), (o.cap or [0] * o.cols)[j]) for j, n in enumerate(sz)]
            return None
        if name == "isCompressed":
            return o.cap is None
        vs = [self.eval(a, env, this) for a in args]
        if name == "resize":
            o.rows, o.cols, o.d, o.cap = self.to_int(vs[0]), self.to_int(vs[1]), {}, None
            return None
        if name in ("setZero",):
            o.d = {}
            return None
        if name in ("coeffRef", "insert", "coeff", "insertBack"):
            i, j = self.to_int(vs[0]), self.to_int(vs[1])
            if not (0 <= i < o.rows and 0 <= j < o.cols):
                raise UB("sparse index (%d,%d) outside %dx%d" % (i, j, o.rows, o.cols), self.L(e))
            if name == "coeff":
                return o.d[(i, j)].v if (i, j) in o.d else ZERO
            if (i, j) not in o.d:
                o.d[(i, j)] = Cell(ZERO)
                if name != "insertBack":
                    o.made(j)
            return o.d[(i, j)] if want_cell else o.d[(i, j)].v
        if name == "valuePtr":
            return ArrPtr(o.slots(lambda k: o.d[k]), 0)
        if name == "innerIndexPtr":
            return ArrPtr(o.slots(lambda k: Cell(k[0])), 0)
        if name == "outerIndexPtr":
            out, n = [], 0
            for j in range(o.cols + 1):
                out.append(Cell(sum(1 for k in o.d if k[1] < j)))
            return ArrPtr(out, 0)
        if name == "setFromTriplets":
            a, b = vs[0], vs[1]
            o.d = {}
            o.cap = None
            for c in a.cont.c[a.i:b.i]:
                t = c.v
                i, j, v = t.f["r"].v, t.f["c"].v, self.to_poly(t.f["v"].v)
                if not (0 <= i < o.rows and 0 <= j < o.cols):
                    raise UB("triplet (%d,%d) outside %dx%d" % (i, j, o.rows, o.cols), self.L(e))
                if (i, j) in o.d:
                    o.d[(i, j)].v = o.d[(i, j)].v + v
                else:
                    o.d[(i, j)] = Cell(v)
            return None
        if name in ("transpose", "adjoint"):
            s = Sparse(o.cols, o.rows)
            s.d = {(j, i): Cell(c.v) for (i, j), c in o.d.items()}
            return s
        if name in ("eval", "pruned", "selfadjointView", "derived"):
            return o
        if name in ("setIdentity",):
            o.d = {(i, i): Cell(ONE) for i in range(min(o.rows, o.cols))}
            o.cap = None
            return None
        if name in ("squaredNorm", "norm", "sum"):
            t = ZERO
            for c in o.d.values():
                t = t + (self.to_poly(c.v) if name == "sum" else self.to_poly(c.v) * self.to_poly(c.v))
            return al.sqrt(t) if name == "norm" else t
        if name == "diagonal" and all((i, i) in o.d for i in range(min(o.rows, o.cols))):
            n = min(o.rows, o.cols)
            return Mat(n, 1, [o.d[(i, i)] for i in range(n)], -1, 1, False)
        if name == "toDense":
            return self.newmat(o.rows, o.cols, [o.d[(i, j)].v if (i, j) in o.d else ZERO for i in range(o.rows) for j in range(o.cols)])
        hk = self.hooks.get("method:Sparse")
        if hk:
            return hk(self, o, name, vs, e)
        return Opaque("sparse." + name, [o] + vs)


def explore(run, max_paths=200):
    """run(path) for every trace; returns list of (path, result, error)"""
    work = [[]]
    out = []
    n = 0
    while work:
        pre = work.pop()
        n += 1
        if n > max_paths:
            out.append((None, None, Unsupported("path budget")))
            break
        p = Path(pre)
        try:
            r = run(p)
            out.append((p, r, None))
        except PathEnd:
            out.append((p, None, None))
        except (Unsupported, UB, Throw, al.TooBig) as ex:
            out.append((p, None, ex))
            p.error = ex
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError, AssertionError, _Goto) as ex:
            # a construct the abstract semantics does not describe: the trace is not judged
            import os
            if os.environ.get("FACTORAMA_DEBUG"):
                raise
            err = Unsupported("construct outside the abstract semantics (%s: %s)" % (type(ex).__name__, str(ex)[:80]))
            out.append((p, None, err))
            p.error = err
        work.extend(p.alts)
    return out
