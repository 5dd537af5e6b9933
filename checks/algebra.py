"""Value-numbering domain: every scalar the code computes is an exact multivariate (Laurent) polynomial over hash-consed
atoms.  Composite atoms (square roots, reciprocals of sums, sines, cosines, arc tangents, rotation matrices, rotation
logarithms) carry their defining relation, so that syntactically different computations of the same value get the same
normal form.  No floating point number is evaluated and no solver is used: equality is decided by rewriting."""
from fractions import Fraction as Fr
import math

PI = Fr("3.14159265358979323846")


class TooBig(Exception):
    pass


MAXTERMS = 60000


class Atom:
    __slots__ = ("id", "kind", "name", "args", "extra")

    def __init__(self, id, kind, name, args=(), extra=None):
        self.id, self.kind, self.name, self.args, self.extra = id, kind, name, args, extra


class Ctx:
    """All atoms of one analysis scenario."""

    def __init__(self):
        self.atoms = []
        self.key = {}
        self.sq = {}        # atom id -> Poly: value of its square
        self.pos = set()    # atoms known positive
        self.letters = []   # (name, [9 ids], omega polys or None)
        self.wordtab = {}   # tuple of 9 polys -> word
        self.wentries = {}  # word -> 9 polys
        self.logs = {}
        self.logids = {}    # atom id -> (word, index)
        self.ji = {}
        self.jiids = {}
        self.letterof = {}  # atom id -> (letter, index)
        self.expkey = {}
        self.trigunits = {}  # mono -> list of units
        self.trig = {}       # (mono, unit) -> (sin id, cos id)
        self.quat = {}
        self.trigid = {}     # atom id -> (mono, unit, 's'/'c')

    def new(self, kind, name, args=(), extra=None):
        a = Atom(len(self.atoms), kind, name, args, extra)
        self.atoms.append(a)
        return a.id


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c
    return c


def _mmul(a, b):
    """merge two monomials"""
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None

    # construction
    @staticmethod
    def const(c):
        c = Fr(c)
        return Poly({(): c}) if c else Poly()

    @staticmethod
    def atom(i, e=1):
        return Poly({((i, e),): Fr(1)})

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fr(0))

    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        if len(self.t) < len(o.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = Fr(c)
        if not c:
            return Poly()
        return Poly({m: k * c for m, k in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return Poly()
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        sq = CTX.sq
        r = {}
        hard = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mmul(m1, m2)
                bad = False
                for (i, e) in m:
                    if e >= 2 and i in sq:
                        bad = True
                        break
                if bad:
                    hard.append((m, c1 * c2))
                    continue
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    del r[m]
            if len(r) > MAXTERMS:
                raise TooBig()
        res = Poly(r)
        if hard:
            # group by the reduced part so that the rules are expanded once per distinct power product
            groups = {}
            for m, c in hard:
                low, pw = [], []
                for (i, e) in m:
                    if e >= 2 and i in sq:
                        pw.append((i, e // 2))
                        if e % 2:
                            low.append((i, 1))
                    else:
                        low.append((i, e))
                g = groups.setdefault(tuple(pw), {})
                k = tuple(low)
                g[k] = g.get(k, 0) + c
            for pw, g in groups.items():
                p = Poly({k: c for k, c in g.items() if c})
                for i, e in pw:
                    for _ in range(e):
                        p = p * sq[i]
                res = res + p
        if len(res.t) > MAXTERMS:
            raise TooBig()
        return res

    def __pow__(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for i, e in m:
                s.add(i)
        return s

    def __repr__(self):
        return pstr(self)


def pstr(p, limit=8):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: x[0])[:limit]:
        s = ""
        for i, e in m:
            s += ("*" if s else "") + aname(i) + ("^%d" % e if e != 1 else "")
        if not s:
            s = str(c) if c.denominator < 10 ** 6 else "%g" % float(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = (str(c) if c.denominator < 10 ** 6 else "%g" % float(c)) + "*" + s
        out.append(s)
    r = " + ".join(out)
    if len(p.t) > limit:
        r += " + ...(%d terms)" % len(p.t)
    return r.replace("+ -", "- ")


def aname(i, depth=0):
    a = CTX.atoms[i]
    if a.kind in ("sqrt", "den", "fn") and depth < 2:
        return "%s(%s)" % ({"sqrt": "sqrt", "den": "", "fn": a.name}[a.kind], ", ".join(pstr(x, 4) for x in a.args))
    return a.name


ZERO = Poly()
ONE = Poly.const(1)


def C(c):
    return Poly.const(c)


def sym(name, pos=False, kind="sym", unique=True):
    i = CTX.new(kind, name)
    if pos:
        CTX.pos.add(i)
    return Poly.atom(i)


def content(p):
    """p = c * mono * q with q primitive (leading coefficient positive rational 1 for the smallest monomial)"""
    ms = list(p.t)
    common = {}
    first = True
    for m in ms:
        d = dict(m)
        if first:
            common = d
            first = False
        else:
            for k in list(common):
                if k in d:
                    common[k] = min(common[k], d[k])
                else:
                    common[k] = min(common[k], 0)
            for k, e in d.items():
                if k not in common and e < 0:
                    common[k] = e
    mono = tuple(sorted((k, e) for k, e in common.items() if e))
    inv = tuple((k, -e) for k, e in mono)
    q = {}
    for m, c in p.t.items():
        q[_mmul(m, inv)] = c
    g = Fr(0)
    for c in q.values():
        g = Fr(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator) if g else abs(c)
    lead = min(q)
    if q[lead] < 0:
        g = -g
    q = {m: c / g for m, c in q.items()}
    return g, mono, Poly(q)


def monop(mono, c=1):
    return Poly({mono: Fr(c)})


def _find(kind, name, args, positive=False):
    """existing atom of this kind with semantically equal arguments"""
    k = (kind, name, tuple(args))
    i = CTX.key.get(k)
    if i is not None:
        return i
    for (kk, nn, aa), j in list(CTX.key.items()):
        if kk == kind and nn == name and len(aa) == len(args) and all(_alike(x, y) for x, y in zip(aa, args)):
            CTX.key[k] = j
            return j
    i = CTX.new(kind, name or kind, tuple(args))
    CTX.key[k] = i
    if positive:
        CTX.pos.add(i)
    return i


def _base(i, seen=None):
    """all atoms an atom depends on (including itself)"""
    out = {i}
    a = CTX.atoms[i]
    for p in a.args:
        for j in p.atoms():
            out |= _base(j)
    return out


def _alike(p, q):
    if p == q:
        return True
    d = p - q
    try:
        return is_zero(d) is True
    except TooBig:
        return False


def cancel(p):
    """P * D^-1 -> 1 for reciprocal and square-root atoms"""
    for _ in range(4):
        ids = sorted({i for m in p.t for i, e in m if e < 0 and (CTX.atoms[i].kind == "den" or (CTX.atoms[i].kind == "sqrt" and e <= -2))}, reverse=True)
        done = True
        for i in ids:
            a = CTX.atoms[i]
            step = 1 if a.kind == "den" else 2
            P = a.args[0]
            byexp = {}
            for m, c in p.t.items():
                e = dict(m).get(i, 0)
                byexp.setdefault(e, {})[tuple(x for x in m if x[0] != i)] = c
            changed = False
            for e in sorted(byexp):
                if e > -step:
                    continue
                cf = Poly(byexp[e])
                q = _exactdiv(cf, P)
                if q is not None:
                    del byexp[e]
                    new = byexp.setdefault(e + step, {})
                    s = Poly(new) + q
                    byexp[e + step] = s.t
                    changed = True
            if changed:
                r = ZERO
                for e, tt in byexp.items():
                    r = r + Poly(tt) * (Poly.atom(i, e) if e else ONE)
                p = r
                done = False
        if done:
            return p
    return p


def _exactdiv(p, q):
    """p / q when q divides p by a short quotient, else None"""
    if not p.t:
        return None
    if len(p.t) < len(q.t):
        return None
    lead = min(q.t)
    li = tuple((k, -e) for k, e in lead)
    quo = ZERO
    rem = p
    for _ in range(12):
        if not rem.t:
            return quo
        # choose a term of rem divisible by the leading term such that all products cancel
        best = None
        for m in sorted(rem.t):
            t = _mmul(m, li)
            if any(e < 0 for _, e in t):
                continue
            cand = Poly({t: rem.t[m] / q.t[lead]})
            nr = rem - cand * q
            if len(nr.t) < len(rem.t) and (best is None or len(nr.t) < len(best[1].t)):
                best = (cand, nr)
        if best is None:
            return None
        quo, rem = quo + best[0], best[1]
    return None


def inv(p):
    if not p.t:
        return None
    p = cancel(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Poly({tuple((k, -e) for k, e in m): 1 / c})
    c, mono, q = content(p)
    if len(q.t) == 1:
        (m2, c2), = q.t.items()
        return Poly({tuple((k, -e) for k, e in _mmul(mono, m2)): 1 / (c * c2)})
    # the reciprocal of a square root's square or of an existing sum
    i = _find("den", "", [q], positive_sum(q))
    return Poly({_mmul(tuple((k, -e) for k, e in mono), ((i, -1),)): 1 / c})


def positive_sum(q):
    return bool(q.t) and all(c > 0 and all(e % 2 == 0 or i in CTX.pos for i, e in m) for m, c in q.t.items())


def div(a, b):
    r = inv(b)
    if r is None:
        return None
    return cancel(a * r) if len(a.t) * len(r.t) > 1 else a * r


def _isqrt(fr):
    n, d = fr.numerator, fr.denominator
    if n < 0:
        return None
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fr(a, b)
    return None


def sqrt(p):
    """non-negative square root"""
    p = cancel(p)
    if not p.t:
        return ZERO
    if p.is_const():
        r = _isqrt(p.cval())
        if r is not None:
            return C(r)
        i = _find("sqrt", "", [p], True)
        CTX.sq[i] = p
        return Poly.atom(i)
    c, mono, q = content(p)
    out = ONE
    rest = []
    for k, e in mono:
        if k in CTX.pos and e % 2 == 0:
            out = out * Poly.atom(k, e // 2)
        elif k in CTX.pos:
            out = out * (Poly.atom(k, (e - 1) // 2) if e != 1 else ONE)
            rest.append((k, 1))
        else:
            rest.append((k, e))
    if c > 0:
        r = _isqrt(c)
        if r is not None:
            out = out.scale(r)
            c = Fr(1)
    q = monop(tuple(rest), c) * q if (rest or c != 1) else q
    if q.is_const() and q.cval() == 1:
        return out
    z = is_zero(q - ONE)
    if z is True:
        return out
    i = _find("sqrt", "", [q], True)
    CTX.sq.setdefault(i, CTX.atoms[i].args[0])
    return out * Poly.atom(i)


def fn(name, args, pos=False):
    return Poly.atom(_find("fn", name, args, pos))


# ---- trigonometry -----------------------------------------------------------------------------------------------
def _trig_pair(mono, unit):
    k = (mono, unit)
    if k in CTX.trig:
        s, c = CTX.trig[k]
        return Poly.atom(s), Poly.atom(c)
    nm = pstr(Poly({mono: unit}))
    c = CTX.new("cos", "cos(%s)" % nm, (Poly({mono: unit}),))
    s = CTX.new("sin", "sin(%s)" % nm, (Poly({mono: unit}),))
    CTX.trig[k] = (s, c)
    CTX.trigid[s] = (mono, unit, "s")
    CTX.trigid[c] = (mono, unit, "c")
    CTX.trigunits.setdefault(mono, []).append(unit)
    CTX.sq[s] = ONE - Poly.atom(c) * Poly.atom(c)
    return Poly.atom(s), Poly.atom(c)


def _multiple(s, c, k):
    if k < 0:
        a, b = _multiple(s, c, -k)
        return -a, b
    S, Cc = ZERO, ONE
    for _ in range(k):
        S, Cc = S * c + Cc * s, Cc * c - S * s
    return S, Cc


def sincos(p):
    p = cancel(p)
    S, Cc = ZERO, ONE
    for m, co in sorted(p.t.items()):
        if m == ():
            q = co / (PI / 2)
            if abs(q - round(q)) < Fr(1, 10 ** 12):
                k = round(q) % 4
                s, c = [(ZERO, ONE), (ONE, ZERO), (ZERO, -ONE), (-ONE, ZERO)][k]
            else:
                s, c = _trig_pair((), abs(co))
                if co < 0:
                    s = -s
        else:
            done = False
            if len(m) == 1 and m[0][1] == 1 and CTX.atoms[m[0][0]].kind == "fn" and co.denominator == 1:
                a = CTX.atoms[m[0][0]]
                if a.name == "atan2":
                    y, x = a.args
                    h = sqrt(y * y + x * x)
                    ih = inv(h)
                    s, c = _multiple(cancel(y * ih), cancel(x * ih), int(co))
                    done = True
                elif a.name == "acos":
                    x = a.args[0]
                    s, c = _multiple(sqrt(ONE - x * x), x, int(co))
                    done = True
                elif a.name == "asin":
                    x = a.args[0]
                    s, c = _multiple(x, sqrt(ONE - x * x), int(co))
                    done = True
                elif a.name == "remainder" and a.args[1] == C(2 * PI):
                    s, c = sincos(a.args[0].scale(co))
                    done = True
                elif a.name == "round" or a.name == "floor":
                    done = False
            if not done and len(m) >= 1 and abs(co / (2 * PI) - round(co / (2 * PI))) < Fr(1, 10 ** 12) and all(CTX.atoms[i].kind == "fn" and CTX.atoms[i].name in ("floor", "round", "ceil", "trunc") for i, e in m):
                s, c = ZERO, ONE   # whole turns
                done = True
            if not done:
                units = CTX.trigunits.get(m, [])
                use = None
                for u in units:
                    if (co / u).denominator == 1:
                        use = u
                        break
                if use is None:
                    use = abs(co)
                s0, c0 = _trig_pair(m, use)
                s, c = _multiple(s0, c0, int(co / use))
        S, Cc = S * c + Cc * s, Cc * c - S * s
    return S, Cc


def sin(p):
    return sincos(p)[0]


def cos(p):
    return sincos(p)[1]


def tan(p):
    s, c = sincos(p)
    return div(s, c)


def atan2(y, x):
    y, x = cancel(y), cancel(x)
    if not y.t and x.is_const():
        return ZERO if x.cval() >= 0 else C(PI)
    # pull out a common positive factor
    t = {}
    if y.t or x.t:
        allm = list(y.t) + list(x.t)
        common = None
        for m in allm:
            d = {k: e for k, e in m if k in CTX.pos}
            if common is None:
                common = dict(d)
            else:
                for k in set(common) | set(d):
                    common[k] = min(common.get(k, 0), d.get(k, 0))
        mono = tuple(sorted((k, -e) for k, e in common.items() if e))
        if mono:
            y, x = y * monop(mono), x * monop(mono)
        g = Fr(0)
        for c in list(y.t.values()) + list(x.t.values()):
            g = Fr(math.gcd(g.numerator * c.denominator, abs(c.numerator) * g.denominator), g.denominator * c.denominator) if g else abs(c)
        if g and g != 1:
            y, x = y.scale(1 / g), x.scale(1 / g)
    return fn("atan2", [y, x])


# ---- rotations ----------------------------------------------------------------------------------------------------
def wreduce(w):
    out = []
    for l, s in w:
        if out and out[-1][0] == l and out[-1][1] == -s:
            out.pop()
        else:
            out.append((l, s))
    return tuple(out)


def winv(w):
    return tuple((l, -s) for l, s in reversed(w))


def new_letter(name, omega=None):
    ids = []
    k = len(CTX.letters)
    for i in range(3):
        for j in range(3):
            a = CTX.new("rot", "%s%d%d" % (name, i + 1, j + 1))
            CTX.letterof[a] = (k, i * 3 + j)
            ids.append(a)
    CTX.letters.append((name, ids, omega))
    word_entries(((k, 1),))
    word_entries(((k, -1),))
    return k


def matmul3(a, b, n=3, k=3, m=3):
    r = []
    for i in range(n):
        for j in range(m):
            s = ZERO
            for q in range(k):
                s = s + a[i * k + q] * b[q * m + j]
            r.append(s)
    return r


def word_entries(w):
    w = wreduce(w)
    if w in CTX.wentries:
        return CTX.wentries[w]
    if not w:
        e = [ONE if i == j else ZERO for i in range(3) for j in range(3)]
    elif len(w) == 1:
        l, s = w[0]
        ids = CTX.letters[l][1]
        e = [Poly.atom(ids[i * 3 + j]) if s > 0 else Poly.atom(ids[j * 3 + i]) for i in range(3) for j in range(3)]
    else:
        e = matmul3(word_entries(w[:-1]), word_entries(w[-1:]))
    CTX.wentries[w] = e
    CTX.wordtab.setdefault(tuple(e), w)
    return e


def word_of(entries):
    word_entries(())
    return CTX.wordtab.get(tuple(entries))


def log_atoms(w):
    w = wreduce(w)
    if not w:
        return [ZERO] * 3
    if len(w) == 1:
        l, s = w[0]
        om = CTX.letters[l][2]
        if om is not None:
            return [o.scale(s) for o in om]
    wi = winv(w)
    neg = False
    if wi < w:
        w, neg = wi, True
    if w not in CTX.logs:
        ids = []
        nm = "*".join(CTX.letters[l][0] + ("" if s > 0 else "'") for l, s in w)
        for i in range(3):
            a = CTX.new("log", "Log(%s)[%d]" % (nm, i))
            CTX.logids[a] = (w, i)
            ids.append(a)
        CTX.logs[w] = ids
    r = [Poly.atom(i) for i in CTX.logs[w]]
    return [-x for x in r] if neg else r


def vec_is_log(v):
    """word whose logarithm the vector is, or None"""
    if all(not x.t for x in v):
        return ()
    for l, (nm, ids, om) in enumerate(CTX.letters):
        if om is not None:
            if all(a == b for a, b in zip(om, v)) or all(_alike(a, b) for a, b in zip(om, v)):
                return ((l, 1),)
            if all(a == -b for a, b in zip(om, v)):
                return ((l, -1),)
    for w, ids in CTX.logs.items():
        at = [Poly.atom(i) for i in ids]
        if at == list(v):
            return w
        if [-x for x in at] == list(v):
            return winv(w)
    return None


def exp_word(v, name=None):
    v = [cancel(x) for x in v]
    w = vec_is_log(v)
    if w is not None:
        return w
    k = new_letter(name or "Exp%d" % len(CTX.letters), list(v))
    return ((k, 1),)


def ji_atoms(w):
    """entries of the inverse left Jacobian of SO(3) at Log(w)"""
    w = wreduce(w)
    wi = winv(w)
    tr = False
    if wi < w:
        w, tr = wi, True
    if w not in CTX.ji:
        nm = "*".join(CTX.letters[l][0] + ("" if s > 0 else "'") for l, s in w)
        ids = []
        for i in range(9):
            a = CTX.new("ji", "Jlinv(%s)%d%d" % (nm, i // 3 + 1, i % 3 + 1))
            CTX.jiids[a] = (w, i)
            ids.append(a)
        CTX.ji[w] = ids
    ids = CTX.ji[w]
    e = [Poly.atom(i) for i in ids]
    if tr:
        e = [e[(i % 3) * 3 + i // 3] for i in range(9)]
    return e


# ---- zero test ----------------------------------------------------------------------------------------------------
def clear_neg(p):
    need = {}
    for m in p.t:
        for i, e in m:
            if e < 0:
                need[i] = min(need.get(i, 0), e)
    for i, e in sorted(need.items()):
        p = p * Poly.atom(i, -e) if i not in CTX.sq else _mulpow(p, i, -e)
    return p


def _mulpow(p, i, e):
    # multiply a polynomial with negative powers of i by i**e without reducing before the powers cancel
    r = {}
    hard = ZERO
    for m, c in p.t.items():
        m2 = _mmul(m, ((i, e),))
        ex = dict(m2).get(i, 0)
        if ex >= 2:
            low = tuple(x for x in m2 if x[0] != i)
            if ex % 2:
                low = _mmul(low, ((i, 1),))
            q = Poly({low: c})
            for _ in range(ex // 2):
                q = q * CTX.sq[i]
            hard = hard + q
        else:
            r[m2] = r.get(m2, 0) + c
    return Poly({m: c for m, c in r.items() if c}) + hard


def _split(p, i):
    """coefficients of the powers of atom i"""
    out = {}
    for m, c in p.t.items():
        e = 0
        rest = []
        for k, x in m:
            if k == i:
                e = x
            else:
                rest.append((k, x))
        d = out.setdefault(e, {})
        d[tuple(rest)] = c
    return {e: Poly(d) for e, d in out.items()}


def _unify_trig(p):
    monos = {}
    for i in p.atoms():
        if i in CTX.trigid:
            m, u, k = CTX.trigid[i]
            monos.setdefault(m, set()).add(u)
    mp = {}
    for m, us in monos.items():
        if len(us) < 2:
            continue
        g = None
        for u in us:
            g = u if g is None else Fr(math.gcd(g.numerator * u.denominator, u.numerator * g.denominator), g.denominator * u.denominator)
        for u in us:
            if u != g:
                s0, c0 = _trig_pair(m, g)
                s, c = _multiple(s0, c0, int(u / g))
                mp[CTX.trig[(m, u)][0]] = s
                mp[CTX.trig[(m, u)][1]] = c
    return replace(p, mp) if mp else p


def replace(p, mp):
    """substitute atoms (non-negative powers only for the substituted ones unless the image is invertible)"""
    r = ZERO
    cache = {}
    for m, c in p.t.items():
        keep = []
        q = None
        for i, e in m:
            if i in mp:
                k = (i, e)
                if k not in cache:
                    b = mp[i]
                    if e < 0:
                        bi = inv(b)
                        if bi is None:
                            raise ZeroDivisionError()
                        cache[k] = bi ** (-e)
                    else:
                        cache[k] = b ** e
                q = cache[k] if q is None else q * cache[k]
            else:
                keep.append((i, e))
        t = Poly({tuple(keep): c})
        r = r + (t if q is None else t * q)
    return r


def _quat(l):
    """entries of letter l as quadratic forms of a unit quaternion"""
    k = l
    if k not in CTX.quat:
        x, y, z, w = [CTX.new("q", "q%d%s" % (l, s)) for s in "xyzw"]
        CTX.quat[k] = (x, y, z, w)
        X, Y, Z = Poly.atom(x), Poly.atom(y), Poly.atom(z)
        CTX.sq[w] = ONE - X * X - Y * Y - Z * Z
    x, y, z, w = [Poly.atom(i) for i in CTX.quat[k]]
    two = C(2)
    return [ONE - two * (y * y + z * z), two * (x * y - w * z), two * (x * z + w * y),
            two * (x * y + w * z), ONE - two * (x * x + z * z), two * (y * z - w * x),
            two * (x * z - w * y), two * (y * z + w * x), ONE - two * (x * x + y * y)]


def is_zero(p, depth=0):
    """True / False / None (cannot tell)"""
    if not p.t:
        return True
    if p.is_const():
        return False
    kinds = {CTX.atoms[i].kind for i in p.atoms()}
    if "top" in kinds:
        return None
    if depth > 60:
        return None
    p = clear_neg(p)
    if not p.t:
        return True
    p = _unify_trig(p)
    if not p.t:
        return True
    comp = [i for i in p.atoms() if CTX.atoms[i].kind in ("den", "sqrt", "sin", "cos")]
    comp = [i for i in comp if CTX.atoms[i].kind in ("den", "sqrt")] or []
    if comp:
        i = max(comp)
        a = CTX.atoms[i]
        if a.kind == "den":
            q = replace(p, {i: a.args[0]})
            return is_zero(q, depth + 1)
        parts = _split(p, i)
        A, B = parts.get(0, ZERO), parts.get(1, ZERO)
        if any(e not in (0, 1) for e in parts):
            return None
        za = is_zero(A, depth + 1)
        zb = is_zero(B, depth + 1)
        if za is True:
            return zb
        if zb is True:
            return za
        if za is None or zb is None:
            return None
        return False
    # rotation entries: orthogonality
    letters = {}
    for m in p.t:
        cnt = {}
        for i, e in m:
            if i in CTX.letterof:
                l = CTX.letterof[i][0]
                cnt[l] = cnt.get(l, 0) + e
        for l, n in cnt.items():
            letters[l] = max(letters.get(l, 0), n)
    if letters and max(letters.values()) >= 2:
        mp = {}
        for l in letters:
            ids = CTX.letters[l][1]
            for i, q in zip(ids, _quat(l)):
                mp[i] = q
        q = replace(p, mp)
        return not q.t
    return False


def equal(p, q):
    return is_zero(p - q)


# ---- derivative ---------------------------------------------------------------------------------------------------
class Seeds:
    """direction of differentiation: plain atoms -> Poly, rotation letters -> left angular velocity (3 Polys)"""

    def __init__(self, atoms=None, letters=None, logform=0):
        self.a = atoms or {}
        self.l = letters or {}
        self.logform = logform
        self.memo = {}
        self.opaque = False


def top(why="?"):
    return sym("TOP(%s)" % why, kind="top")


def skewmul(w, col):
    return [w[1] * col[2] - w[2] * col[1], w[2] * col[0] - w[0] * col[2], w[0] * col[1] - w[1] * col[0]]


def letter_omega(l, sd):
    if l in sd.l:
        return sd.l[l]
    om = CTX.letters[l][2]
    if om is None:
        return [ZERO] * 3
    d = [deriv(o, sd) for o in om]
    if all(not x.t for x in d):
        return [ZERO] * 3
    return None


def word_omega(w, sd):
    tot = [ZERO] * 3
    for k, (l, s) in enumerate(w):
        o = letter_omega(l, sd)
        if o is None:
            return None
        if all(not x.t for x in o):
            continue
        if s < 0:
            e = word_entries(((l, -1),))
            o = [-x for x in matmul3(e, o, 3, 3, 1)]
        if k:
            o = matmul3(word_entries(w[:k]), o, 3, 3, 1)
        tot = [a + b for a, b in zip(tot, o)]
    return tot


def atom_deriv(i, sd):
    if i in sd.memo:
        return sd.memo[i]
    a = CTX.atoms[i]
    if i in sd.a:
        r = sd.a[i]
    elif a.kind == "rot":
        l, k = CTX.letterof[i]
        o = letter_omega(l, sd)
        if o is None:
            sd.opaque = True
            r = top("d" + a.name)
        elif all(not x.t for x in o):
            r = ZERO
        else:
            e = word_entries(((l, 1),))
            col = [e[0 + k % 3], e[3 + k % 3], e[6 + k % 3]]
            r = skewmul(o, col)[k // 3]
    elif a.kind == "sqrt":
        d = deriv(a.args[0], sd)
        r = d.scale(Fr(1, 2)) * Poly.atom(i, -1) if d.t else ZERO
    elif a.kind == "den":
        r = deriv(a.args[0], sd)
    elif a.kind in ("sin", "cos"):
        d = deriv(a.args[0], sd)
        if not d.t:
            r = ZERO
        else:
            m, u, k = CTX.trigid[i]
            s, c = CTX.trig[(m, u)]
            r = d * Poly.atom(c) if k == "s" else -(d * Poly.atom(s))
    elif a.kind == "fn":
        ds = [deriv(x, sd) for x in a.args]
        if all(not d.t for d in ds):
            r = ZERO
        elif a.name == "atan2":
            y, x = a.args
            den = inv(x * x + y * y)
            r = cancel((x * ds[0] - y * ds[1]) * den)
        elif a.name == "acos":
            x = a.args[0]
            r = -(ds[0] * inv(sqrt(ONE - x * x)))
        elif a.name == "asin":
            x = a.args[0]
            r = ds[0] * inv(sqrt(ONE - x * x))
        elif a.name == "remainder" or a.name == "fmod":
            r = ds[0] if not ds[1].t else top("d" + a.name)
        elif a.name in ("floor", "ceil", "round", "trunc"):
            r = ZERO
        elif a.name == "exp":
            r = ds[0] * Poly.atom(i)
        elif a.name == "log":
            r = div(ds[0], a.args[0])
        else:
            sd.opaque = True
            r = top("d" + a.name)
    elif a.kind == "log":
        w, k = CTX.logids[i]
        o = word_omega(w, sd)
        if o is None:
            sd.opaque = True
            r = top("d" + a.name)
        elif all(not x.t for x in o):
            r = ZERO
        else:
            J = ji_atoms(w)
            if sd.logform == 1:
                o = matmul3(word_entries(winv(w)), o, 3, 3, 1)
                J = [J[(q % 3) * 3 + q // 3] for q in range(9)]
            r = J[k * 3] * o[0] + J[k * 3 + 1] * o[1] + J[k * 3 + 2] * o[2]
    elif a.kind == "ji":
        w, k = CTX.jiids[i]
        o = word_omega(w, sd)
        if o is not None and all(not x.t for x in o):
            r = ZERO
        else:
            sd.opaque = True
            r = top("d" + a.name)
    else:
        r = ZERO
    sd.memo[i] = r
    return r


def deriv(p, sd):
    by = {}
    for m, c in p.t.items():
        for k, (i, e) in enumerate(m):
            rest = m[:k] + (((i, e - 1),) if e != 1 else ()) + m[k + 1:]
            d = by.setdefault(i, {})
            d[rest] = d.get(rest, 0) + c * e
    r = ZERO
    for i, d in by.items():
        da = atom_deriv(i, sd)
        if da.t:
            r = r + Poly({m: c for m, c in d.items() if c}) * da
    return r


def depends(p, ids, memo=None):
    """does the polynomial mention one of the atoms, also inside composite atoms"""
    memo = {} if memo is None else memo

    def dep(i):
        if i in memo:
            return memo[i]
        memo[i] = False
        a = CTX.atoms[i]
        r = i in ids
        if not r:
            for q in a.args:
                if any(dep(j) for j in q.atoms()):
                    r = True
                    break
        if not r and i in CTX.letterof:
            l = CTX.letterof[i][0]
            r = ("letter", l) in ids or any(any(dep(j) for j in q.atoms()) for q in (CTX.letters[l][2] or []))
        if not r and (i in CTX.logids or i in CTX.jiids):
            w = (CTX.logids.get(i) or CTX.jiids.get(i))[0]
            for l, s in w:
                if ("letter", l) in ids or any(any(dep(j) for j in q.atoms()) for q in (CTX.letters[l][2] or [])):
                    r = True
        memo[i] = r
        return r
    return any(dep(i) for i in p.atoms())


def has_kind(p, kind, memo=None):
    """does an atom of this kind occur, also inside composite atoms"""
    memo = {} if memo is None else memo

    def go(i):
        if i not in memo:
            memo[i] = False
            a = CTX.atoms[i]
            memo[i] = a.kind == kind or any(go(j) for q in a.args if isinstance(q, Poly) for j in q.atoms())
        return memo[i]
    return any(go(i) for i in p.atoms())


def substitute(p, mp, letters=None):
    """rebuild p with plain atoms replaced (mp: atom id -> Poly) and rotation letters replaced by words"""
    letters = letters or {}
    memo = {}

    def at(i):
        if i in memo:
            return memo[i]
        a = CTX.atoms[i]
        if i in mp:
            r = mp[i]
        elif a.kind == "rot":
            l, k = CTX.letterof[i]
            w = lw(l)
            r = Poly.atom(i) if w == ((l, 1),) else word_entries(w)[k]
        elif a.kind == "sqrt":
            r = sqrt(go(a.args[0]))
        elif a.kind == "den":
            r = go(a.args[0])
        elif a.kind in ("sin", "cos"):
            s, c = sincos(go(a.args[0]))
            r = s if a.kind == "sin" else c
        elif a.kind == "fn":
            if a.name == "atan2":
                r = atan2(*[go(x) for x in a.args])
            else:
                r = fn(a.name, [go(x) for x in a.args])
        elif a.kind == "log":
            w, k = CTX.logids[i]
            r = log_atoms(sw(w))[k]
        elif a.kind == "ji":
            w, k = CTX.jiids[i]
            r = ji_atoms(sw(w))[k]
        else:
            r = Poly.atom(i)
        memo[i] = r
        return r

    def lw(l):
        if l in letters:
            return letters[l]
        om = CTX.letters[l][2]
        if om is not None:
            new = [go(x) for x in om]
            if new != om:
                return exp_word(new)
        return ((l, 1),)

    def sw(w):
        out = ()
        for l, s in w:
            x = lw(l)
            out = out + (x if s > 0 else winv(x))
        return wreduce(out)

    def go(q):
        mm = {}
        for i in q.atoms():
            v = at(i)
            if not (len(v.t) == 1 and v == Poly.atom(i)):
                mm[i] = v
        return cancel(replace(q, mm)) if mm else q
    return go(p)
