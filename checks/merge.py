"""State merging at loop heads: turns the trace exploration into a fixpoint computation.  At the head of a loop whose body took
decisions, values that keep changing from visit to visit are replaced by fresh value numbers (widening; sign facts against the
given anchors are kept), the whole reachable state is printed up to renaming of value numbers, and a state that was already
explored ends the trace."""
import algebra as al, interp as I
from algebra import Poly, C
from interp import Cell, Mat, Obj, Vec, Map, Sparse, Str, Opaque, Iter, Lambda, PathEnd


class _Unknown(Exception):
    pass


def known_sign(it, d):
    """sign of d when already decided on this trace, else None"""
    d = al.cancel(d)
    saved = it.path.choose

    def no(*a):
        raise _Unknown()
    it.path.choose = no
    try:
        return it.sign(d)
    except _Unknown:
        return implied(it, d)
    finally:
        it.path.choose = saved


def implied(it, d):
    """sign of d as a positive multiple of something decided plus terms of the same sign"""
    for q, s in it.path.signs.items():
        for m, c in q.t.items():
            if m not in d.t:
                continue
            k = d.t[m] / c
            rest = d - q.scale(k)
            sq = s if k > 0 else -s
            if not rest.t:
                return sq
            sr = 1 if al.positive_sum(rest) else -1 if al.positive_sum(-rest) else 0
            if sr and sq in (0, sr):
                return sr
    return None


def assume(it, d, s):
    saved = it.path.choose
    for k in range(3):
        it.path.choose = lambda n, order=None, k=k: k
        before = set(it.path.signs)
        try:
            r = it.sign(d)
        finally:
            it.path.choose = saved
        new = [q for q in it.path.signs if q not in before]
        if new:
            it.path.log.pop()
        if r == s:
            return True
        for q in new:
            del it.path.signs[q]
        if not new:
            return False
    return False


class Merger:
    def __init__(self, roots, world, where=lambda f: True, seen=None, blocked=lambda: False):
        self.roots = roots            # () -> list of values
        self.w = world
        self.where = where
        self.blocked = blocked        # () -> True while states must not be joined
        self.seen = seen if seen is not None else set()
        self.prev = {}
        self.fresh = 0
        self.visits = 0
        self.at_merge = None
        self.widened = 0

    # --- traversal
    def cells(self, it, skip):
        """(label, cell) of every reachable scalar cell and the structural tokens"""
        out, tok, memo = [], [], {}

        def go(v, path):
            if isinstance(v, Cell):
                k = id(v)
                if k in memo:
                    tok.append(("ref", memo[k]))
                    return
                memo[k] = len(memo)
                x = v.v
                if isinstance(x, Poly) or (isinstance(x, int) and not isinstance(x, bool)):
                    out.append((path, v))
                    tok.append(len(out) - 1)
                    return
                go(x, path)
                return
            if v is None or isinstance(v, (bool, str, int)):
                tok.append(v)
                return
            if isinstance(v, Poly):
                raise I.Unsupported("loose value in state")
            k = id(v)
            if k in memo:
                tok.append(("ref", memo[k]))
                return
            memo[k] = len(memo)
            keepalive.append(v)
            if isinstance(v, Mat):
                tok.append(("mat", v.rows, v.cols))
                for n, c in enumerate(v.cells):
                    go(c, path + (n,))
            elif isinstance(v, Vec):
                tok.append(("vec", len(v.c)))
                for n, c in enumerate(v.c):
                    go(c, path + (n,))
            elif isinstance(v, Map):
                tok.append(("map", tuple(map(repr, v.d))))
                for n, c in v.d.items():
                    go(c, path + (repr(n),))
            elif isinstance(v, Sparse):
                ks = sorted(v.d)
                tok.append(("sp", v.rows, v.cols, tuple(ks), repr(v.cap)))
                for n in ks:
                    go(v.d[n], path + (n,))
            elif isinstance(v, Obj):
                t = v.tag
                tok.append(("obj", v.cls, getattr(t, "name", None), getattr(t, "const", None)))
                if getattr(t, "val", None) is not None:
                    go(t.val, path + ("val",))
                for n in sorted(v.f):
                    go(v.f[n], path + (n,))
            elif isinstance(v, Opaque):
                tok.append(("opaque", v.tag))
                st = getattr(v.data, "state", None)
                if st:
                    for n, x in enumerate(st()):
                        go(x, path + (n,))
            elif isinstance(v, Str):
                tok.append(("str", v.s))
            elif isinstance(v, (Iter,)):
                tok.append(("iter", repr(v.i)))
            elif isinstance(v, Lambda):
                tok.append(("lambda",))
            elif isinstance(v, (list, tuple)):
                tok.append(("list", len(v)))
                for n, x in enumerate(v):
                    go(x, path + (n,))
            else:
                tok.append(type(v).__name__)
        keepalive = []
        for n, r in enumerate(self.roots()):
            go(r, (n,))
        for d, (f, env) in enumerate(it.frames):
            for k in sorted(env, key=str):
                if k in skip:
                    continue
                tok.append(("local", d, k))
                go(env[k], ("env", d, k))
        return out, tok

    # --- hook
    def hook(self, it, s, env, this, n):
        if not self.where(it.curfn or {}) or self.blocked():
            return
        key = (id(s), len(it.frames))
        if n < 8 and not it.loop_symbolic.get(key, False) and self.counted(it, s):
            return
        taken = len(it.path.taken)
        if n == 0:
            self.prev[key] = None
        if self.at_merge == taken:
            return                      # nothing was decided since the last merge: plain iteration
        skip = self.body_ids(it, s)
        out, tok = self.cells(it, skip)
        ver = {d.name: self.w.version(d) for d in self.w.facs()}
        self.widen(it, out, self.prev.get(key), n, it.loop_symbolic.get(key, False), ver)
        for d in self.w.facs():
            self.w.ver[d.name][self.w.key(d)] = ver[d.name]
        self.prev[key] = {p: c.v for p, c in out}
        self.at_merge = taken
        self.forget(it)
        if taken >= len(it.path.prefix):
            dg = self.digest(it, s, len(it.frames), out, tok, ver)
            self.visits += 1
            if dg in self.seen:
                raise PathEnd()
            self.seen.add(dg)

    def counted(self, it, s):
        """a for loop over a counter that only its condition can end: its iterations are few and are followed one by one"""
        if not hasattr(it.F, "_counted"):
            it.F._counted = {}
        k = id(s)
        if k not in it.F._counted:
            def leaves(x, brk=True):
                if isinstance(x, dict):
                    k = x.get("k")
                    if k in ("return", "goto") or (k == "break" and brk):
                        return True
                    brk = brk and k not in ("for", "while", "do", "rangefor", "switch")
                    return k != "lambda" and any(leaves(y, brk) for y in x.values())
                return isinstance(x, list) and any(leaves(y, brk) for y in x)

            def refs(x):
                if isinstance(x, dict):
                    return ({x.get("id")} if x.get("k") in ("ref", "var") else set()).union(*[refs(y) for y in x.values()] or [set()])
                return set().union(*[refs(y) for y in x]) if isinstance(x, list) and x else set()
            c = s.get("c") or {}
            it.F._counted[k] = bool(s.get("k") == "for" and s.get("inc") and c.get("k") == "binary" and c.get("op") in ("<", "<=", ">", ">=", "!=")
                                    and (refs(s["inc"]) & refs(c)) and not leaves(s.get("body")))
        return it.F._counted[k]

    def forget(self, it):
        """only what the scenario assumed at the start is remembered"""
        it.path.signs = {q: v for q, v in it.path.signs.items() if q in self.base_signs}
        it.path.keys = {k: v for k, v in it.path.keys.items() if k in self.base_keys}

    def start(self, it):
        self.base_signs, self.base_keys = set(it.path.signs), set(it.path.keys)

    def body_ids(self, it, s):
        if not hasattr(it.F, "_bodyids"):
            it.F._bodyids = {}
        k = id(s)
        if k not in it.F._bodyids:
            ids = set()

            def go(x):
                if isinstance(x, dict):
                    if x.get("k") == "decl":
                        for d in x["d"]:
                            ids.add(d.get("id"))
                            for b in d.get("bindings", []):
                                ids.add(b.get("id"))
                    if x.get("k") == "rangefor":
                        ids.add(x["var"].get("id"))
                        for b in x["var"].get("bindings", []):
                            ids.add(b.get("id"))
                    for y in x.values():
                        go(y)
                elif isinstance(x, list):
                    for y in x:
                        go(y)
            go(s.get("body"))
            it.F._bodyids[k] = ids
        return it.F._bodyids[k]

    def widen(self, it, out, pr, n, symbolic, ver):
        """values of the present linearisation, constants and named values stay; everything else becomes a fresh value number
        (one per distinct value)"""
        mp = {}
        for p, c in out:
            new = c.v
            old = None if pr is None else pr.get(p)
            if isinstance(new, int):
                if old is not None and old != new and (symbolic or n >= 2):
                    self.replace(it, mp, C(new), new > 0 and (isinstance(old, Poly) or old >= 0), "n")
                    c.v = mp[C(new)]
                continue
            if old is not None and old != new and n >= 1 and self.plain(new):
                self.replace(it, mp, new, al.positive_sum(new), "n" if new.is_const() and new.cval().denominator == 1 and self.counts(old) else "w")
                c.v = mp[new]
                continue
            if new.is_const():
                continue
            if self.stays(new, ver):
                continue
            counter = all(al.CTX.atoms[i].name[0] == "n" and al.CTX.atoms[i].name[:2] in ("n.", "np") for i in new.atoms())
            self.replace(it, mp, new, al.positive_sum(new), "n" if counter else "w")
            c.v = mp[new]

        for p, c in out:
            v = c.v
            if isinstance(v, Poly) and v in mp and not (v.is_const() and v.cval().denominator == 1) and (pr is None or pr.get(p) != v):
                c.v = mp[v]

    def plain(self, p):
        """a number of the scenario: a constant or a setting"""
        return all("@" not in al.CTX.atoms[i].name and al.CTX.atoms[i].kind == "sym" for i in self.base_atoms(p))

    def counts(self, old):
        return isinstance(old, int)

    def stays(self, p, ver):
        """a single value that is not a value of an older linearisation, or a combination of present ones"""
        single = len(p.t) == 1 and all(len(m) == 1 and m[0][1] == 1 and cc == 1 for m, cc in p.t.items())
        if single:
            a = al.CTX.atoms[next(iter(p.atoms()))]
            if not [q for q in a.args if isinstance(q, Poly)]:
                if "@" not in a.name:
                    return True
                g, v = a.name.split(".")[0], a.name.rsplit("@", 1)[1]
                if g in ver:
                    return v == str(ver[g])
                return g in ("w", "wp", "wnan", "n", "np") or self.held(a)
        for i in self.base_atoms(p):
            nm = al.CTX.atoms[i].name
            if "@" not in nm:
                return False
            g, v = nm.split(".")[0], nm.rsplit("@", 1)[1]
            if g not in ver or v != str(ver[g]):
                return False
        return True

    def held(self, a):
        return False

    def replace(self, it, mp, v, pos, pre):
        if v in mp:
            return
        self.fresh += 1
        self.widened += 1
        nan = al.has_kind(v, "nonfinite")
        mp[v] = al.sym("%s%s.0@%d" % (pre, "nan" if nan else "p" if pos else "", self.fresh), pos=pos and not nan, kind="nonfinite" if nan else "sym")

    def base_atoms(self, p, memo=None):
        memo = {} if memo is None else memo
        res = set()

        def go(i):
            if i in memo:
                return
            memo[i] = 1
            a = al.CTX.atoms[i]
            args = [q for q in a.args if isinstance(q, Poly)]
            if args:
                for q in args:
                    for j in q.atoms():
                        go(j)
            else:
                res.add(i)
        for i in p.atoms():
            go(i)
        return res

    # --- canonical printing
    def digest(self, it, s, depth, out, tok, ver):
        ren, cnt, memo0 = {}, {}, {}

        def num(g, v):
            k = (g, v)
            if k not in ren:
                ren[k] = cnt.get(g, 0)
                cnt[g] = ren[k] + 1
            return ren[k]

        def name0(i):
            if i not in memo0:
                a = al.CTX.atoms[i]
                args = [q for q in a.args if isinstance(q, Poly)]
                memo0[i] = "%s:%s(%s)" % (a.kind, a.name.split("@")[0], ",".join(p0(q) for q in args))
            return memo0[i]

        def mono0(m):
            return "*".join(sorted("%s^%s" % (name0(i), e) for i, e in m))

        def p0(p):
            return "+".join(sorted("%s %s" % (c, mono0(m)) for m, c in p.t.items()))

        def name1(i):
            a = al.CTX.atoms[i]
            args = [q for q in a.args if isinstance(q, Poly)]
            nm = a.name
            if "@" in nm:
                b, v = nm.rsplit("@", 1)
                nm = "%s@%d" % (b, num(b.split(".")[0], v))
            return "%s:%s(%s)%s" % (a.kind, nm, ",".join(p1(q) for q in args), "+" if i in al.CTX.pos else "")

        def p1(p):
            ts = sorted(p.t.items(), key=lambda x: (mono0(x[0]), x[1]))
            return "+".join("%s %s" % (c, "*".join("%s^%s" % (name1(i), e) for i, e in sorted(m, key=lambda y: (name0(y[0]), y[1])))) for m, c in ts)
        live = set()
        parts = [str(s.get("l")), str(depth)]
        for t in tok:
            if isinstance(t, int) and not isinstance(t, bool):
                v = out[t][1].v
                if isinstance(v, Poly):
                    live |= self.base_atoms(v)
                    parts.append(p1(v))
                else:
                    parts.append("i%d" % v)
            else:
                parts.append(repr(t))
        for d in self.w.facs():
            parts.append("ver %s %d" % (d.name, num(d.name, str(ver[d.name]))))
        fx = []
        stable = set()
        for q, v in it.path.signs.items():
            ba = self.base_atoms(q)
            if all(i in live or "@" not in al.CTX.atoms[i].name for i in ba):
                fx.append("%s|%d" % (p1(q), v))
        for k, v in it.path.keys.items():
            ps = [x for x in k if isinstance(x, Poly)] if isinstance(k, tuple) else []
            if ps and all(all(i in live or "@" not in al.CTX.atoms[i].name for i in self.base_atoms(q)) for q in ps):
                fx.append("%s|%s|%d" % (k[0], ",".join(p1(q) for q in ps), v))
        parts += sorted(fx)
        parts += [repr(x) for x in self.w.flags()]
        return "\n".join(parts)
