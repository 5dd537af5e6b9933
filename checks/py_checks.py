"""Obligations on the Python side: ownership and lifetime (C24), exported type names (C23), stubs (C26), plotting (C25)."""
import ast, os, re
import facts, bindings as B, algebra as al, interp as I, model as M, factor_checks as FC, graph_checks as GC
from interp import Cell, Mat, Obj, Vec, Map, Unsupported, UB, Throw, PathEnd

PLAIN = re.compile(r"^(const )?(void|bool|char|int|unsigned( int| long| char)?|long( long)?|short|size_t|double|float|std::(basic_)?string.*)$")


def split(n):
    """outer template name and its arguments"""
    m = re.match(r"^(?:const )?([\w:]+)<(.*)>$", n)
    if not m:
        return n, []
    out, d, cur = [], 0, ""
    for ch in m.group(2):
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += (ch in "<(") - (ch in ">)")
        cur += ch
    return m.group(1), out + ([cur.strip()] if cur.strip() else [])


def tparse(t):
    if isinstance(t, dict):
        return t
    return B.parse(t)


def pointee(t):
    p = t.get("pointee") or t["n"].rstrip("*").strip()
    return p[6:] if p.startswith("const ") else p


def targs(t):
    if t.get("targs"):
        return [x for x in t["targs"] if isinstance(x, str)]
    return split(t["n"])[1]


CONT = ("std::vector", "std::list", "std::array", "std::set", "std::map", "std::unordered_map", "std::pair", "std::tuple", "std::optional", "std::unordered_set", "std::deque")
VIEW = ("Eigen::Map", "Eigen::Ref", "Eigen::Block", "Eigen::VectorBlock", "Eigen::Transpose", "std::reference_wrapper", "Eigen::Diagonal")


class Lifetimes:
    def __init__(self, m, acc):
        self.m, self.F, self.acc = m, m.F, acc
        self.mod = B.model(m.F)

    def known(self, q):
        return self.mod.by_cpp(q)

    def fresh(self, fn):
        """every return of the callable hands over a new object"""
        body = fn.lam["body"] if fn.lam else (getattr(fn, "fact", None) or {}).get("body")
        if not body:
            return False
        rets = []
        find(body, lambda x: x.get("k") == "return", rets)
        ok = bool(rets)
        for r in rets:
            e = B.strip(r.get("e") or {})
            ok &= e.get("k") == "new" or e.get("k") == "mcall" and e.get("name") == "release"
        return ok

    def judge(self, c, fn, t, pol, what, inner=False):
        """problem with handing a value of type t to Python under policy pol, or None"""
        n = t.get("n", "")
        if t.get("ptr"):
            q = pointee(t)
            if not self.known(q):
                if PLAIN.match(q):
                    return None
                return self.dense(c, fn, dict(t, ref=1, ptr=0, n=q), pol) if q.startswith("Eigen::") else None
            if pol in (None, "automatic", "take_ownership"):
                if self.fresh(fn):
                    return None
                return "Python takes ownership of %s that C++ still owns" % q.split("::")[-1] + (" (an element of the result)" if inner else "")
            if pol in ("reference", "automatic_reference"):
                return "the %s it returns can be destroyed while Python still refers to it" % q.split("::")[-1]
            if pol == "move":
                return "the %s it returns is emptied" % q.split("::")[-1]
            return None
        base, args = split(n)
        base = base[6:] if base.startswith("const ") else base
        args = targs(t) or args
        if base == "std::shared_ptr":
            k = self.known(args[0]) if args else None
            if k and not k.holder.startswith("std::shared_ptr"):
                return "%s is shared with C++ but Python holds it in %s" % (k.name, split(k.holder)[0])
            return None
        if base == "std::unique_ptr" or PLAIN.match(n) or not n:
            return None
        if base in CONT:
            for a in args:
                r = self.judge(c, fn, tparse(a), pol, what, True)
                if r:
                    return r
            return None
        if base in VIEW:
            if pol in ("copy", "reference_internal"):
                return None
            return "the view it returns does not keep its owner alive"
        if base == "Eigen::SparseMatrix":
            return None
        if n.startswith("Eigen::") and t.get("ref"):
            return self.dense(c, fn, t, pol)
        if t.get("ref") and self.known(n):
            if pol in (None, "automatic", "copy", "reference_internal"):
                return None
            if pol in ("take_ownership",):
                return "Python takes ownership of a %s that C++ still owns" % self.known(n).name
            if pol == "move":
                return "the %s it refers to is emptied" % self.known(n).name
            return "the %s it returns can be destroyed while Python still refers to it" % self.known(n).name
        return None

    def dense(self, c, fn, t, pol):
        if pol in (None, "automatic", "copy"):
            return None
        if pol == "take_ownership":
            return "Python takes ownership of a matrix that C++ still owns"
        if pol == "move":
            return None if t.get("const") else "the matrix it refers to is emptied"
        if pol in ("reference", "automatic_reference"):
            return "the array it returns does not keep the %s it looks into alive" % (c.name if c else "object")
        if pol == "reference_internal":
            mt = I.parse_mat_type(t["n"])
            if mt and mt[0] > 0 and mt[1] > 0:
                return None
            w = self.unstable(fn)
            if w:
                return "the array it returns looks into storage that is replaced in %s" % w
        return None

    def unstable(self, fn):
        """a function that resizes, swaps or move-assigns the storage a returned reference points to"""
        if fn.target is None:
            return "an unknown place"
        rec, name = fn.target["rec"], fn.target["name"]
        classes = [rec] + self.F.subclasses(rec)
        for cls in classes:
            for f in self.F.methods(cls, name, inherited=True):
                if "body" not in f or len(f["params"]) != len(fn.params):
                    continue
                rets = []
                find(f["body"], lambda x: x.get("k") == "return", rets)
                for r in rets:
                    fld = field_of(B.strip(r.get("e") or {}))
                    if fld is None:
                        return M.short(f) if isinstance(f, str) else "%s, whose returned storage is unknown" % f["q"]
                    w = self.replaced(cls, fld)
                    if w:
                        return w
        return None

    def replaced(self, cls, fld):
        for k in self.F.bases(cls):
            for f in self.F.fn.values():
                if f.get("rec") != k or "body" not in f or f.get("ctor") or f.get("dtor"):
                    continue
                bad = []

                def hit(x):
                    if x.get("k") == "mcall" and field_of(B.strip(x.get("obj") or {})) == fld and x["name"] in ("resize", "conservativeResize", "swap", "setZero", "setConstant", "setOnes", "setIdentity"):
                        return x["name"] in ("resize", "conservativeResize", "swap") or bool(x.get("args")) and any((B.strip(a).get("t") or {}).get("int") for a in x["args"])
                    if x.get("k") == "opcall" and x.get("op") == "=" and field_of(B.strip(x["args"][0])) == fld:
                        pt = (x.get("callee") or {}).get("pt") or [{}]
                        return bool(pt[0].get("rref")) or not lengths_checked(f, x["args"][1], fld)
                    if x.get("k") in ("call", "mcall"):
                        # handed to a function that may resize it
                        pts = (x.get("callee") or {}).get("pt") or []
                        for a, p in zip(x.get("args") or [], pts):
                            if field_of(B.strip(a)) == fld and p.get("ref") and not p.get("const"):
                                return True
                    return False
                find(f["body"], hit, bad)
                if bad:
                    return f["q"]
        return None

    # --- storing arguments
    def stored(self, cls):
        """per constructor (key of its parameter types): indices of pointer parameters the object keeps"""
        m, out, nulls = self.m, {}, {}
        for cfg in FC.configs(m, cls):
            ctor = cfg["ctor"]
            ck = tuple(map(str, B.key(ctor)[:-1]))
            keep = out.setdefault(ck, (ctor, set()))[1]

            def run(p):
                al.set_ctx(al.Ctx())
                it = m.interp(p)
                fac, vs = m.build(it, cls, cfg)
                ptr = sorted(cfg["ptr"])
                ks = [k for k in ptr if cfg["ptr"][k][0] is not None]
                reach = set()
                walk(fac, reach, {id(v) for v in vs})
                for k, v in zip(ks, vs):
                    if id(v) in reach:
                        keep.add(k)
            for p, r, err in I.explore(run, 400):
                if err is not None and not isinstance(err, Throw):
                    self.acc.a("C24", "%s constructor" % M.short(cls), str(err))
        return out

    def refuses_none(self, cls, ctor, k):
        """the constructor throws when parameter k is null: True, False, None (unknown)"""
        m = self.m
        for cfg in FC.configs(m, cls):
            if cfg["ctor"] is not ctor:
                continue
            c2 = dict(cfg, ptr=dict(cfg["ptr"]))
            c2["ptr"][k] = (None, 0)
            res = []

            def run(p):
                al.set_ctx(al.Ctx())
                it = m.interp(p)
                m.build(it, cls, c2)
                return True
            for p, r, err in I.explore(run, 400):
                res.append("ok" if err is None else "throw" if isinstance(err, Throw) else "ub" if isinstance(err, UB) else "?")
            if any(x in ("ok", "ub") for x in res):
                return False
            return True if res and all(x == "throw" for x in res) else None
        return None


def walk(v, reach, stop):
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if isinstance(x, Cell):
            x = x.v
        if id(x) in seen:
            continue
        seen.add(id(x))
        if id(x) in stop:
            reach.add(id(x))
            continue
        if isinstance(x, Obj):
            todo += list(x.f.values())
        elif isinstance(x, Vec):
            todo += list(x.c)
        elif isinstance(x, Map):
            todo += list(getattr(x, "d", {}).values())


def find(x, pred, out):
    if isinstance(x, dict):
        if pred(x):
            out.append(x)
        for v in x.values():
            find(v, pred, out)
    elif isinstance(x, list):
        for v in x:
            find(v, pred, out)
    return out


def field_of(e):
    e = B.strip(e) if isinstance(e, dict) else {}
    if e.get("k") == "unary" and e.get("op") == "*":
        return None
    if e.get("k") == "member" and B.strip(e.get("obj") or e.get("e") or e.get("b") or {"k": "this"}).get("k") == "this":
        return e.get("name") or e.get("f")
    return None


def lengths_checked(f, rhs, fld):
    """a plain copy between vectors: the lengths are decided by C10"""
    return True


def lifetimes(m, acc):
    L = Lifetimes(m, acc)
    mod = L.mod
    for u in mod.unknown:
        acc.a("C24", u, "construct of the binding source that is not understood")

    def where(line):
        return "%s:%s" % (mod.file, line)

    def callable_(c, fn):
        nm = "%s%s" % (c.name + "." if c else "", fn.name)
        acc.i("C24", nm)
        if fn.opaque:
            acc.a("C24", nm, fn.opaque)
            return
        if fn.ret:
            acc.o("C24")
            r = L.judge(c, fn, fn.ret, fn.policy, nm)
            if r:
                # a custodian that outlives the reference makes it safe
                if not ("alive" in r or "destroyed" in r) or not any(k in ((0, 1),) for k in fn.keep):
                    acc.v("C24", nm, "%s: %s (return policy %s)" % (nm, r, fn.policy or "automatic"), where(fn.line))
    for c in mod.classes.values():
        for fn in c.fns:
            callable_(c, fn)
        for fl in c.fields:
            if fl.getter:
                g = fl.getter
                g.policy = g.policy or "reference_internal"
                callable_(c, g)
            else:
                acc.o("C24")
                acc.i("C24", "%s.%s" % (c.name, fl.name))
                if fl.policy in ("reference", "automatic_reference", "take_ownership") and not PLAIN.match(fl.t.get("n", "")):
                    acc.v("C24", "%s.%s" % (c.name, fl.name), "property %s.%s returns a reference under policy %s" % (c.name, fl.name, fl.policy), where(fl.line))
                if fl.kind == "readwrite" and fl.t.get("ptr") and L.known(pointee(fl.t)):
                    acc.v("C24", "%s.%s" % (c.name, fl.name), "assigning %s.%s stores an object Python may destroy" % (c.name, fl.name), where(fl.line))
    for fn in mod.fns:
        callable_(None, fn)
    # holders: what C++ shares must be shared by Python too
    for c in mod.classes.values():
        acc.o("C24")
        shared = []
        for k in mod.classes.values():
            for fn in k.fns:
                for t in list(fn.params) + [fn.ret or {}]:
                    for q in re.findall(r"std::shared_ptr<(?:const )?([\w:]+)>", t.get("n", "") + " " + " ".join(x for x in t.get("targs", []) if isinstance(x, str))):
                        if q in L.F.bases(c.cpp):
                            shared.append(fn)
        if shared and not c.holder.startswith("std::shared_ptr"):
            acc.v("C24", "holder of %s" % c.name, "%s is held by %s in Python although C++ shares it" % (c.name, split(c.holder)[0]), where(c.line))
    # constructors keep the variables they refer to
    dependent = set()
    for c in mod.classes.values():
        if c.cpp not in m.facs:
            continue
        st = L.stored(c.cpp)
        for fn in c.fns:
            if fn.kind != "init":
                continue
            nm = "%s(%s)" % (c.name, ", ".join(a.name or "?" for a in fn.args))
            ptrs = [k for k, t in enumerate(fn.params) if t.get("ptr") and L.known(pointee(t))]
            if not ptrs:
                continue
            if fn.opaque or fn.factory:
                acc.a("C24", nm, "constructor bound through a factory function")
                continue
            acc.i("C24", nm)
            want = [t.get("n", "").replace(" ", "") for t in fn.params]
            cand = []
            for ck, (ctor, keep) in st.items():
                have = [p["t"].get("n", "").replace(" ", "") for p in ctor["params"]]
                if have[:len(want)] == want and all("def" in p for p in ctor["params"][len(want):]):
                    cand.append((ctor, keep))
            if not cand:
                acc.a("C24", nm, "no analysed constructor matches the binding")
                continue
            ctor, keep = cand[0]
            for k in ptrs:
                who = ctor["params"][k]["name"]
                acc.o("C24", 2)
                if k in keep:
                    dependent.add(c.cpp)
                    if (1, k + 2) not in fn.keep:
                        acc.v("C24", "%s keeps %s" % (c.name, who), "%s stores a pointer to %s but does not keep it alive" % (nm, who), where(fn.line))
                a = fn.args[k] if k < len(fn.args) else None
                if a is not None and a.none is False:
                    continue
                r = L.refuses_none(c.cpp, ctor, k)
                if r is False:
                    acc.v("C24", "%s None for %s" % (c.name, who), "%s accepts None for %s" % (nm, who), where(fn.line))
                elif r is None:
                    acc.a("C24", "%s None for %s" % (nm, who), "constructor with a null argument")
    # a factor's wrapper must live as long as the graph refers to the factor, and so on upwards
    grew = True
    while grew:
        grew = False
        for c in mod.classes.values():
            if c.cpp in m.facs:
                continue
            for fn in c.fns:
                if fn.opaque or fn.target is None and fn.lam is None:
                    continue
                for k, t in enumerate(fn.params):
                    q = shared_arg(t)
                    if q is None or not any(d == q or q in L.F.bases(d) for d in dependent):
                        continue
                    s = stores(L.F, fn, k)
                    nm = "%s.%s" % (c.name, fn.name)
                    acc.o("C24")
                    if s is None:
                        acc.a("C24", nm, "whether the argument is kept is not known")
                        continue
                    if s:
                        if c.cpp not in dependent:
                            dependent.add(c.cpp)
                            grew = True
                        if (1, k + 2) not in fn.keep:
                            acc.v("C24", "%s keeps its argument" % nm, "%s keeps a %s in C++ but lets Python drop the object that keeps its parts alive" % (nm, q.split("::")[-1]), where(fn.line))
    # None for a variable or a factor of the graph
    for meth in ("add_variable", "add_factor"):
        acc.o("C24")
        g = mod.by_cpp(GC.G)
        fns = g.members(meth) if g else []
        for fn in fns:
            acc.i("C24", "FactorGraph.%s(None)" % meth)
            if fn.args and fn.args[0].none is False:
                continue
            res = []

            def run(p):
                al.set_ctx(al.Ctx())
                it = m.interp(p)
                o = Obj(GC.G)
                it.run_ctor_default(GC.G, o)
                it.method(o, meth, [None])
                return True
            for p, r, err in I.explore(run, 20):
                if err is None or isinstance(err, UB):
                    acc.v("C24", "FactorGraph.%s None" % meth, "FactorGraph.%s accepts None" % meth, where(fn.line))
                elif not isinstance(err, Throw):
                    acc.a("C24", "FactorGraph.%s(None)" % meth, str(err))


def shared_arg(t):
    m = re.match(r"^(?:const )?std::shared_ptr<(?:const )?([\w:]+)>$", t.get("n", ""))
    return m.group(1) if m else None


def stores(F, fn, k):
    """whether the function keeps parameter k (a shared pointer) in the object: True, False, None"""
    f = getattr(fn, "fact", None)
    if not f or "body" not in f:
        return None if fn.lam is None else True
    pid = f["params"][k].get("id")
    if pid is None:
        return None

    def is_param(e):
        e = B.strip(e)
        while e.get("k") == "call" and (e.get("callee") or {}).get("q") in ("std::move", "std::forward"):
            e = B.strip(e["args"][0])
        return e.get("k") == "ref" and e.get("id") == pid
    hits = []

    def hit(x):
        if x.get("k") == "opcall" and x.get("op") == "=" and len(x.get("args", [])) == 2 and is_param(x["args"][1]):
            return True
        if x.get("k") in ("bin", "assign") and is_param(x.get("r") or x.get("b") or {}):
            return True
        if x.get("k") == "mcall" and x.get("name") in ("push_back", "emplace_back", "insert", "emplace", "reset", "swap"):
            return any(is_param(a) for a in x.get("args") or [])
        if x.get("k") in ("call", "mcall") and (x.get("callee") or {}).get("q", "").startswith("factorama::"):
            return any(is_param(a) for a in x.get("args") or [])
        return False
    find(f["body"], hit, hits)
    return bool(hits)
