"""C22 no shared mutable state, C23 names of types, C31 no writable access to internals"""
import re
import algebra as al, interp as I, model as M, bindings as B, factor_checks as FC
from facts import AnalysisBroken
from interp import Str, Throw, UB, Unsupported


def parents(x, pred, out, par=()):
    if isinstance(x, dict):
        if pred(x):
            out.append((x, par))
        q = par + (x,)
        for v in x.values():
            if isinstance(v, (dict, list)):
                parents(v, pred, out, q)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                parents(v, pred, out, par)
    return out


def where(d, node=None):
    return "%s:%s" % (d.get("file", "?"), (node or {}).get("l") or d.get("line", 0))


# ------------------------------------------------------------------ C22
RANDOM = re.compile(r"^(std::)?(rand|srand|random|srandom|drand48|erand48|lrand48|rand_r|arc4random\w*|getrandom|getentropy)$"
                    r"|^std::(random_device|mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|shuffle_order_engine|discard_block_engine)\b"
                    r"|^Eigen::.*::(Random|setRandom)$|^Eigen::internal::random")
AMBIENT = re.compile(r"^(std::)?(time|clock|gettimeofday|clock_gettime|times|ftime|getenv|secure_getenv|getpid|gettid|getuid|gethostname)$|^std::this_thread::get_id$")
GLOBALSET = re.compile(r"^(std::)?(setlocale|srand|signal|sigaction|atexit|set_terminate|set_new_handler|putenv|setenv|unsetenv|chdir|fesetround|fesetenv|feenableexcept|feupdateenv|setrlimit)$"
                       r"|^Eigen::(setNbThreads|initParallel|setCpuCacheSizes)$|^std::locale::global$")
CLOCK = re.compile(r"^std::chrono::(_V2::)?\w+_clock::now$")


def callees(f):
    out = []
    for x, par in parents([f.get("body"), f.get("inits")], lambda x: x.get("k") in ("call", "mcall", "opcall", "construct") and (x.get("callee") or {}).get("q"), []):
        out.append((x["callee"]["q"], x))
    for x, par in parents([f.get("body"), f.get("inits")], lambda x: x.get("k") == "construct" and x.get("rec"), []):
        out.append((x["rec"], x))
    return out


def use_kind(node, par):
    """what the program does to the object the expression names: 'read', 'write' or None (not known)"""
    cur, t = node, node.get("t") or {}
    for k in range(len(par) - 1, -1, -1):
        p = par[k]
        kd = p.get("k")
        if kd in ("icast",):
            return "read"
        if kd in ("cast", "copy", "paren", "temp", "bind", "cleanup", "materialize"):
            if kd == "copy":
                return "write" if p.get("move") else "read"
            to = p.get("to") or {}
            if kd == "cast" and (to.get("ref") or to.get("ptr")) and not (to.get("const") or to.get("pconst")):
                return None
            cur = p
            continue
        if kd == "unary":
            if p.get("op") in ("++", "--"):
                return "write"
            if p.get("op") == "&":
                return None
            return "read"
        if kd in ("bin", "assign", "binary", "compound"):
            op = p.get("op", "")
            lhs = p.get("l") if isinstance(p.get("l"), dict) else p.get("a")
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                return "write" if lhs is cur else "read"
            return "read"
        if kd == "member":
            cur = p
            continue
        if kd == "index":
            cur = p
            continue
        if kd == "mcall" and p.get("obj") is cur:
            c = p.get("callee") or {}
            if c.get("const"):
                return "read"
            return "write"
        if kd in ("opcall", "call", "mcall", "construct"):
            args = p.get("args") or []
            idx = next((i for i, a in enumerate(args) if a is cur), None)
            if idx is None:
                return None
            c = p.get("callee") or {}
            pts = c.get("pt") or []
            if kd == "opcall" and c.get("rec"):
                if idx == 0:
                    return "read" if c.get("const") else "write"
                idx -= 1
            if idx < len(pts):
                pt = pts[idx]
                if (pt.get("ref") or pt.get("rref")) and not pt.get("const"):
                    return "write"
                return "read" if not pt.get("ptr") or pt.get("pconst") else None
            return None
        if kd in ("return", "decl", None):
            return None
        if kd in ("if", "while", "for", "cond", "expr"):
            return "read"
        return None
    return None


CONSTPTR = re.compile(r"(\*|unique_ptr<|shared_ptr<|reference_wrapper<)")


def shared_state(m, acc):
    F = m.F
    own = [f for f in F.fn.values() if "body" in f]
    refs = {}
    for f in own:
        for x, par in parents([f["body"], f.get("inits")], lambda x: x.get("k") in ("ref", "member") and x.get("dk") == "global", []):
            refs.setdefault(x.get("q"), []).append((f, x, par))
    n = 0
    for (q, file, line), g in sorted(F.globals.items()):
        if q.startswith("pybind11_module_def_") or "/_factorama" in file and q.startswith("pybind11"):
            continue
        n += 1
        acc.o("C22")
        acc.i("C22", "variable %s" % q)
        loc = "%s:%s" % (file, line)
        t = g.get("t") or {}
        if g.get("mutbl") and g.get("const"):
            acc.v("C22", q, "%s is shared by every object and has parts that change although it is const" % q, loc)
            continue
        if t.get("ref"):
            immutable = bool(t.get("const"))
        else:
            immutable = bool(g.get("const")) and not (t.get("ptr") and not g.get("pointeeconst") and not t.get("pconst"))
            if immutable and not t.get("ptr") and any(re.search(r"(unique_ptr|shared_ptr|reference_wrapper)<(?!const )", s) for s in [t.get("n", "")] + [str(a) for a in t.get("targs", [])]):
                immutable = False
        if not immutable:
            uses = [(f, x, use_kind(x, par)) for f, x, par in refs.get(q, [])]
            if any(k == "write" for f, x, k in uses) or t.get("ref"):
                f, x = next(((f, x) for f, x, k in uses if k == "write"), (None, None))
                acc.v("C22", q, "%s %s is shared by every object and changes%s" % ("static local" if g.get("slocal") else "variable", q, " in %s" % f["q"] if f else ""), where(f, x) if f else loc)
            elif any(k is None for f, x, k in uses):
                f, x, k = next(u for u in uses if u[2] is None)
                # a non-const object whose address or reference escapes: somebody may write it
                acc.v("C22", q, "%s %s is shared by every object and handed out writable in %s" % ("static local" if g.get("slocal") else "variable", q, f["q"]), where(f, x))
    # a constant initialised from the first caller's values is a cache shared by all later ones
    for f in own:
        for x, par in parents(f["body"], lambda x: x.get("static") and "init" in x and "id" in x, []):
            acc.o("C22")
            dep = parents(x["init"], lambda y: y.get("k") == "this" or y.get("k") == "ref" and y.get("dk") in ("param", "local", "binding"), [])
            inner = {y.get("id") for y, _ in parents(x["init"], lambda y: "id" in y and "t" in y and "k" not in y, [])}
            inner |= {p.get("id") for l, _ in parents(x["init"], lambda y: y.get("k") == "lambda", []) for p in l.get("params", [])}
            dep = [d for d, _ in dep if d.get("k") == "this" or d.get("id") not in inner]
            if dep:
                acc.v("C22", "%s in %s" % (x.get("name"), f["q"]), "static local %s of %s keeps what its first caller passed (%s) for every later object" % (x.get("name"), f["q"], dep[0].get("name") or "this"), where(f, x))
    # sources of randomness and ambient state
    seen = set()
    for f in own:
        acc.o("C22")
        acc.i("C22", f["q"])
        for q, x in callees(f):
            if RANDOM.search(q):
                acc.v("C22", "%s in %s" % (q, f["q"]), "%s uses a source of randomness: %s" % (f["q"], q), where(f, x))
            elif AMBIENT.search(q):
                acc.v("C22", "%s in %s" % (q, f["q"]), "%s depends on its surroundings: %s" % (f["q"], q), where(f, x))
            elif GLOBALSET.search(q):
                acc.v("C22", "%s in %s" % (q, f["q"]), "%s changes the state of the whole process: %s" % (f["q"], q), where(f, x))
    if not n:
        raise AnalysisBroken("no global found, not even the tables of names")
    clocks(m, acc, own)


def clocks(m, acc, own):
    """field-based taint: what a clock says may be shown or kept in a stopwatch, it may not be decided on nor returned as a result"""
    F = m.F
    tfields, tfuncs = set(), set()
    changed = True

    def tainted(e, loc):
        hit = []

        def pred(x):
            if x.get("k") in ("call", "mcall"):
                q = (x.get("callee") or {}).get("q", "")
                if CLOCK.search(q) or q in tfuncs:
                    return True
            if x.get("k") == "ref" and x.get("id") in loc:
                return True
            if x.get("k") == "member" and x.get("field") and (x.get("rec"), x.get("name")) in tfields:
                return True
            return False
        parents(e, pred, hit)
        return bool(hit)
    report = []
    rounds = 0
    while changed and rounds < 20:
        changed = False
        rounds += 1
        report = []
        for f in own:
            loc = set()
            for _ in range(3):
                for x, par in parents(f["body"], lambda x: "init" in x and "id" in x and "k" not in x, []):
                    if x["id"] not in loc and timey(x.get("t")) and tainted(x["init"], loc):
                        loc.add(x["id"])
                for x, par in parents(f["body"], lambda x: x.get("k") in ("assign", "bin", "compound", "binary", "opcall") and str(x.get("op", "")).endswith("=") and x.get("op") not in ("==", "!=", "<=", ">="), []):
                    if x["k"] == "opcall":
                        l, r = (x.get("args") or [None, None])[:2]
                    else:
                        l, r = (x.get("l") if isinstance(x.get("l"), dict) else x.get("a")), x.get("r") if isinstance(x.get("r"), dict) else x.get("b")
                    if not l or not r or not tainted(r, loc):
                        continue
                    l = B.strip(l)
                    if l.get("k") == "ref" and l.get("id") and l["id"] not in loc:
                        loc.add(l["id"])
                    if l.get("k") == "member" and l.get("field") and (l["rec"], l["name"]) not in tfields:
                        tfields.add((l["rec"], l["name"]))
                        changed = True
            rets = parents(f["body"], lambda x: x.get("k") == "return" and x.get("e"), [])
            if f["q"] not in tfuncs and any(timey(f.get("ret")) and not any(p.get("k") == "lambda" for p in par) and tainted(r["e"], loc) for r, par in rets):
                tfuncs.add(f["q"])
                changed = True
            for x, par in parents(f["body"], lambda x: x.get("k") in ("if", "while", "for", "do", "cond", "switch") and isinstance(x.get("c") or x.get("cond"), dict), []):
                if tainted(x.get("c") or x.get("cond"), loc):
                    report.append((f, x))
    acc.i("C22", "clock readings")
    acc.o("C22", len(own))
    for f, x in report:
        if not prints_only(x):
            acc.v("C22", "clock decides in %s" % f["q"], "%s decides on the time it took" % f["q"], where(f, x))
    RES = ("factorama::OptimizerStats",)
    for r, n in sorted(tfields):
        if r in RES or any(b in (M.VAR, M.FAC) for b in F.bases(r)):
            acc.v("C22", "clock in %s::%s" % (r, n), "%s::%s holds a clock reading" % (r, n), where(F.rec.get(r, {})))


def timey(t):
    return bool(t) and t.get("n") not in ("void",)


def prints_only(x):
    """a decision whose branches only print"""
    bad = []
    body = {k: v for k, v in x.items() if k not in ("c", "cond")}

    def pred(y):
        if y.get("k") in ("return", "break", "continue", "throw", "goto"):
            return True
        if y.get("k") in ("assign", "compound") or y.get("k") in ("bin", "binary") and str(y.get("op", "")).endswith("=") and y.get("op") not in ("==", "!=", "<=", ">="):
            return True
        if y.get("k") == "mcall" and not (y.get("callee") or {}).get("const"):
            return True
        return False
    parents(body, pred, bad)
    return not bad


# ------------------------------------------------------------------ C23
def norm(s, drop):
    s = s.lower().replace("_", "")
    for d in drop:
        s = s.replace(d, "")
    return s


IDS = (0, 70000, 2000000000)   # identifiers of every magnitude an int holds


def type_values(m):
    """class -> set of (type value, name or None, overridden) it reports; unknown classes -> message"""
    out, unknown = {}, {}
    for cls in list(m.facs) + list(m.vars):
        got = set()
        for cfg, off in [(c, o) for c in (FC.configs(m, cls) if cls in m.facs else [None]) for o in IDS]:
            def run(p):
                al.set_ctx(al.Ctx())
                it = m.interp(p)
                m.id_offset = off
                try:
                    o = m.build(it, cls, cfg)[0] if cfg is not None else m.make_var(it, cls, "v", vid=77 + off)
                finally:
                    m.id_offset = 0
                t = it.method(o, "type", [])
                i = it.method(o, "id", [])
                try:
                    s = it.method(o, "name", [])
                    s = s.s if isinstance(s, Str) else None
                except UB as ex:
                    s = ex
                except Unsupported:
                    s = None
                return t, i, s
            for p, r, err in I.explore(run, 400):
                if err is None:
                    if r is None:
                        continue
                    t, i, s = r
                    got.add((t, i if isinstance(i, int) else None, s if isinstance(s, (str, type(None))) else False))
                elif not isinstance(err, Throw):
                    unknown[cls] = str(err)
        if got:
            out[cls] = got
    return out, unknown


def type_names(m, acc):
    F = m.F
    mod = B.model(F)
    vals, unknown = type_values(m)
    for c, w in unknown.items():
        acc.a("C23", M.short(c), w)
    for base, enum_suffix, cnt, drop in ((M.VAR, "VariableTypeEnum", "num_variable_types", ("variable",)), (M.FAC, "FactorTypeEnum", "num_factor_types", ("factor",))):
        # the enumeration is what type() of the base class returns
        f = [x for x in F.rec[base]["methods"] if x["name"] == "type"]
        en = F.enums.get(f[0]["ret"]["n"]) if f else None
        if en is None:
            raise AnalysisBroken("type() of %s returns no enumeration" % base)
        es = [e for e in en["e"] if not e["name"].startswith("num_")]
        byv = {e["v"]: e["name"] for e in es}
        loc = where(en)
        acc.o("C23", len(es))
        for e in es:
            acc.i("C23", e["q"])
        if len(byv) != len(es):
            acc.v("C23", "values of %s" % en["q"], "two types of %s have the same value" % en["q"], loc)
        # tables of names beside the enumeration
        ns = en["q"].rsplit("::", 1)[0]
        tables = [g for g in F.globals.values() if "strs" in g and g["q"].rsplit("::", 1)[0] == ns and not g.get("slocal")]
        if not tables:
            acc.a("C23", en["q"], "no constant table of names beside the enumeration")
        for g in tables:
            S = g["strs"]
            gl = where(g)
            acc.o("C23", len(es))
            acc.i("C23", g["q"])
            for e in es:
                v = S[e["v"]] if 0 <= e["v"] < len(S) else None
                if not v:
                    acc.v("C23", "name of %s" % e["q"], "%s has no name in %s" % (e["q"], g["q"]), gl)
                elif v != e["name"]:
                    acc.v("C23", "name of %s" % e["q"], "%s is named \"%s\" in %s" % (e["q"], v, g["q"]), gl)
            have = [S[e["v"]] for e in es if 0 <= e["v"] < len(S) and S[e["v"]]]
            for s in sorted({s for s in have if have.count(s) > 1}):
                acc.v("C23", "name %s" % s, "two types share the name \"%s\" in %s" % (s, g["q"]), gl)
        # what classes report
        pe = [x for x in mod.enums.values() if x.cpp == en["q"]]
        acc.o("C23")
        if not pe:
            acc.v("C23", "enumeration %s" % en["q"], "%s is not exported to Python" % en["q"], mod.file)
        owner = {}
        for cls in (m.vars if base == M.VAR else m.facs):
            cl = where(F.rec[cls])
            for t, i, s in sorted(vals.get(cls, ()), key=str):
                acc.o("C23", 3)
                acc.i("C23", M.short(cls))
                if not isinstance(t, int):
                    acc.a("C23", M.short(cls), "type() is not a constant")
                    continue
                if t not in byv:
                    acc.v("C23", "type of %s" % M.short(cls), "%s reports a type that is not one of %s" % (M.short(cls), en["q"]), cl)
                    continue
                tn = byv[t]
                match = [e["name"] for e in es if norm(e["name"], drop) == norm(M.short(cls), drop)]
                if match and tn not in match:
                    acc.v("C23", "type of %s" % M.short(cls), "%s reports the type %s, not %s" % (M.short(cls), tn, match[0]), cl)
                if base == M.VAR and owner.setdefault(t, cls) != cls:
                    acc.v("C23", "type %s" % tn, "%s and %s both report the type %s" % (M.short(owner[t]), M.short(cls), tn), cl)
                if s is False or s == "":
                    acc.v("C23", "name of %s" % M.short(cls), "%s has no name" % M.short(cls), cl)
                elif s is not None:
                    own = F.methods(cls, "name", inherited=True)
                    f0 = own[0] if own else {}
                    if f0.get("rec") == base and i is not None and s != "%s%d" % (tn, i):
                        acc.v("C23", "name of %s" % M.short(cls), "%s of type %s and identifier %d is named \"%s\"" % (M.short(cls), tn, i, s), where(f0))
                for x in pe:
                    names = [n for n, en_, v, l in x.values if v == t]
                    if mod.by_cpp(cls) and tn not in names:
                        acc.v("C23", "Python name of %s" % tn, "%s reports %s, which %s does not export under that name" % (M.short(cls), tn, x.name), "%s:%s" % (mod.file, x.line))
    # every exported enumeration
    for x in mod.enums.values():
        en = F.enums.get(x.cpp)
        acc.i("C23", "factorama." + x.name)
        if en is None:
            acc.a("C23", x.name, "enumeration %s not found" % x.cpp)
            continue
        seenv, seenn = {}, set()
        for n, e, v, l in x.values:
            acc.o("C23", 2)
            lo = "%s:%s" % (mod.file, l)
            if v is None:
                acc.a("C23", "%s.%s" % (x.name, n), "value not constant")
                continue
            real = [q["name"] for q in en["e"] if q["v"] == v]
            if e is not None and not any(q["name"] == e for q in en["e"]):
                acc.v("C23", "%s.%s" % (x.name, n), "%s.%s is a value of another enumeration" % (x.name, n), lo)
            elif n not in real:
                acc.v("C23", "%s.%s" % (x.name, n), "%s.%s denotes the C++ value %s" % (x.name, n, "/".join(real) or v), lo)
            if v in seenv:
                acc.v("C23", "%s.%s" % (x.name, n), "%s.%s and %s.%s denote the same value" % (x.name, seenv[v], x.name, n), lo)
            seenv[v] = n
            if n in seenn:
                acc.v("C23", "%s.%s" % (x.name, n), "%s.%s is exported twice" % (x.name, n), lo)
            seenn.add(n)


# ------------------------------------------------------------------ C31
VIEW = re.compile(r"\bEigen::(Block|VectorBlock|Map|Ref|Transpose|Diagonal|Reshaped|IndexedView|MatrixWrapper|ArrayWrapper|TriangularView|SelfAdjointView|CwiseUnaryView|Inverse)<|\bstd::(reference_wrapper|span)<|__normal_iterator<")
DOCUMENTED = {("factorama::InverseRangeVariable", "minimum_inverse_range_"), ("factorama::InverseRangeVariable", "maximum_inverse_range_")}


def writable(t):
    """whether a result of this type lets its holder write: a non-const reference, pointer or view"""
    n = t.get("n", "")
    if t.get("ref"):
        return None if t.get("const") else "reference"
    if t.get("rref"):
        return None if t.get("const") else "reference"
    if t.get("ptr"):
        return None if t.get("pconst") or n.startswith("const ") else "pointer"
    mt = VIEW.search(n)
    if mt:
        inner = n[mt.end():]
        return None if inner.startswith("const ") else "view"
    return None


def roots(F, f, e, seen=()):
    """whose storage an expression of reference, pointer or view type points into: {'this', 'param', 'global', 'other', '?'}"""
    e = B.strip(e)
    k = e.get("k")
    if k == "unary" and e.get("op") in ("&", "*"):
        return roots(F, f, e["e"], seen)
    if k == "cast":
        return roots(F, f, e["e"], seen)
    if k == "cond":
        return set().union(*[roots(F, f, e[x], seen) for x in ("a", "b") if isinstance(e.get(x), dict)]) or {"?"}
    if k == "member":
        t = e.get("t") or {}
        b = B.strip(e.get("base") or {})
        if e.get("field"):
            if b.get("k") == "this":
                return {"this"}
            if e.get("arrow"):
                return {"other"}
            return roots(F, f, b, seen)
        return {"?"}
    if k == "index":
        return roots(F, f, e.get("a") or e.get("base") or {}, seen)
    if k == "this":
        return {"this"}
    if k == "ref":
        if e.get("dk") == "global":
            return {"global"}
        if e.get("dk") == "param":
            return {"param"}
        if e.get("dk") == "local":
            ds = parents(f["body"], lambda x: x.get("id") == e.get("id") and "k" not in x and "init" in x, [])
            t = e.get("t") or {}
            if ds and e.get("id") not in seen:
                dt = ds[0][0].get("t") or {}
                if dt.get("ref") or dt.get("ptr") or VIEW.search(dt.get("n", "")) or dt.get("n", "").endswith("iterator"):
                    return roots(F, f, ds[0][0]["init"], seen + (e.get("id"),))
            return {"local"}
        return {"?"}
    if k == "mcall":
        o = e.get("obj") or {}
        c = e.get("callee") or {}
        rec = e.get("rec", "")
        if rec.startswith("std::shared_ptr") or rec.startswith("std::unique_ptr") or rec.startswith("std::__shared_ptr"):
            return {"other"}
        if rec in F.rec:
            fs = [x for x in F.methods(rec, e["name"]) if "body" in x and len(x["params"]) == len(e.get("args") or [])]
            out = set()
            for x in fs[:2]:
                if x["id"] in seen:
                    continue
                for r, _ in parents(x["body"], lambda y: y.get("k") == "return" and y.get("e"), []):
                    out |= roots(F, x, r["e"], seen + (x["id"],))
            if "this" in out:
                out = (out - {"this"}) | roots(F, f, o, seen)
            return out or {"?"}
        return roots(F, f, o, seen)
    if k == "opcall":
        if e.get("op") in ("->",):
            return {"other"}
        a = (e.get("args") or [{}])[0]
        if e.get("op") == "*":
            t = (B.strip(a).get("t") or {}).get("n", "")
            return {"other"} if "_ptr<" in t else roots(F, f, a, seen)
        return roots(F, f, a, seen)
    if k == "call":
        q = (e.get("callee") or {}).get("q", "")
        if q in ("std::move", "std::forward", "std::addressof", "std::ref", "std::as_const", "std::data", "std::begin", "std::end", "std::get"):
            return roots(F, f, e["args"][0], seen)
        return {"?"}
    if k == "construct":
        out = set()
        for a in e.get("args") or []:
            out |= roots(F, f, a, seen)
        return out or {"?"}
    if k in ("int", "null", "nullptr", "new"):
        return {"other"}
    return {"?"}


def encapsulation(m, acc):
    F = m.F
    mod = B.model(F)
    for cls in sorted(set(m.vars) | set(m.facs) | {M.VAR, M.FAC}):
        r = F.rec[cls]
        kind = "variable" if M.VAR in F.bases(cls) else "factor"
        for fl in r["fields"]:
            acc.o("C31")
            nm = "%s::%s" % (M.short(cls), fl["name"])
            acc.i("C31", nm)
            loc = "%s:%s" % (r["file"], fl.get("line"))
            if fl.get("access") == "public" and (cls, fl["name"]) not in DOCUMENTED and not (fl["t"].get("const") and not fl["t"].get("ptr")):
                acc.v("C31", nm, "%s is a public data member: anybody can write it" % nm, loc)
        if r.get("friends"):
            acc.i("C31", "%s friends" % M.short(cls))
        for mt in r["methods"]:
            if mt.get("ctor") or mt.get("dtor") or mt.get("implicit") or mt.get("deleted") or mt.get("access") != "public":
                continue
            if mt["name"].startswith("operator") and mt["name"] in ("operator=",):
                continue
            f = F.fn.get(mt["id"], mt)
            nm = "%s::%s" % (M.short(cls), mt["name"])
            acc.o("C31")
            acc.i("C31", nm)
            loc = where(f) if f.get("file") else "%s:%s" % (r["file"], mt.get("line"))
            w = writable(f.get("ret") or mt.get("ret") or {})
            body = f.get("body")
            # a cast that removes const inside an accessor
            if w and not (f.get("const") or mt.get("const")) or w and body and parents(body, lambda x: x.get("k") == "cast" and x.get("style") in ("CXXConstCastExpr", "CStyleCastExpr"), []) \
                    or w and body:
                if body is None:
                    if mt.get("pure"):
                        acc.v("C31", nm, "%s must return a writable %s" % (nm, w), loc) if w else None
                    else:
                        acc.a("C31", nm, "no body")
                    continue
                rs = set()
                for x, par in parents(body, lambda y: y.get("k") == "return" and y.get("e"), []):
                    if not any(p.get("k") == "lambda" for p in par):
                        rs |= roots(F, f, x["e"])
                if "this" in rs:
                    acc.v("C31", nm, "%s returns a writable %s to the %s's own state" % (nm, w, kind), loc)
                elif "?" in rs:
                    acc.a("C31", nm, "where the returned %s points to is not known" % w)
    # Python: assignable attributes and writable arrays
    for c in mod.classes.values():
        if not ({M.VAR, M.FAC} & set(F.bases(c.cpp))):
            continue
        for fl in c.fields:
            acc.o("C31")
            q = "%s.%s" % (c.name, fl.name)
            acc.i("C31", q)
            if fl.kind == "readwrite" and (c.cpp, fl.q) not in DOCUMENTED and not any((b, fl.q) in DOCUMENTED for b in F.bases(c.cpp)):
                acc.v("C31", q, "%s can be assigned from Python" % q, "%s:%s" % (mod.file, fl.line))


def clock_guard(m, acc):
    return None
