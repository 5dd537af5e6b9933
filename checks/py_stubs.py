"""C26: the type stubs, the bindings and the C++ declarations agree"""
import ast, math, os, re
import bindings as B, model as M, py_checks as PC
from facts import AnalysisBroken

DUNDER = re.compile(r"^__\w+__$")


# ------------------------------------------------------------------ constants
def const(F, n, depth=0):
    """value of a constant expression of C++ or of Python, or None"""
    if depth > 8:
        return None
    if isinstance(n, ast.AST):
        try:
            v = ast.literal_eval(n)
        except Exception:
            return enum_name(n)
        return ("none",) if v is None else v
    if not isinstance(n, dict):
        return None
    k = n.get("k")
    if k in ("int", "float", "boollit", "str"):
        v = n.get("v")
        return bool(v) if k == "boollit" else v
    if k in ("icast", "cast", "copy", "temp", "bind", "paren"):
        v = const(F, n["e"], depth + 1)
        t = n.get("t") or {}
        if isinstance(v, (int, float)) and not isinstance(v, bool) and k != "copy":
            if t.get("fp"):
                return float(v)
            if t.get("int") and isinstance(v, float):
                return int(v)
        return v
    if k == "unary":
        v = const(F, n["e"], depth + 1)
        if isinstance(v, (int, float)):
            return -v if n.get("op") == "-" else v if n.get("op") == "+" else (not v) if n.get("op") == "!" else None
        return None
    if k == "bin":
        a, b = const(F, n["a"], depth + 1), const(F, n["b"], depth + 1)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b if isinstance(a, float) or isinstance(b, float) else int(a / b)}[n["op"]]()
            except Exception:
                return None
        return None
    if k == "ref" and n.get("dk") == "enum":
        return ("enum", n.get("name"))
    if k == "ref" and n.get("dk") == "global":
        for g in F.globals.values():
            if g.get("q") == n.get("q") and g.get("init") is not None and (g.get("t") or {}).get("const"):
                return const(F, g["init"], depth + 1)
        return None
    if k in ("null", "nullptr"):
        return ("none",)
    if k == "construct" and len(n.get("args", [])) == 1:
        return const(F, n["args"][0], depth + 1)
    return None


def enum_name(n):
    return ("enum", n.attr) if isinstance(n, ast.Attribute) else None


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b or math.isclose(a, b, rel_tol=1e-12)


# ------------------------------------------------------------------ types
INT = re.compile(r"^(const )?(unsigned |signed )?(int|long|long long|short|char|unsigned|size_t|std::size_t|ssize_t|u?int\d+_t|std::u?int\d+_t|unsigned int|unsigned long|unsigned long long|Eigen::Index)$")


def ctype(mod, t, depth=0):
    """canonical name of the Python side of a C++ type, or None when not known"""
    import interp as I
    if depth > 5 or not t:
        return None
    n = t.get("n", "")
    n = n[6:] if n.startswith("const ") else n
    if t.get("ptr"):
        q = PC.pointee(t)
        c = mod.by_cpp(q)
        return c.name if c else None
    if n == "void":
        return "None"
    if n == "bool":
        return "bool"
    if INT.match(n):
        return "int"
    if n in ("double", "float", "long double"):
        return "float"
    if re.match(r"^std::(__cxx11::)?(basic_)?string(_view)?\b", n):
        return "str"
    for e in mod.enums.values():
        if e.cpp == n:
            return e.name
    c = mod.by_cpp(n)
    if c:
        return c.name
    base, args = PC.split(n)
    args = PC.targs(t) or args
    if base in ("std::shared_ptr", "std::unique_ptr") and args:
        c = mod.by_cpp(args[0])
        return c.name if c else None
    if base in ("std::vector", "std::list", "std::deque") and args:
        e = ctype(mod, PC.tparse(args[0]), depth + 1)
        return "list[%s]" % e if e else None
    if base in ("std::tuple", "std::pair"):
        es = [ctype(mod, PC.tparse(a), depth + 1) for a in args]
        return "tuple[%s]" % ", ".join(es) if all(es) else None
    if base == "std::optional" and args:
        e = ctype(mod, PC.tparse(args[0]), depth + 1)
        return "opt[%s]" % e if e else None
    if base == "Eigen::SparseMatrix":
        return "sparse"
    if n.startswith("Eigen::"):
        inner = args[0] if base in ("Eigen::Ref", "Eigen::Map") and args else n
        mt = I.parse_mat_type(str(inner).replace("const ", "", 1) if str(inner).startswith("const ") else str(inner))
        if mt and mt[0] is not None and mt[1] is not None:
            r, c = mt[0], mt[1]
            return "array[%s, %s]" % (r if r > 0 else "m", c if c > 0 else "n")
    return None


def last(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        return n.attr
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        try:
            return last(ast.parse(n.value, mode="eval").body)
        except SyntaxError:
            return None
    return None


def ptype(n, names):
    """canonical name of a stub annotation, or None when not known"""
    if n is None:
        return None
    if isinstance(n, ast.Constant):
        if n.value is None:
            return "None"
        if isinstance(n.value, str):
            try:
                return ptype(ast.parse(n.value, mode="eval").body, names)
            except SyntaxError:
                return None
    s = last(n)
    if s is not None:
        if s in ("int", "SupportsInt", "SupportsIndex"):
            return "int"
        if s in ("float", "SupportsFloat"):
            return "float"
        if s in ("bool", "str", "None"):
            return s
        if s in ("csc_matrix", "csr_matrix", "spmatrix", "csc_array"):
            return "sparse"
        if s in names:
            return s
        return None
    if isinstance(n, ast.Subscript):
        h = last(n.value)
        els = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        if h in ("list", "List", "Sequence") and len(els) == 1:
            e = ptype(els[0], names)
            return "list[%s]" % e if e else None
        if h in ("tuple", "Tuple"):
            es = [ptype(e, names) for e in els]
            return "tuple[%s]" % ", ".join(es) if all(es) else None
        if h == "Optional" and len(els) == 1:
            e = ptype(els[0], names)
            return "opt[%s]" % e if e else None
        if h == "Annotated":
            b = last(els[0]) if not isinstance(els[0], ast.Subscript) else last(els[0].value)
            if b in ("ArrayLike", "NDArray", "ndarray"):
                for e in els[1:]:
                    if isinstance(e, ast.Constant) and isinstance(e.value, str):
                        mt = re.match(r"^\[\s*(\w+)\s*,\s*(\w+)\s*\]$", e.value)
                        if mt:
                            return "array[%s, %s]" % mt.groups()
            return None
    return None


def agree(c, p):
    """whether the C++ type and the stub annotation can describe the same values (unknown agrees)"""
    if c is None or p is None or c == p:
        return True
    mc, mp = re.match(r"array\[(\w+), (\w+)\]$", c), re.match(r"array\[(\w+), (\w+)\]$", p)
    if mc and mp:
        return all(x == y or not x.isdigit() and not y.isdigit() for x, y in zip(mc.groups(), mp.groups()))
    if (c.startswith("opt[") or p.startswith("opt[")) and c.startswith("opt[") != p.startswith("opt["):
        return agree(c[4:-1] if c.startswith("opt[") else c, p[4:-1] if p.startswith("opt[") else p)
    for pre in ("list[", "tuple["):
        if c.startswith(pre) and p.startswith(pre):
            a, b = items(c[len(pre):-1]), items(p[len(pre):-1])
            return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return False


def items(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += (ch == "[") - (ch == "]")
        cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


# ------------------------------------------------------------------ stubs
class Sig:
    def __init__(self, fd, drop_self):
        a = fd.args
        ps = [(x, True) for x in a.posonlyargs] + [(x, False) for x in a.args]
        ds = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
        self.params = [(x.arg, d, x.annotation, po) for (x, po), d in zip(ps, ds)]
        self.params += [(x.arg, d, x.annotation, False) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
        self.star = a.vararg or a.kwarg
        if drop_self and self.params:
            self.params = self.params[1:]
        self.ret, self.line = fd.returns, fd.lineno


class Stub:
    """one class of the stub file"""

    def __init__(self, cd):
        self.name, self.line = cd.name, cd.lineno
        self.bases = [last(b) for b in cd.bases]
        self.methods, self.props, self.attrs, self.cvars = {}, {}, {}, {}
        for s in cd.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                dec = [d for d in s.decorator_list]
                names = [last(d) for d in dec]
                if "property" in names or "cached_property" in names:
                    self.props.setdefault(s.name, {})["get"] = s
                elif any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in dec):
                    self.props.setdefault(s.name, {})["set"] = s
                elif any(isinstance(d, ast.Attribute) and d.attr == "deleter" for d in dec):
                    pass
                else:
                    sg = Sig(s, "staticmethod" not in names)
                    sg.static = "staticmethod" in names
                    self.methods.setdefault(s.name, []).append(sg)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                a = s.annotation
                if isinstance(a, ast.Subscript) and last(a.value) == "ClassVar":
                    self.cvars[s.target.id] = (a.slice, s.lineno)
                else:
                    self.attrs[s.target.id] = (a, s.lineno)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.cvars[t.id] = (None, s.lineno)


class File:
    def __init__(self, path):
        self.path = path
        try:
            self.tree = ast.parse(open(path, encoding="utf-8").read())
        except OSError:
            raise AnalysisBroken("%s is missing" % path)
        except SyntaxError as ex:
            raise AnalysisBroken("%s does not parse: %s" % (path, ex))
        self.classes, self.funcs, self.all, self.imports, self.vars, self.star = {}, {}, None, {}, {}, []
        self.stmts(self.tree.body)

    def stmts(self, body):
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs.setdefault(s.name, []).append(s)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(x, ast.Name):
                            self.vars[x.id] = s
                            if x.id == "__all__" and s.value is not None:
                                try:
                                    v = list(ast.literal_eval(s.value))
                                    self.all = (self.all or []) + v if isinstance(s, ast.AugAssign) else v
                                except Exception:
                                    self.all = "?"
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == "*":
                        self.star.append((s.module or "", s.level, s.lineno))
                    else:
                        self.imports[a.asname or a.name] = (s.module or "", a.name, s.lineno, s.level)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name, None, s.lineno, 0)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for b in ("body", "orelse", "finalbody"):
                    self.stmts(getattr(s, b, []) or [])
                for h in getattr(s, "handlers", []) or []:
                    self.stmts(h.body)


def rel(p):
    import facts
    r = getattr(facts, "REPO", "/repo")
    return os.path.relpath(p, r) if p.startswith(r) else p


# ------------------------------------------------------------------ the comparison
def cpp_params(F, c, fn):
    """C++ parameters (name, default node or None, type) behind a bound callable, or None"""
    if fn.target is not None:
        f = getattr(fn, "fact", None)
        if f is None:
            return None
        ps = f["params"]
        decl = decl_of(F, f)
        return [(p.get("name"), default(p, decl, i), p["t"]) for i, p in enumerate(ps)]
    if fn.kind == "init" and not fn.factory and c is not None:
        want = [(t.get("n"), t.get("ref", 0), t.get("rref", 0), t.get("ptr", 0)) for t in fn.params]
        r = F.rec.get(c.cpp)
        cands = [x for x in (r["methods"] if r else []) if x.get("ctor") and not x.get("implicit") and len(x["params"]) >= len(want)]
        exact = [x for x in cands if [(p["t"].get("n"), p["t"].get("ref", 0), p["t"].get("rref", 0), p["t"].get("ptr", 0)) for p in x["params"]][:len(want)] == want]
        loose = [x for x in cands if [re.sub(r"^const ", "", p["t"].get("n", "")) for p in x["params"]][:len(want)] == [re.sub(r"^const ", "", w[0] or "") for w in want]]
        got = exact or loose
        if len(got) != 1:
            got = [x for x in got if len(x["params"]) == len(want)]
        if len(got) != 1:
            return None
        full = F.fn.get(got[0]["id"])
        ps = got[0]["params"]
        out = []
        for i, p in enumerate(ps[:len(want)]):
            d = None
            if full and i < len(full["params"]) and isinstance(full["params"][i].get("def"), dict):
                d = full["params"][i]["def"]
            out.append((p.get("name"), d, p["t"]))
        return out
    return None


def decl_of(F, f):
    return None


def default(p, decl, i):
    return p["def"] if isinstance(p.get("def"), dict) else None


def forwarded(F, lam):
    """the member a lambda just returns from its first parameter, or None"""
    ss = [s for s in (lam["body"].get("b") or []) if s.get("k") != "null"]
    if len(ss) != 1 or ss[0].get("k") != "return":
        return None
    e = B.strip(ss[0].get("e") or {})
    if e.get("k") == "mcall" and not e.get("args"):
        return e.get("name")
    if e.get("k") == "member" and e.get("field"):
        return e.get("name") or (e.get("field") if isinstance(e.get("field"), str) else None)
    return None


def member_names(F, cpp):
    out = set()
    for b in [cpp] + [x for x in F.bases(cpp) if x != cpp]:
        r = F.rec.get(b)
        if r:
            out |= {m["name"] for m in r["methods"] if not m.get("ctor") and not m.get("dtor")}
            out |= {f["name"] for f in r["fields"]}
    return out


def compare(m, acc):
    F = m.F
    mod = B.model(F)
    here = os.path.dirname(mod.file if os.path.isabs(mod.file) else os.path.join(__import__("facts").REPO, mod.file))
    stub = File(os.path.join(here, "_factorama.pyi"))
    ini = File(os.path.join(here, "__init__.py"))
    ipyi = File(os.path.join(here, "__init__.pyi"))
    sp, ip, pp = rel(stub.path), rel(ipyi.path), rel(ini.path)
    P = "C26"
    bf = mod.file
    for u in mod.unknown:
        acc.a(P, "bindings", u)
    blind = bool(mod.unknown)

    def v(key, msg, loc):
        acc.v(P, key, msg, loc)

    pynames = set(mod.classes) | set(mod.enums)
    # ---- module level
    bound = {n for n, l in mod.names}
    fnames = {f.name for f in mod.fns}
    dup = {n for n in bound if [x for x, l in mod.names].count(n) > 1 and n not in fnames}
    for n in dup:
        v(n, "%s is bound twice" % n, bf)
    for n in sorted(bound):
        acc.o(P)
        acc.i(P, "factorama." + n)
        have = n in stub.classes or n in stub.funcs or n in stub.vars
        if not have:
            v(n, "%s is bound but not declared in the stubs" % n, sp)
        elif n in pynames and n not in stub.classes or n in fnames and n not in stub.funcs:
            v(n, "%s is declared in the stubs as something else" % n, sp)
    for n in list(stub.classes) + list(stub.funcs):
        acc.o(P)
        if n not in bound and not n.startswith("_") and not blind:
            v(n, "the stubs declare %s, which is not bound" % n, "%s:%s" % (sp, (stub.classes.get(n) or stub.funcs[n][0]).lineno))
    pub = {n for n in bound if not n.startswith("_")}
    # what the package exports
    own = {n for n in list(ini.funcs) + list(ini.classes) if not n.startswith("_")}
    star = any(mname in ("_factorama", "factorama._factorama") for mname, lv, l in ini.star)
    exported = set(own)
    if star:
        exported |= pub
    exported |= {k for k, (mname, nm, l, lv) in ini.imports.items() if mname in ("_factorama", "factorama._factorama") and nm in bound}
    if isinstance(ini.all, list):
        for n in ini.all:
            acc.o(P)
            if n not in exported and n not in ini.vars and n not in ini.imports:
                v("__all__ " + n, "__init__.py lists %s in __all__ but does not define it" % n, pp)
    for n in sorted(pub):
        acc.o(P)
        if n not in exported:
            v("export " + n, "%s is bound but the package does not export it" % n, pp)
    for f, name, want in ((stub, sp, pub), (ipyi, ip, pub | own)):
        acc.o(P, max(1, len(want)))
        if f.all is None or f.all == "?":
            if f.all == "?":
                acc.a(P, name, "__all__ is not a constant")
            continue
        for n in sorted(want - set(f.all)):
            v("%s __all__ %s" % (name, n), "%s does not list %s in __all__" % (name, n), name)
        if not blind:
            for n in sorted(x for x in set(f.all) - want if not DUNDER.match(x)):
                if n not in f.vars:
                    v("%s __all__ %s" % (name, n), "%s lists %s in __all__, which is not provided" % (name, n), name)
    got = {k for k in ipyi.imports} | set(ipyi.funcs) | set(ipyi.classes)
    istar = any("_factorama" in x for x, lv, l in ipyi.star)
    for n in sorted(pub | own):
        acc.o(P)
        if n not in got and not (istar and n in pub):
            v("%s %s" % (ip, n), "%s does not declare %s" % (ip, n), ip)
    for k, (mname, nm, l, lv) in ipyi.imports.items():
        if mname in ("factorama._factorama", "_factorama") and nm is not None:
            acc.o(P)
            if nm not in bound and not blind:
                v("%s %s" % (ip, k), "%s imports %s, which is not bound" % (ip, nm), "%s:%s" % (ip, l))
            elif k != nm and nm in bound:
                v("%s %s" % (ip, k), "%s declares %s under the name %s" % (ip, nm, k), "%s:%s" % (ip, l))
    for n in list(ipyi.funcs) + list(ipyi.classes):
        acc.o(P)
        if n not in own and not n.startswith("_") and n not in exported:
            v("%s %s" % (ip, n), "%s declares %s, which the package does not define" % (ip, n), ip)
    # ---- functions of the package itself
    for n in sorted(own & set(ini.funcs)):
        if n not in ipyi.funcs:
            continue
        a, b = Sig(ini.funcs[n][0], False), Sig(ipyi.funcs[n][0], False)
        loc = "%s:%s" % (ip, b.line)
        acc.o(P, len(a.params) + 1)
        acc.i(P, "factorama." + n)
        if [x[0] for x in a.params] != [x[0] for x in b.params]:
            v(n, "%s takes (%s) but the stub says (%s)" % (n, ", ".join(x[0] for x in a.params), ", ".join(x[0] for x in b.params)), loc)
            continue
        for x, y in zip(a.params, b.params):
            if (x[1] is None) != (y[1] is None):
                v(n, "parameter %s of %s %s a default, but not in the stub" % (x[0], n, "has" if x[1] is not None else "lacks"), loc)
            elif x[1] is not None and not ell(y[1]):
                cx, cy = const(F, x[1]), const(F, y[1])
                if cx is not None and cy is not None and not same(cx, cy):
                    v(n, "parameter %s of %s defaults to %s, %s in the stub" % (x[0], n, ast.unparse(x[1]), ast.unparse(y[1])), loc)

    # ---- callables
    def callable_(owner, c, fns, sigs, shown, line):
        """bound overloads against declared ones"""
        acc.o(P, max(len(fns), 1))
        acc.i(P, shown)
        sl = "%s:%s" % (sp, sigs[0].line if sigs else line)
        if not sigs:
            v(shown, "%s is bound but not declared in the stubs" % shown, "%s:%s" % (sp, line))
            return
        if any(f.opaque for f in fns):
            acc.a(P, shown, "the bound callable is not resolved")
            return
        if any(s.star for s in sigs):
            v(shown, "the stub of %s accepts any arguments" % shown, sl)
            return
        if len(sigs) != len(fns):
            v(shown, "%s has %d overload(s), %d in the stubs" % (shown, len(fns), len(sigs)), sl)
            return
        left = list(sigs)
        for f in fns:
            ps = f.pyparams()
            exact = [s for s in left if names_match(ps, s)]
            typed = [s for s in exact if all(agree(ctype(mod, t), ptype(p[2], pynames)) for t, p in zip(f.params, s.params))]
            pick = (typed or exact or [None])[0]
            if pick is None:
                s = left[0]
                v(shown, "%s takes (%s) but the stub says (%s)" % (shown, ", ".join(sh(n, d, i) for i, (n, d) in enumerate(ps)), ", ".join(sh(p[0], p[1] is not None, 0) for p in s.params)), "%s:%s" % (sp, s.line))
                left.remove(s)
                continue
            left.remove(pick)
            loc = "%s:%s" % (sp, pick.line)
            for i, (t, p) in enumerate(zip(f.params, pick.params)):
                acc.o(P)
                ct, pt = ctype(mod, t), ptype(p[2], pynames)
                if not agree(ct, pt):
                    v(shown, "parameter %s of %s is %s, %s in the stubs" % (p[0], shown, ct, pt), loc)
                if f.args and i < len(f.args) and f.args[i].default is not None and p[1] is not None and not ell(p[1]):
                    cx, cy = const(F, f.args[i].default), const(F, p[1])
                    if cx is not None and cy is not None and not same(cx, cy):
                        v(shown, "parameter %s of %s defaults to %s, %s in the stubs" % (p[0], shown, cx, ast.unparse(p[1])), loc)
            if f.kind != "init":
                acc.o(P)
                rt = f.ret
                ct, pt = ctype(mod, rt or {}), ptype(pick.ret, pynames)
                if not agree(ct, pt):
                    v(shown, "%s returns %s, %s in the stubs" % (shown, ct, pt), loc)

    def to_cpp(c, f, shown):
        """bound callable against the C++ declaration it stands for"""
        loc = "%s:%s" % (bf, f.line)
        cp = cpp_params(F, c, f)
        if cp is not None:
            names = [x[0] for x in cp]
            for i, a in enumerate(f.args[:len(cp)]):
                acc.o(P)
                others = [j for j, n in enumerate(names) if n == a.name and j != i]
                if others and names[i] != a.name:
                    v(shown, "argument %d of %s is called %s, which is the name of argument %d in C++" % (i + 1, shown, a.name, others[0] + 1), loc)
                if a.default is not None and cp[i][1] is not None:
                    x, y = const(F, a.default), const(F, cp[i][1])
                    if x is not None and y is not None and not same(x, y):
                        v(shown, "argument %s of %s defaults to %s, in C++ to %s" % (a.name, shown, show(x), show(y)), loc)
        seen = [a.name for a in f.args]
        for n in {x for x in seen if x and seen.count(x) > 1}:
            v(shown, "two arguments of %s are called %s" % (shown, n), loc)
        if f.kind == "init" or f.name is None or DUNDER.match(f.name):
            return
        acc.o(P)
        tn = f.target["q"].rsplit("::", 1)[-1] if f.target is not None else forwarded(F, f.lam) if f.lam else None
        if tn is None or tn.rstrip("_") == f.name:
            return
        if c is not None:
            if f.target is not None and not (F.fn.get(f.target.get("id")) or f.target or {}).get("rec"):
                return
            names = member_names(F, c.cpp)
        else:
            pre = f.target["q"].rsplit("::", 1)[0] + "::" if f.target is not None else ""
            names = {x["q"][len(pre):] for x in F.fn.values() if x["q"].startswith(pre) and "::" not in x["q"][len(pre):] and not x.get("rec")}
        if f.name in names or f.name + "_" in names:
            v(shown, "%s is bound to the C++ %s" % (shown, tn), loc)

    for n in sorted(fnames):
        fs = [f for f in mod.fns if f.name == n]
        if n in stub.funcs:
            callable_(None, None, fs, [Sig(x, False) for x in stub.funcs[n]], n, 0)
        for f in fs:
            to_cpp(None, f, n)

    # ---- classes
    for c in mod.classes.values():
        cd = stub.classes.get(c.name)
        for f in c.fns:
            to_cpp(c, f, "%s.%s" % (c.name, f.name))
        for fl in c.fields:
            field_to_cpp(F, mod, c, fl, acc, v)
        if cd is None:
            continue
        s = Stub(cd)
        loc = "%s:%s" % (sp, s.line)
        acc.o(P)
        want = [mod.by_cpp(b).name for b in c.bases if mod.by_cpp(b)]
        if [b for b in s.bases if b not in ("object", "pybind11_object")] != want:
            v(c.name, "%s derives from (%s) but the stubs say (%s)" % (c.name, ", ".join(want), ", ".join(map(str, s.bases))), loc)
        real = [b for b in F.bases(c.cpp) if b != c.cpp]
        for b in real:
            k = mod.by_cpp(b)
            acc.o(P)
            if k and b not in sum([[x.cpp for x in mod.mro(y)] for y in [c]], []):
                v(c.name, "%s derives from %s in C++ but not in Python" % (c.name, k.name), "%s:%s" % (bf, c.line))
        byname = {}
        for f in c.fns:
            byname.setdefault(f.name, []).append(f)
        for n, fs in byname.items():
            if n is None:
                continue
            if DUNDER.match(n) and n != "__init__" and n not in s.methods:
                continue
            callable_(c, c, fs, s.methods.get(n, []), "%s.%s" % (c.name, n), s.line)
            st = fs[0].kind == "static"
            if n in s.methods and n != "__init__" and any(x.static != st for x in s.methods[n]):
                v("%s.%s" % (c.name, n), "%s.%s is %sstatic, not in the stubs" % (c.name, n, "" if st else "not "), loc)
        for n in s.methods:
            acc.o(P)
            if n not in byname and not (DUNDER.match(n) and n != "__init__") and not blind:
                v("%s.%s" % (c.name, n), "the stubs declare %s.%s, which is not bound" % (c.name, n), "%s:%s" % (sp, s.methods[n][0].line))
        fields = {f.name: f for f in c.fields}
        for n, f in fields.items():
            shown = "%s.%s" % (c.name, n)
            acc.o(P, 2)
            acc.i(P, shown)
            rw = f.kind in ("readwrite", "property", "readwrite_static")
            if n in s.attrs:
                ann, l, srw = s.attrs[n][0], s.attrs[n][1], True
            elif n in s.props:
                g = s.props[n].get("get")
                ann, l, srw = (g.returns if g else None), (g.lineno if g else s.line), "set" in s.props[n]
            elif n in s.cvars:
                continue
            else:
                v(shown, "%s is bound but not declared in the stubs" % shown, loc)
                continue
            ll = "%s:%s" % (sp, l)
            if rw and not srw:
                v(shown, "%s can be assigned but the stubs say it cannot" % shown, ll)
            if srw and not rw:
                v(shown, "%s cannot be assigned but the stubs say it can" % shown, ll)
            t = f.t if f.getter is None else (f.getter.ret or {})
            ct, pt = ctype(mod, t), ptype(ann, pynames)
            if not agree(ct, pt):
                v(shown, "%s is %s, %s in the stubs" % (shown, ct, pt), ll)
        for n in list(s.attrs) + list(s.props) + list(s.cvars):
            acc.o(P)
            if n not in fields and n not in c.attrs and not DUNDER.match(n) and not blind:
                v("%s.%s" % (c.name, n), "the stubs declare %s.%s, which is not bound" % (c.name, n), loc)
    # ---- enumerations
    for e in mod.enums.values():
        cd = stub.classes.get(e.name)
        if cd is None:
            continue
        s = Stub(cd)
        loc = "%s:%s" % (sp, s.line)
        vals = {n for n, en, val, l in e.values}
        decl = {n for n in list(s.cvars) + list(s.attrs) if not DUNDER.match(n)}
        for n in sorted(vals):
            acc.o(P)
            acc.i(P, "%s.%s" % (e.name, n))
            if n not in decl:
                v("%s.%s" % (e.name, n), "%s.%s is bound but not declared in the stubs" % (e.name, n), loc)
        for n in sorted(decl - vals):
            if not blind:
                v("%s.%s" % (e.name, n), "the stubs declare %s.%s, which is not bound" % (e.name, n), loc)
        en = F.enums.get(e.cpp)
        for q in (en["e"] if en else []):
            acc.o(P)
            if not q["name"].startswith("num_") and q["v"] not in {val for n, _, val, l in e.values} and not any(val is None for n, _, val, l in e.values) \
                    and e.name.startswith("Optimizer"):
                v("%s.%s" % (e.name, q["name"]), "%s has no Python name" % q["q"], "%s:%s" % (bf, e.line))
    # ---- options and statistics
    for cpp in ("factorama::OptimizerSettings", "factorama::OptimizerStats"):
        r = F.rec.get(cpp)
        c = mod.by_cpp(cpp)
        if r is None or c is None:
            raise AnalysisBroken("%s is not bound" % cpp)
        for fl in r["fields"]:
            if fl.get("access") != "public":
                continue
            acc.o(P)
            shown = "%s.%s" % (c.name, fl["name"])
            acc.i(P, shown)
            hit = [x for x in c.fields if x.name == fl["name"]]
            if not hit:
                v(shown, "%s cannot be read or set from Python" % shown, "%s:%s" % (bf, c.line))
            elif hit[0].kind not in ("readwrite", "property"):
                v(shown, "%s cannot be set from Python" % shown, "%s:%s" % (bf, hit[0].line))


def field_to_cpp(F, mod, c, fl, acc, v):
    shown = "%s.%s" % (c.name, fl.name)
    loc = "%s:%s" % (mod.file, fl.line)
    acc.o("C26")
    acc.i("C26", shown)
    names = member_names(F, c.cpp)
    if fl.q is not None:
        tn = str(fl.q).rsplit("::", 1)[-1]
        if tn.rstrip("_") != fl.name and (fl.name in names or fl.name + "_" in names):
            v(shown, "%s is bound to the C++ member %s" % (shown, tn), loc)
        return
    for which, f in (("reads", fl.getter), ("writes", fl.setter)):
        if f is None:
            continue
        tn = f.target["q"].rsplit("::", 1)[-1] if f.target is not None else None
        if f.lam is not None:
            fs = touched(f.lam, which == "writes")
            tn = fs.pop() if len(fs) == 1 else None
        if tn is None or tn.rstrip("_") == fl.name or tn in ("set_" + fl.name, "get_" + fl.name):
            continue
        if fl.name in names or fl.name + "_" in names:
            v(shown, "%s %s the C++ member %s" % (shown, which, tn), loc)


def touched(lam, write):
    """the fields of the bound object a one-statement accessor reads or writes"""
    out = set()
    ss = [s for s in (lam["body"].get("b") or []) if s.get("k") != "null"]
    if len(ss) != 1:
        return out
    s = ss[0]
    e = B.strip(s.get("e") or {})
    if write:
        if s.get("k") == "expr" and e.get("k") in ("assign", "bin") and e.get("op") == "=":
            e = B.strip(e.get("a") or {})
        elif s.get("k") == "expr" and e.get("k") == "opcall" and e.get("op") == "=":
            e = B.strip(e["args"][0])
        elif s.get("k") == "expr" and e.get("k") == "mcall":
            return {e.get("name")}
        else:
            return out
    if e.get("k") == "member":
        out.add(e.get("name"))
    elif e.get("k") == "mcall" and not e.get("args"):
        out.add(e.get("name"))
    return out


def ell(n):
    return isinstance(n, ast.Constant) and n.value is Ellipsis


def names_match(ps, s):
    if len(ps) != len(s.params):
        return False
    for i, ((n, d), p) in enumerate(zip(ps, s.params)):
        if n is None:
            if not (p[3] or re.match(r"^arg\d+$", p[0]) or p[0].startswith("__")):
                return False
            if p[1] is not None:
                return False
        elif n != p[0] or p[3]:
            return False
        elif d != (p[1] is not None):
            return False
    return True


def sh(n, d, i):
    return (n or "arg%d" % i) + (" = ..." if d else "")


def show(v):
    return v[-1] if isinstance(v, tuple) else str(v).lower() if isinstance(v, bool) else "%g" % v if isinstance(v, float) else str(v)
