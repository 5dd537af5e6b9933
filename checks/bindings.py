"""What the Python extension exposes, read off the resolved syntax tree of its module initialiser: classes with holder and bases,
constructors, methods, properties, enumerators, functions, and the policies attached to each.  Local variables and helper functions
of the binding source are followed."""
import re
from facts import AnalysisBroken


class Unknown(Exception):
    """a construct of the binding source this reader does not understand"""


class Arg:
    def __init__(self, name, default=None, none=None):
        self.name, self.default, self.none = name, default, none        # default: None or the node of the value

    def __repr__(self):
        return self.name + ("=..." if self.default is not None else "")


class Fn:
    """one bound callable"""

    def __init__(self):
        self.name = None
        self.kind = None            # init, method, static, func, getter, setter
        self.target = None          # callee fact reference {q, rec, name, ret, pt} or None for a lambda
        self.lam = None
        self.params = []            # C++ parameter types (without self)
        self.ret = None
        self.args = []              # Arg extras
        self.policy = None
        self.keep = []
        self.line = 0
        self.factory = False
        self.opaque = None
        self.own = None             # policy of an explicit cpp_function (its own attributes, not those of def_property)

    def pyparams(self):
        """(name or None, has default) per Python parameter"""
        if self.args:
            return [(a.name, a.default is not None) for a in self.args]
        return [(None, False) for p in self.params]


class Class:
    def __init__(self, cpp, name, holder, bases, line):
        self.cpp, self.name, self.holder, self.bases, self.line = cpp, name, holder, bases, line
        self.fns, self.fields = [], []
        self.attrs = []

    def members(self, name):
        return [f for f in self.fns if f.name == name]


class Field:
    def __init__(self, name, kind, q, t, line, policy=None):
        self.name, self.kind, self.q, self.t, self.line, self.policy = name, kind, q, t, line, policy
        self.getter = self.setter = None


class Enum:
    def __init__(self, cpp, name, line):
        self.cpp, self.name, self.line = cpp, name, line
        self.values = []            # (python name, enumerator name, value, line)
        self.exported = False


class Module:
    def __init__(self):
        self.classes, self.enums, self.fns, self.attrs = {}, {}, [], []
        self.names = []             # (python name, line) in order, duplicates kept
        self.unknown = []
        self.file = None

    def by_cpp(self, q):
        for c in self.classes.values():
            if c.cpp == q:
                return c
        return None

    def mro(self, c):
        out = [c]
        for b in c.bases:
            k = self.by_cpp(b)
            if k:
                out += [x for x in self.mro(k) if x not in out]
        return out


def strip(n):
    while isinstance(n, dict) and n.get("k") in ("cast", "copy", "paren", "temp", "bind", "cleanup", "materialize", "construct") and (
            n.get("k") != "construct" or len(n.get("args", [])) == 1 and n.get("rec") == (n["args"][0].get("t") or {}).get("n")):
        n = n["args"][0] if n["k"] == "construct" else n["e"]
    return n


class Reader:
    def __init__(self, F):
        self.F = F
        self.m = Module()
        self.depth = 0

    def read(self):
        fs = [f for f in self.F.fn.values() if re.match(r"pybind11_init_", f["q"]) and "body" in f]
        if len(fs) != 1:
            raise AnalysisBroken("no module initialiser in the binding source")
        f = fs[0]
        self.m.file = f["file"]
        env = {}
        for p in f["params"]:
            env[p.get("id")] = self.m
        self.block(f["body"], env)
        if not self.m.classes:
            raise AnalysisBroken("the module initialiser binds no class")
        return self.m

    def block(self, b, env):
        for s in (b.get("b") if isinstance(b, dict) else b) or []:
            try:
                self.stmt(s, env)
            except Unknown as u:
                self.m.unknown.append("%s:%s: %s" % (self.m.file, s.get("l"), u))

    def stmt(self, s, env):
        k = s.get("k")
        if k == "expr":
            self.ev(s["e"], env)
        elif k == "decl":
            for d in s["d"]:
                if d.get("init") is not None:
                    env[d["id"]] = self.ev(d["init"], env)
        elif k == "block":
            self.block(s, env)
        elif k in ("null", "return"):
            if s.get("e") is not None:
                return self.ev(s["e"], env)
        else:
            raise Unknown("statement %s" % k)

    # --- values
    def ev(self, n, env):
        n0 = n
        n = strip(n)
        k = n.get("k")
        if k == "str":
            return n["v"]
        if k == "int" or k == "boollit" or k == "float":
            return n
        if k == "defarg":
            return None
        if k == "ref":
            if n.get("dk") in ("param", "local"):
                if n.get("id") in env:
                    return env[n["id"]]
                raise Unknown("variable %s" % n.get("name"))
            return n
        if k == "construct":
            rec = n.get("rec", "")
            if rec in ("pybind11::class_", "pybind11::enum_", "pybind11::exception"):
                return self.entity(rec, n, env)
            if rec in ("pybind11::arg", "pybind11::arg_v"):
                nm = self.ev(n["args"][0], env)
                if isinstance(nm, Arg):
                    nm = nm.name
                return Arg(nm, n["args"][1] if rec.endswith("arg_v") and len(n["args"]) > 1 else None)
            return n
        if k == "opcall":
            return self.opcall(n, env)
        if k == "mcall":
            return self.mcall(n, env)
        if k == "call":
            return self.call(n, env)
        if k == "lambda":
            return ("lambda", n, env)
        return n

    def entity(self, rec, n, env):
        targs = (n.get("t") or {}).get("targs") or []
        args = n["args"]
        scope = self.ev(args[0], env)
        name = self.ev(args[1], env)
        if not isinstance(name, str):
            raise Unknown("name of a bound class")
        line = n.get("l") or args[1].get("l") or 0
        cpp = targs[0] if targs else None
        if rec == "pybind11::enum_":
            e = Enum(cpp, name, line)
            self.m.enums[name] = e
            self.m.names.append((name, line))
            e.scope = scope
            return e
        if rec == "pybind11::exception":
            self.m.names.append((name, line))
            self.m.attrs.append(name)
            return n
        holder, bases = None, []
        for t in targs[1:]:
            if re.match(r"(const )?std::(shared_ptr|unique_ptr)<", str(t)):
                holder = t
            elif t in self.F.rec:
                bases.append(t)
        for a in args[2:]:
            b = strip(a)
            if b.get("k") == "construct" and b.get("rec") == "pybind11::base":
                bases += (b.get("t") or {}).get("targs") or []
        c = Class(cpp, name, holder or "std::unique_ptr<%s>" % cpp, bases, line)
        if name in self.m.classes:
            self.m.unknown.append("two classes named " + name)
        self.m.classes[name] = c
        self.m.names.append((name, line))
        return c

    def opcall(self, n, env):
        op = n.get("op")
        if op == "=":
            a = strip(n["args"][0])
            if a.get("k") == "mcall" and a.get("name") == "attr":
                o = self.ev(a["obj"], env)
                nm = self.ev(a["args"][0], env)
                if isinstance(o, Module):
                    self.m.attrs.append(nm)
                    self.m.names.append((nm, n.get("l", 0)))
                elif isinstance(o, Class):
                    o.attrs.append(nm)
                return None
            if a.get("k") == "mcall" and a.get("name") == "doc":
                return None
            l = self.ev(n["args"][0], env)
            if isinstance(l, Arg):
                return Arg(l.name, n["args"][1], l.none)
            return None
        if op == "()":
            f = self.ev(n["args"][0], env)
            if isinstance(f, tuple) and f[0] == "lambda":
                return self.inline(f[1]["params"], f[1]["body"], [self.ev(a, env) for a in n["args"][1:]], dict(f[2]))
            return n
        return n

    def inline(self, params, body, vals, env):
        if self.depth > 8:
            raise Unknown("recursion in the binding source")
        for p, v in zip(params, vals):
            env[p.get("id")] = v
        self.depth += 1
        try:
            r = None
            for s in body.get("b") or []:
                x = self.stmt(s, env)
                if s.get("k") == "return":
                    r = x
            return r
        finally:
            self.depth -= 1

    def call(self, n, env):
        q = (n.get("callee") or {}).get("q", "")
        if q in ("std::move", "std::forward"):
            return self.ev(n["args"][0], env)
        if q.startswith("pybind11::") and q.replace(" ", "").endswith('operator""_a'):
            return Arg(self.ev(n["args"][0], env), None)
        if q.startswith("pybind11::"):
            return n
        f = self.F.fn.get((n.get("callee") or {}).get("id")) or next((x for x in self.F.by_q.get(q, []) if "body" in x and len(x["params"]) == len(n["args"])), None)
        if f and "body" in f:
            return self.inline(f["params"], f["body"], [self.ev(a, env) for a in n["args"]], {})
        return n

    def mcall(self, n, env):
        o = self.ev(n["obj"], env)
        name = n["name"]
        if isinstance(o, Arg):
            if name == "none":
                v = self.ev(n["args"][0], env) if n["args"] else None
                return Arg(o.name, o.default, (v or {}).get("v", True) if isinstance(v, dict) else True)
            if name == "noconvert":
                return o
        if isinstance(o, Enum):
            if name == "value":
                nm = self.ev(n["args"][0], env)
                r = strip(n["args"][1])
                o.values.append((nm, r.get("name"), r.get("v"), n.get("l", 0)))
                return o
            if name == "export_values":
                o.exported = True
                return o
            return o
        if isinstance(o, (Class, Module)):
            if name in ("def", "def_static"):
                fn = self.fn(n, env, o, name)
                (o.fns if isinstance(o, Class) else self.m.fns).append(fn)
                if isinstance(o, Module):
                    self.m.names.append((fn.name, fn.line))
                return o
            if name in ("def_readwrite", "def_readonly", "def_readwrite_static", "def_readonly_static"):
                nm = self.ev(n["args"][0], env)
                r = strip(n["args"][1])
                if r.get("k") == "unary":
                    r = strip(r["e"])
                f = Field(nm, name[4:], r.get("q") or r.get("name"), r.get("t") or {}, n.get("l", 0))
                f.policy = self.extras([self.ev(a, env) for a in n["args"][2:]], n["args"][2:])[1]
                o.fields.append(f)
                return o
            if name in ("def_property", "def_property_readonly", "def_property_static", "def_property_readonly_static"):
                nm = self.ev(n["args"][0], env)
                f = Field(nm, "property" if name == "def_property" else "property_ro", None, {}, n.get("l", 0))
                k = 2 if "readonly" in name else 3
                f.getter = self.target(Fn(), n["args"][1], env, o)
                f.getter.kind, f.getter.name, f.getter.line = "getter", nm, f.line
                if k == 3:
                    f.setter = self.target(Fn(), n["args"][2], env, o)
                ex = self.extras([self.ev(a, env) for a in n["args"][k:]], n["args"][k:])
                f.policy = f.getter.policy = ex[1] or f.getter.own
                f.getter.keep = ex[2] or f.getter.keep
                o.fields.append(f)
                return o
            if name == "attr":
                return n
            if name == "doc":
                return n
            if name == "def_submodule":
                raise Unknown("submodule")
            if name == "import":
                return n
            raise Unknown("%s on a bound object" % name)
        return n

    def extras(self, vals, nodes):
        args, policy, keep = [], None, []
        for v, n in zip(vals, nodes):
            s = strip(n)
            if isinstance(v, Arg):
                args.append(v)
            elif isinstance(v, str) or v is None:
                pass
            elif isinstance(v, dict):
                if v.get("k") == "ref" and v.get("dk") == "enum" and "return_value_policy" in (v.get("enum") or v.get("q") or ""):
                    policy = v["name"]
                elif (v.get("t") or {}).get("n", "").startswith("pybind11::keep_alive") or v.get("rec") == "pybind11::keep_alive":
                    keep.append(tuple(int(x) for x in (v.get("t") or {}).get("targs", [])[:2]))
                elif v.get("k") == "str":
                    pass
        return args, policy, keep

    def fn(self, n, env, owner, how):
        f = Fn()
        f.line = n.get("l", 0)
        a = n["args"]
        v0 = self.ev(a[0], env)
        if isinstance(v0, str):
            f.name = v0
            rest = a[2:]
            self.target(f, a[1], env, owner)
            f.kind = "static" if how == "def_static" else "func" if isinstance(owner, Module) else "method"
        else:
            t = strip(a[0])
            f.kind, f.name = "init", "__init__"
            rest = a[1:]
            if t.get("k") == "call" and t.get("callee", {}).get("q") == "pybind11::init":
                fac = [strip(x) for x in t["args"]]
                if fac:
                    self.target(f, t["args"][0], env, owner, True)
                    f.factory = True
                else:
                    f.params = [parse(x) for x in t["callee"].get("targs") or []]
                f.ret = None
            else:
                f.opaque = "constructor binding"
        ex = [x for x in rest]
        inner = f.args, f.own, f.keep
        f.args, f.policy, f.keep = self.extras([self.ev(x, env) for x in ex], ex)
        f.args, f.policy, f.keep = f.args or inner[0] or [], f.policy or inner[1], f.keep or inner[2] or []
        return f

    def target(self, f, node, env, owner, static=False):
        v = strip(node)
        if v.get("k") == "ref" and v.get("dk") in ("param", "local") and v.get("id") in env:
            v = env[v["id"]]
            if isinstance(v, tuple):
                v = v[1]
        if isinstance(v, dict) and v.get("k") == "opcall":       # overload_cast
            for x in v["args"][1:]:
                r = strip(x)
                if r.get("k") == "unary":
                    v = r
                    break
        if isinstance(v, dict) and v.get("k") == "unary" and v.get("op") == "+":
            v = strip(v["e"])
        if isinstance(v, dict) and v.get("k") == "unary":
            v = strip(v["e"])
        while isinstance(v, dict) and v.get("k") in ("construct", "cast", "call") and len(v.get("args") or []) == 1 and strip(v["args"][0]).get("rec") == "pybind11::cpp_function":
            v = strip(v["args"][0])        # copies and moves of a cpp_function
        if isinstance(v, dict) and v.get("k") in ("call", "construct") and "pybind11::cpp_function" in (v.get("rec"), v.get("callee", {}).get("q")) and v.get("args"):
            self.target(f, v["args"][0], env, owner, static)
            # a cpp_function carries its own attributes; def_property adds none to it
            f.args, pol, f.keep = self.extras([self.ev(a, env) for a in v["args"][1:]], v["args"][1:])
            f.policy = f.own = pol or "automatic"
            return f
        if isinstance(v, dict) and v.get("k") == "ref" and v.get("dk") in ("fn", "method"):
            c = v["callee"]
            f.target = c
            f.params = list(c.get("pt") or [])
            f.ret = c.get("ret")
            full = [x for x in self.F.by_q.get(c["q"], []) if key(x) == key(c)]
            f.fact = full[0] if full else None
            return f
        if isinstance(v, dict) and v.get("k") == "lambda":
            f.lam = v
            ps = [p["t"] for p in v["params"]]
            f.params = ps[1:] if isinstance(owner, Class) and not static else ps
            f.ret = v.get("ret")
            return f
        f.opaque = "bound callable of kind %s" % (v.get("k") if isinstance(v, dict) else type(v).__name__)
        return f


def key(f):
    pt = f.get("pt") if "pt" in f else [p["t"] for p in f.get("params", [])]
    return [(t.get("n"), t.get("ref", 0), t.get("rref", 0), t.get("ptr", 0)) for t in pt] + [bool(f.get("const"))]


def parse(s):
    """a printed type as a type fact"""
    s = str(s).strip()
    t = {}
    if s.endswith("&&"):
        t["rref"], s = 1, s[:-2].strip()
    elif s.endswith("&"):
        t["ref"], s = 1, s[:-1].strip()
    if s.endswith("*"):
        t["ptr"] = 1
        p = s[:-1].strip()
        if p.startswith("const "):
            t["pconst"], p = 1, p[6:]
        t["pointee"] = p
    elif s.startswith("const "):
        t["const"], s = 1, s[6:]
    t["n"] = s
    if s in ("double", "float"):
        t["fp"] = 1
    return t


_cache = {}


def model(F):
    if id(F) not in _cache:
        _cache[id(F)] = Reader(F).read()
    return _cache[id(F)]
