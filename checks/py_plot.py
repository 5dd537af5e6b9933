"""C25: what the Python helpers of the package read from the library exists for every object that can reach them.

Abstract interpretation of the package source over sets of states.  A library object is a set of possible kinds, narrowed by tests of
its type; a value that is not understood carries the objects it was computed from, and a test on it makes those objects unknown, so
that nothing is said about them afterwards."""
import ast, builtins, os
import algebra as al, interp as I, model as M, bindings as B, factor_checks as FC, decl_checks as DC, py_checks as PC, py_stubs as PS
import effects as E
from facts import AnalysisBroken
from interp import Vec, Obj, Unsupported, UB, Throw

CAP = 256           # states kept apart at a program point
ROUNDS = 6
NONE = ("const", None)
THROWS = "throws"
ANY = ("?",)
OBJ_ATTRS = {"__class__", "__doc__", "__dict__", "__eq__", "__ne__", "__hash__", "__repr__", "__str__", "__init__", "__module__", "__dir__", "__reduce__", "__sizeof__", "__init_subclass__", "__getattribute__", "__setattr__", "__delattr__", "__format__", "__new__", "__reduce_ex__", "__subclasshook__", "__lt__", "__le__", "__gt__", "__ge__"}
ENUM_ATTRS = OBJ_ATTRS | {"name", "value", "__members__", "__int__", "__index__", "__entries"}
SAFE = {"id", "is_constant", "set_constant", "apply_increment", "set_value_from_vector"}     # say nothing of the kind of object


class Stop(Exception):
    pass


def top(*vals):
    d = frozenset()
    for v in vals:
        d |= deps(v)
    return ("top", d)


def deps(v, depth=0):
    k = v[0]
    if depth > 4:
        return frozenset()
    if k == "top":
        return v[1]
    if k in ("obj", "type", "size", "varsof"):
        return frozenset([v[1]])
    if k in ("arr", "first"):
        return v[2]
    if k == "bound":
        return deps(v[1], depth + 1)
    if k in ("tuple", "snap"):
        return frozenset().union(*[deps(x, depth + 1) for x in v[1]]) if k == "tuple" and v[1] else frozenset()
    return frozenset()


class State:
    """env: name -> value; heap: object -> kinds, list -> element; facts: symbol -> truth"""
    __slots__ = ("env", "heap", "facts")

    def __init__(self, env=None, heap=None, facts=None):
        self.env, self.heap, self.facts = env if env is not None else {}, heap if heap is not None else {}, facts if facts is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()))


def refs(v):
    k = v[0]
    if k in ("obj", "list", "type", "size", "varsof"):
        yield v[1]
    elif k in ("top",):
        for x in v[1]:
            yield x
    elif k in ("arr", "first"):
        for x in v[2]:
            yield x
    elif k == "bound":
        for x in refs(v[1]):
            yield x
    elif k in ("tuple", "union"):
        for e in v[1]:
            for x in refs(e):
                yield x
    elif k == "elem":
        for x in refs(v[1]):
            yield x


class Lib:
    """the library as Python sees it"""

    def __init__(self, m):
        self.m, self.F = m, m.F
        self.mod = B.model(m.F)
        self.types, self.unknown = DC.type_values(m)
        self.py = {}
        self.kinds = {}         # python class name -> kinds it can be at run time
        self.vkinds, self.fkinds = [], []
        self.typeof, self.pyclass, self.vars_of, self.size_of = {}, {}, {}, {}
        for cls in m.vars:
            k = (cls, 0)
            self.vkinds.append(k)
            self.reg(k, cls)
            self.size_of[k] = self.size(cls)
        for cls in m.facs:
            seen = {}
            for cfg in self.accepted(cls):
                vs = self.varlist(cls, cfg)
                if vs is THROWS:
                    continue
                if vs not in seen:
                    k = (cls, len(seen) + 1)
                    seen[vs] = k
                    self.fkinds.append(k)
                    self.reg(k, cls)
                    self.vars_of[k] = vs
        for c in self.mod.classes.values():
            if c.cpp in (M.VAR, M.FAC):
                self.kinds[c.name] = tuple(self.vkinds if c.cpp == M.VAR else self.fkinds)
            elif c.cpp in m.vars or c.cpp in m.facs:
                self.kinds[c.name] = tuple(k for k in self.vkinds + self.fkinds if c.cpp in self.F.bases(k[0]) or k[0] == c.cpp)
            else:
                k = (c.cpp, 0)
                self.kinds[c.name] = (k,)
                self.reg(k, c.cpp)

    def by_name(self):
        if not hasattr(self, "_names"):
            self._names = {}
            for c in self.mod.classes.values():
                for f in c.fns:
                    if f.kind in ("method", "static"):
                        self._names.setdefault(f.name, []).append(f)
            for f in self.mod.fns:
                self._names.setdefault(f.name, []).append(f)
        return self._names

    def effect(self, f):
        """what of the graph, its variables and factors a bound callable changes ('' nothing, None not known)"""
        if not hasattr(self, "_eff"):
            self._eff = E.Effects(self.m)
        return self._eff.bound(f)

    def reg(self, k, cls):
        c = self.mod.by_cpp(cls)
        if c is None:
            for b in self.F.bases(cls):
                c = c or self.mod.by_cpp(b)
        self.pyclass[k] = c
        ts = {t for t, i, s in self.types.get(cls, ())}
        self.typeof[k] = ts.pop() if len(ts) == 1 and cls not in self.unknown else None

    def size(self, cls):
        got = set()

        def run(p):
            al.set_ctx(al.Ctx())
            it = self.m.interp(p)
            return it.method(self.m.make_var(it, cls, "v", vid=7), "size", [])
        if cls.endswith("GenericVariable"):
            return None
        for p, r, err in I.explore(run, 40):
            if err is None and r is not None:
                got.add(r)
            elif err is not None and not isinstance(err, Throw):
                return None
        return got.pop() if len(got) == 1 and isinstance(list(got)[0], int) else None

    def accepted(self, cls):
        """constructor arguments, one per combination of variable classes that the parameter types allow"""
        by = {}
        out = []
        for cfg in FC.configs(self.m, cls):
            key = tuple(cfg["ptr"][k] for k in sorted(cfg["ptr"]))
            if by.setdefault(key, cfg) is cfg:
                out.append(cfg)
        for cfg in self.m.configs(cls):
            ks = sorted(cfg["ptr"])
            if len(ks) > 3 or any(cfg["int"].values()) or any(cfg["bool"].values()) or any(cfg["ptr"][k][0] is None for k in ks):
                continue
            # sizes that agree are what constructors ask for: a free-size variable takes the size of another argument, or 2 or 3
            fixed = {self.size_of.get((cfg["ptr"][k][0], 0)) for k in ks} - {None}
            free = [k for k in ks if cfg["ptr"][k][0].endswith("GenericVariable")]
            if any(cfg["ptr"][k][1] != 3 for k in free):
                continue
            for d in sorted(fixed | {2, 3}):
                c = dict(cfg, ptr=dict(cfg["ptr"]))
                for k in free:
                    c["ptr"][k] = (cfg["ptr"][k][0], d)
                key = tuple(c["ptr"][k] for k in ks)
                if by.setdefault(key, c) is c:
                    out.append(c)
                if not free:
                    break
        return out

    def varlist(self, cls, cfg):
        """classes of the variables of a factor, None when not known, THROWS when the constructor refuses the arguments"""
        out = set()
        threw = False

        def run(p):
            al.set_ctx(al.Ctx())
            it = self.m.interp(p)
            o = self.m.build(it, cls, cfg)[0]
            v = it.method(o, "variables", [])
            return tuple((x.cls if isinstance(x, Obj) else None) for x in elements(v))
        try:
            for p, r, err in I.explore(run, 400):
                if err is None and r is not None:
                    out.add(r)
                elif isinstance(err, (Throw, UB)):
                    threw = True
                elif err is not None:
                    return None
        except Exception:
            return None
        if not out and threw:
            return THROWS
        return out.pop() if len(out) == 1 else None

    def attrs(self, c):
        """attribute -> list of Fn, Field or None"""
        if c is None:
            return None
        if c.name not in self.py:
            d = {}
            for x in self.mod.mro(c)[::-1]:
                for f in x.fns:
                    if f.name:
                        d.setdefault(f.name, [])
                seen = {}
                for f in x.fns:
                    seen.setdefault(f.name, []).append(f)
                for n, fs in seen.items():
                    d[n] = fs
                for f in x.fields:
                    d[f.name] = f
                for a in x.attrs:
                    d[a] = None
            self.py[c.name] = d
        return self.py[c.name]


def elements(v):
    """the objects a vector of pointers points to"""
    while isinstance(v, I.Cell):
        v = v.v
    if not isinstance(v, Vec):
        raise Unsupported("list of variables")
    out = []
    for x in v.c:
        for _ in range(6):
            if isinstance(x, Obj) or x is None:
                break
            x = getattr(x, "v", None) if hasattr(x, "v") else getattr(x, "obj", None) if hasattr(x, "obj") else getattr(x, "o", None)
        out.append(x)
    return out


class Site:
    """judgement of one program site over all states that reach it"""

    def __init__(self):
        self.bad, self.ok, self.msg, self.line, self.soft = 0, 0, None, 0, False


class Interp:
    def __init__(self, m, acc, path, pyi):
        self.lib = Lib(m)
        self.m, self.acc = m, acc
        self.file = PS.File(path)
        self.pyi = pyi
        self.loc = PS.rel(path)
        self.pynames = set(self.lib.mod.classes) | set(self.lib.mod.enums)
        self.bound = {n for n, l in self.lib.mod.names if not n.startswith("_")}
        self.allbound = {n for n, l in self.lib.mod.names}
        self.sites = {}
        self.done = set()
        self.fn = "module"
        self.depth = 0
        self.guard = 0
        self.counter = 0
        self.scopes = []
        self.globals = self.module_names()
        self.steps = 0
        self.stack = ()
        self.visited = set()
        self.done = set()
        self.live = {}

    # ---- module level
    def module_names(self):
        g = {}
        f = self.file
        self.star = any("_factorama" in x for x, lv, l in f.star)
        self.openstar = any("_factorama" not in x for x, lv, l in f.star)
        if self.star:
            for n in self.bound:
                g[n] = self.libname(n)
        for k, (mod, nm, l, lv) in f.imports.items():
            if nm is None:
                g[k] = ("ext", "factorama") if mod.split(".")[0] == "factorama" else ("mod", mod)
            elif mod in ("_factorama", "factorama._factorama") :
                self.o()
                if nm not in self.allbound:
                    self.hard(("import", nm), "%s is imported but not provided by the bindings" % nm, l)
                    g[k] = top()
                else:
                    g[k] = self.libname(nm)
            elif nm == "_factorama" and lv:
                g[k] = ("ext", "_factorama")
            else:
                g[k] = top()
        for n in f.vars:
            s = f.vars[n]
            g[n] = ("lazy", n) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and sum(1 for x in ast.walk(f.tree) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store)) == 1 else top()
        for n, fs in f.funcs.items():
            g[n] = ("func", n) if len(fs) == 1 and not fs[0].decorator_list else top()
        for n in f.classes:
            g[n] = top()
        return g

    def libname(self, n):
        if n in self.lib.mod.enums:
            return ("enum", n)
        if n in self.lib.mod.classes:
            return ("cls", n)
        return ("libfn", n) if any(f.name == n for f in self.lib.mod.fns) else top()

    # ---- reporting
    def o(self, *what):
        """one obligation per program site and kind of object, however many states reach it"""
        import sys as _s
        fr = _s._getframe(1)
        n = fr.f_locals.get("n") or fr.f_locals.get("node")
        key = (self.fn, getattr(n, "lineno", fr.f_locals.get("line")), getattr(n, "col_offset", None), fr.f_lineno, what)
        if key not in self.done:
            self.done.add(key)
            self.acc.o("C25")

    def hard(self, key, msg, line):
        """wrong in any state that reaches it"""
        if self.guard:
            return
        s = self.sites.setdefault(key, Site())
        s.bad += 1
        s.msg, s.line = s.msg or msg, line
        s.fnname = self.fn

    def soft(self, key, bad, msg, line):
        """wrong only if it is wrong in every state that reaches it"""
        s = self.sites.setdefault(key, Site())
        s.soft = True
        if bad and not self.guard:
            s.bad += 1
            s.msg, s.line, s.fnname = msg, line, self.fn
        else:
            s.ok += 1

    def report(self):
        for key, s in self.sites.items():
            if s.bad and not (s.soft and s.ok):
                self.acc.v("C25", "%s: %s" % (s.fnname, s.msg), "%s: %s" % (s.fnname, s.msg), "%s:%s" % (self.loc, s.line))

    def abst(self, what, line=None):
        self.acc.a("C25", "%s%s" % (self.fn, ":%s" % line if line else ""), what)

    # ---- states
    def norm(self, states):
        out = {}
        for s in states:
            self.gc(s)
            out.setdefault(s.key(), s)
        out = list(out.values())
        return [self.join(out)] if len(out) > CAP else out

    def gc(self, s):
        live, work = set(), [v for v in s.env.values()]
        for f in self.scopes:
            work += list(f)
        while work:
            v = work.pop()
            for r in refs(v):
                if r not in live:
                    live.add(r)
                    h = s.heap.get(r)
                    if isinstance(h, tuple):
                        work.append(h)
        for k in [k for k in s.heap if k not in live]:
            del s.heap[k]

    def join(self, states):
        self.abst("more than %d states kept apart; joined" % CAP)
        e, h, f = {}, {}, {}
        names = set().union(*[s.env for s in states])
        for n in names:
            vs = {s.env.get(n) for s in states}
            if len(vs) == 1:
                e[n] = vs.pop()
            else:
                d = frozenset().union(*[deps(v) for v in vs if v is not None])
                e[n] = ("top", d)
        ids = set().union(*[s.heap for s in states])
        for i in ids:
            vs = {s.heap.get(i) for s in states} - {None}
            if len(vs) > 1:
                vs -= {("elem", ("bot",))}
            if len(vs) == 1:
                h[i] = vs.pop()
            elif any(isinstance(v, tuple) for v in vs):
                h[i] = top()
            else:
                h[i] = frozenset([ANY])
        for n in set.intersection(*[set(s.facts) for s in states]):
            vs = {s.facts[n] for s in states}
            if len(vs) == 1:
                f[n] = vs.pop()
        return State(e, h, f)

    # ---- objects
    def new_obj(self, s, ident, kinds):
        ident = (ident, self.stack)
        if ident in s.heap:             # the previous object of this site keeps its kinds but loses its name
            old = (ident, "old")
            kinds0 = s.heap[ident] | s.heap.get(old, frozenset())
            s.heap[old] = kinds0
            self.rename(s, ident, old)
        for k in list(s.heap):
            if isinstance(k, tuple) and len(k) == 3 and k[0] == "var" and k[1] == ident:
                self.rename(s, k, ("var", (ident, "old"), k[2]))
                nk = ("var", (ident, "old"), k[2])
                s.heap[nk] = s.heap.get(nk, frozenset()) | s.heap.pop(k)
        s.heap[ident] = frozenset(kinds)
        return ("obj", ident)

    def rename(self, s, a, b):
        def r(v):
            k = v[0]
            if k in ("obj", "type", "size", "varsof") and v[1] == a:
                return (k, b) + v[2:]
            if k == "top" and a in v[1]:
                return ("top", (v[1] - {a}) | {b})
            if k in ("arr", "first") and a in v[2]:
                return (k, v[1], (v[2] - {a}) | {b})
            if k == "bound":
                return ("bound", r(v[1]), v[2])
            if k in ("tuple",):
                return (k, tuple(r(x) for x in v[1]))
            if k == "elem":
                return ("elem", r(v[1]))
            return v
        for n, v in s.env.items():
            s.env[n] = r(v)
        for k, v in list(s.heap.items()):
            if isinstance(v, tuple):
                s.heap[k] = r(v)

    def kinds(self, s, v):
        return s.heap.get(v[1], frozenset([ANY]))

    def forget(self, s, ids):
        for i in ids:
            if i in s.heap and isinstance(s.heap[i], frozenset):
                s.heap[i] = frozenset([ANY])
            # the variables of a factor that is no longer known
            for k in list(s.heap):
                if isinstance(k, tuple) and len(k) == 3 and k[0] == "var" and k[1] == i:
                    s.heap[k] = frozenset([ANY])

    def snap(self, s, v):
        """what a container remembers of a value"""
        if v[0] == "obj":
            return ("snap", self.kinds(s, v))
        if v[0] == "tuple":
            return ("tuple", tuple(self.snap(s, x) for x in v[1]))
        if v[0] in ("type", "size", "varsof", "bound"):
            return top()
        if v[0] == "top":
            return top()
        if v[0] in ("arr", "first"):
            return (v[0], v[1], frozenset())
        return v

    def unsnap(self, s, v, ident):
        if v is None:
            return None
        if v[0] == "snap":
            return self.new_obj(s, ident, v[1])
        if v[0] == "tuple":
            return ("tuple", tuple(self.unsnap(s, x, (ident, i)) for i, x in enumerate(v[1])))
        return v

    def put(self, s, lst, v):
        """weak update of a container's element"""
        i = lst[1]
        old = s.heap.get(i)
        new = self.snap(s, v)
        if old is None or old == ("elem", ("bot",)):
            s.heap[i] = ("elem", new)
        elif old != ("elem", new):
            s.heap[i] = ("elem", self.merge(old[1] if old[0] == "elem" else top(), new))

    def merge(self, a, b):
        if a == b:
            return a
        if a[0] == "arr" and b[0] == "arr":
            return ("arr", tuple(x if x == y else None for x, y in zip(a[1], b[1])) if a[1] and b[1] and len(a[1]) == len(b[1]) else None, frozenset())
        if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) == len(b[1]):
            return ("tuple", tuple(self.merge(x, y) for x, y in zip(a[1], b[1])))
        return top()

    def elem_of(self, s, v, ident):
        """an arbitrary element of an iterable, or ('bot',) when it is empty"""
        k = v[0]
        if k == "list":
            h = s.heap.get(v[1])
            if h is None or h == ("elem", ("bot",)):
                return ("bot",) if h is not None else top()
            if h[0] != "elem":
                return top()
            return self.unsnap(s, h[1], ident)
        if k == "all":
            return self.new_obj(s, ident, v[1])
        if k == "tuple":
            if not v[1]:
                return ("bot",)
            return v[1][0] if all(x == v[1][0] for x in v[1]) else top(v)
        if k == "varsof":
            ks = s.heap.get(v[1], frozenset([ANY]))
            out = set()
            for x in ks:
                vs = None if x == ANY else self.lib.vars_of.get(x)
                if vs is None or None in vs:
                    return top(v)
                out |= {(c, 0) for c in vs}
            # the factor restricts which variable this is: keep no more than the union
            return self.new_obj(s, ident, out) if out else ("bot",)
        if k == "arr":
            return ("arr", v[1][1:], v[2]) if v[1] and len(v[1]) > 1 else top(v)
        return top(v)

    # ---- calls of bound callables
    def arity(self, fns, args, kws, what, line):
        """whether some overload takes the arguments (args: count or None when not known)"""
        self.o()
        if args is None or kws is None:
            return
        why = None
        for f in fns:
            if f.opaque:
                return
            ps = f.pyparams()
            names = [n for n, d in ps]
            if len(args) > len(ps):
                continue
            bad = [k for k in kws if k not in names[len(args):]]
            if bad:
                continue
            given = set(names[:len(args)]) | set(kws)
            miss = [i for i, (n, d) in enumerate(ps[len(args):]) if not d and (n is None or n not in kws)]
            if miss:
                continue
            return f
        sh = " or ".join("(%s)" % ", ".join((n or "arg%d" % i) + ("=..." if d else "") for i, (n, d) in enumerate(f.pyparams())) for f in fns)
        got = ", ".join(["..."] * len(args) + ["%s=..." % k for k in kws])
        self.hard(("arity", what, line), "%s is called with (%s) but takes %s" % (what, got, sh), line)
        return None

    def result(self, s, fns, recv, name, node, args):
        """abstract result of a bound callable"""
        ident = ("call", node.lineno, node.col_offset)
        if not fns:
            return top(recv, *args) if recv else top(*args)
        d = (deps(recv) if recv is not None else frozenset()) | frozenset().union(*[deps(a) for a in args]) if args or recv is not None else frozenset()
        if name in SAFE and recv is not None:
            d = frozenset(d)
        if len({repr(f.ret) for f in fns}) != 1:
            return ("top", d)
        t = fns[0].ret or {}
        return self.of_type(s, t, d, ident, recv, name)

    def of_type(self, s, t, d, ident, recv, name):
        ct = PS.ctype(self.lib.mod, t)
        if ct is None:
            return ("top", d)
        if ct == "None":
            return NONE
        if ct.startswith("array["):
            dims = [x.strip() for x in ct[6:-1].split(",")]
            r, c = [int(x) if x.isdigit() else None for x in dims]
            if c == 1:
                return ("arr", (r,), d)
            if r == 1:
                return ("arr", (c,), d)
            return ("arr", (r, c), d)
        if ct.startswith("tuple["):
            from py_checks import targs, tparse
            return ("tuple", tuple(self.of_type(s, tparse(a), d, (ident, i), None, None) for i, a in enumerate(targs(t))))
        if ct.startswith("list["):
            inner = ct[5:-1]
            ks = self.lib.kinds.get(inner)
            if ks is None:
                return ("top", d)
            base = inner in [c.name for c in self.lib.mod.classes.values() if c.cpp in (M.VAR, M.FAC)]
            if not base or recv is not None and recv[0] == "obj" and all(k != ANY and k[0].endswith("FactorGraph") for k in self.kinds(s, recv)):
                return ("all", frozenset(ks))
            return ("top", d)
        if ct in self.lib.kinds:
            ks = self.lib.kinds[ct]
            if name == "clone" and recv is not None and recv[0] == "obj":
                return self.new_obj(s, ident, self.kinds(s, recv))
            if len({k[0] for k in ks}) > 1:
                return ("top", d)
            return self.new_obj(s, ident, ks)
        return ("top", d)

    # ---- effects (C42)
    def harmless(self, fns, name, known, n):
        """a call of these bound members (or, with an unknown receiver, of any member of this name) leaves the graph as it was"""
        key = ("effect", n.lineno, n.col_offset)
        if not known:
            cands = self.lib.by_name().get(name)
            if not cands:
                return
            bad = [f for f in fns if self.lib.effect(f)]
            if not bad:
                # a receiver of unknown type: judged only when the name can mean nothing harmless
                if not all(self.lib.effect(f) for f in cands) or name in FOREIGN:
                    return
            fns = bad or cands
        if key not in self.done:
            self.done.add(key)
            self.acc.o("C42")
            self.acc.i("C42", "%s:%s %s()" % (self.fn, n.lineno, name))
        for f in fns:
            e = self.lib.effect(f)
            if e is None and key + ("?",) not in self.done:
                self.done.add(key + ("?",))
                self.acc.a("C42", "%s:%s" % (self.fn, n.lineno), "the effect of %s() is not known" % name)
            if e and key + ("!",) not in self.done:
                self.done.add(key + ("!",))
                self.acc.v("C42", "%s: %s" % (self.fn, name), "%s: calls %s(), which changes %s" % (self.fn, name, e), "%s:%s" % (self.loc, n.lineno))

    def set_attr(self, s, o, t):
        key = ("seteffect", t.lineno, t.col_offset)
        if key in self.done:
            return
        self.done.add(key)
        self.acc.o("C42")
        for kd in self.kinds(s, o):
            c = self.lib.pyclass.get(kd) if kd not in (ANY, ("None",)) else None
            at = self.lib.attrs(c) if c else None
            if at is not None and t.attr in at:
                self.acc.v("C42", "%s: %s" % (self.fn, t.attr), "%s: assigns %s.%s" % (self.fn, c.name, t.attr), "%s:%s" % (self.loc, t.lineno))
                return

    # ---- attribute reads
    def attr_fns(self, s, v, name, node):
        """(possible members, everything known) of an attribute of a library object; reports missing ones"""
        ks = self.kinds(s, v)
        fns, known = [], True
        for k in sorted(ks, key=str):
            if k == ANY:
                known = False
                continue
            if k == ("None",):
                continue
            c = self.lib.pyclass.get(k)
            at = self.lib.attrs(c)
            if at is None:
                known = False
                continue
            self.o(c.name, name)
            if name in at:
                x = at[name]
                if x is None:
                    known = False
                elif isinstance(x, list):
                    if x not in [f for f in fns]:
                        fns.append(x)
                else:
                    fns.append([x])
                if (node.lineno, node.col_offset) not in self.visited:
                    self.visited.add((node.lineno, node.col_offset))
                    self.acc.i("C25", "%s:%s .%s" % (self.fn, node.lineno, name))
            elif name not in OBJ_ATTRS:
                tn = self.typename(k)
                self.hard(("attr", node.lineno, node.col_offset, name, c.name), "reads .%s of a %s%s, which has no such attribute" % (name, c.name, " (type %s)" % tn if tn else ""), node.lineno)
                known = False
        return fns, known

    def typename(self, k):
        v = self.lib.typeof.get(k)
        for e in self.lib.mod.enums.values():
            if e.cpp.endswith("VariableTypeEnum") and k in self.lib.vkinds or e.cpp.endswith("FactorTypeEnum") and k in self.lib.fkinds:
                for n, en, val, l in e.values:
                    if val == v:
                        return n
        return None

    def narrow(self, s, ident, pred):
        """states where pred holds / does not hold of the object"""
        ks = s.heap.get(ident)
        if ks is None or not isinstance(ks, frozenset):
            return [s], [s.copy()]
        yes = frozenset(k for k in ks if k == ANY or pred(k) is not False)
        no = frozenset(k for k in ks if k == ANY or pred(k) is not True)
        a, b = s.copy(), s
        out = ([], [])
        if yes:
            a.heap[ident] = yes
            self.sync(a, ident)
            out[0].append(a)
        if no:
            b.heap[ident] = no
            self.sync(b, ident)
            out[1].append(b)
        return out

    def sync(self, s, ident):
        """narrowing a factor narrows its variables"""
        for k in list(s.heap):
            if isinstance(k, tuple) and len(k) == 3 and k[0] == "var" and k[1] == ident:
                ks = self.var_kinds(s, ident, k[2])
                if ks is not None and isinstance(s.heap[k], frozenset):
                    both = frozenset(x for x in s.heap[k] if x == ANY or x in ks)
                    s.heap[k] = both or ks
        # narrowing a variable narrows the factor
        if isinstance(ident, tuple) and len(ident) == 3 and ident[0] == "var":
            f, i = ident[1], ident[2]
            ks = s.heap.get(f)
            if isinstance(ks, frozenset) and ANY not in ks and ANY not in s.heap[ident]:
                keep = set()
                for k in ks:
                    vs = self.lib.vars_of.get(k)
                    if vs is None or i >= len(vs) or vs[i] is None or any(x[0] == vs[i] for x in s.heap[ident]):
                        keep.add(k)
                if keep:
                    s.heap[f] = frozenset(keep)

    def var_kinds(self, s, fid, i):
        ks = s.heap.get(fid, frozenset([ANY]))
        out = set()
        for k in ks:
            vs = None if k == ANY else self.lib.vars_of.get(k)
            if vs is None:
                return None
            if -len(vs) <= i < len(vs):
                if vs[i] is None:
                    return None
                out.add((vs[i], 0))
        return frozenset(out) or None

    # ---- expressions: list of (state, value)
    def ev(self, n, s):
        self.steps += 1
        if self.steps > 3000000:
            raise Unsupported("step budget")
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            return self.generic(n, s)
        return m(n, s)

    def generic(self, n, s):
        """not understood: every name below is still resolved, every object below is forgotten"""
        d, cur = frozenset(), [s]
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                cur = [s2 for x in cur for s2, v in self.ev(c, x)][:CAP]
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                for st in cur:
                    v = st.env.get(x.id)
                    if v is not None:
                        d |= deps(v)
        return [(x, ("top", d)) for x in cur]

    def seq(self, ns, s):
        """evaluate several expressions: list of (state, [values])"""
        out = [(s, [])]
        for n in ns:
            nxt = []
            for st, vs in out:
                for s2, v in self.ev(n, st):
                    nxt.append((s2, vs + [v]))
            out = nxt if len(nxt) <= 4 * CAP else [(self.join([x for x, _ in nxt]), [top() for _ in nxt[0][1]])]
        return out

    def x_Constant(self, n, s):
        v = n.value
        if isinstance(v, (bool, int, float, str)) or v is None:
            return [(s, ("const", v))]
        return [(s, top())]

    def x_Name(self, n, s):
        return [(s, self.name(n.id, s, n))]

    def name(self, ident, s, n):
        if ident in s.env:
            return s.env[ident]
        self.o()
        if ident in getattr(self, "locals", ()):
            key = ("unbound", ident, n.lineno, n.col_offset)
            self.soft(key, True, "%s is read but never assigned before" % ident, n.lineno)
            return top()
        if ident in self.globals:
            v = self.globals[ident]
            if v[0] == "lazy":
                v = self.module_value(v[1])
            return v
        if hasattr(builtins, ident) or ident in ("__file__", "__name__", "__path__", "__spec__", "__package__", "__loader__"):
            return ("builtin", ident)
        if not self.openstar:
            self.hard(("name", ident, n.lineno), "the name %s does not exist" % ident, n.lineno)
        return top()

    def module_value(self, name):
        st = self.file.vars[name]
        self.globals[name] = top()
        keep = getattr(self, "locals", ())
        self.locals = set()
        try:
            r = self.ev(st.value, State())
            v = r[0][1] if len(r) == 1 else top()
        except Unsupported:
            v = top()
        finally:
            self.locals = keep
        if v[0] not in ("const", "tuple", "top", "enum", "member", "cls", "func", "libfn") or v[0] == "tuple" and not plain(v):
            v = top()
        self.globals[name] = v
        return v

    def x_NamedExpr(self, n, s):
        out = []
        for s2, v in self.ev(n.value, s):
            s2 = s2.copy()
            s2.env[n.target.id] = v
            out.append((s2, v))
        return out

    def x_Tuple(self, n, s):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.generic(n, s)
        return [(s2, ("tuple", tuple(vs))) for s2, vs in self.seq(n.elts, s)]

    def x_List(self, n, s):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.generic(n, s)
        out = []
        for s2, vs in self.seq(n.elts, s):
            s2 = s2.copy()
            v = self.new_list(s2, n)
            for x in vs:
                self.put(s2, v, x)
            out.append((s2, v))
        return out

    x_Set = x_List

    def new_list(self, s, n):
        i = ("list", n.lineno, n.col_offset, self.stack)
        if i in s.heap and any(i in list(refs(v)) for v in s.env.values()):
            # a second object of the same site: weak
            s.heap[i] = s.heap[i]
        else:
            s.heap[i] = ("elem", ("bot",))
        return ("list", i)

    def x_Dict(self, n, s):
        vals = [k for k in n.keys if k is not None] + n.values
        out = []
        for s2, vs in self.seq(vals, s):
            ks, xs = vs[:len(vals) - len(n.values)], vs[len(vals) - len(n.values):]
            if len(ks) == len(xs) and ks and all(k[0] in ("member", "const") for k in ks) and all(plain(x) or x[0] in ("func", "cls") for x in xs):
                out.append((s2, ("dict", tuple(zip(ks, xs)))))
            else:
                out.append((s2, ("top", frozenset())))
        return out

    def x_JoinedStr(self, n, s):
        es = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        return [(s2, top(*vs)) for s2, vs in self.seq(es, s)]

    def x_Lambda(self, n, s):
        return [(s, ("lambda", n.lineno, n.col_offset))]

    def comp(self, n, s, elts):
        """comprehension: an arbitrary element survives the filters"""
        states = [s.copy()]
        saved = dict(s.env)
        for g in n.generators:
            nxt = []
            for st in states:
                for s2, v in self.ev(g.iter, st):
                    s2 = s2.copy()
                    e = self.elem_of(s2, v, ("elem", g.target.lineno, g.target.col_offset))
                    if e == ("bot",):
                        continue
                    for s3 in self.assign(g.target, e, s2):
                        cur = [s3]
                        for c in g.ifs:
                            cur = [t for x in cur for t in self.cond(c, x)[0]]
                        nxt += cur
            states = self.norm_keep(nxt)
        out = []
        for st in states:
            for s2, vs in self.seq(elts, st):
                out.append((s2, vs))
        return out, saved

    def norm_keep(self, states):
        seen = {}
        for s in states:
            seen.setdefault(s.key(), s)
        out = list(seen.values())
        return out if len(out) <= CAP else [self.join(out)]

    def x_ListComp(self, n, s):
        res, saved = self.comp(n, s, [n.elt])
        s2 = s.copy()
        v = self.new_list(s2, n)
        elems = [self.snap(st, vs[0]) for st, vs in res]
        if elems:
            if all(e[0] == "snap" for e in elems):
                s2.heap[v[1]] = ("elem", ("snap", frozenset().union(*[e[1] for e in elems])))
            else:
                e = elems[0]
                for x in elems[1:]:
                    e = self.merge(e, x)
                s2.heap[v[1]] = ("elem", e)
        return [(s2, v)]

    x_SetComp = x_GeneratorExp = x_ListComp

    def x_DictComp(self, n, s):
        self.comp(n, s, [n.key, n.value])
        return [(s, top())]

    def x_Starred(self, n, s):
        return [(s2, top(v)) for s2, v in self.ev(n.value, s)]

    def x_Await(self, n, s):
        return [(s2, top(v)) for s2, v in self.ev(n.value, s)]

    x_Yield = x_YieldFrom = lambda self, n, s: ([(s2, top()) for s2, v in self.ev(n.value, s)] if n.value is not None else [(s, top())])

    def x_Attribute(self, n, s):
        out = []
        for s2, v in self.ev(n.value, s):
            out += self.getattr_(n, s2, v)
        return out

    def getattr_(self, n, s, v, name=None):
        name = name or n.attr
        k = v[0]
        if k == "obj":
            ks = self.kinds(s, v)
            if ("None",) in ks:
                if v[1][0] == "param":
                    self.hard(("none", n.lineno, n.col_offset, name), "reads .%s of %s, which may have been left out" % (name, v[1][1]), n.lineno)
                else:
                    self.soft(("none", n.lineno, n.col_offset, name), ks == frozenset([("None",)]), "reads .%s of None" % name, n.lineno)
                rest = ks - {("None",)}
                if not rest:
                    return []
            fns, known = self.attr_fns(s, v, name, n)
            if isinstance(getattr(n, "ctx", None), ast.Load) or not hasattr(n, "ctx"):
                if fns and isinstance(fns[0][0], B.Field):
                    f = fns[0][0]
                    t = f.t if f.getter is None else (f.getter.ret or {})
                    return [(s, self.of_type(s, t, deps(v), ("field", n.lineno, n.col_offset), v, name))]
            return [(s, ("bound", v, name))]
        if k == "const" and v[1] is None:
            self.soft(("none", n.lineno, n.col_offset, name), name not in OBJ_ATTRS, "reads .%s of None" % name, n.lineno)
            return []
        if k != "obj":
            self.soft(("none", n.lineno, n.col_offset, name), False, "", n.lineno)
        if k == "enum":
            e = self.lib.mod.enums[v[1]]
            self.o()
            self.acc.i("C25", "%s.%s" % (v[1], name))
            for pn, en, val, l in e.values:
                if pn == name:
                    return [(s, ("member", v[1], name, val))]
            if name not in ENUM_ATTRS:
                self.hard(("member", v[1], name, n.lineno), "%s.%s does not exist" % (v[1], name), n.lineno)
            return [(s, top())]
        if k == "cls":
            at = self.lib.attrs(self.lib.mod.classes[v[1]])
            self.o()
            if name not in at and name not in OBJ_ATTRS and name != "__name__":
                self.hard(("clsattr", v[1], name, n.lineno), "%s.%s does not exist" % (v[1], name), n.lineno)
            return [(s, top())]
        if k == "ext":
            self.o()
            if name == "_factorama":
                return [(s, ("ext", "_factorama"))]
            if name in self.allbound:
                return [(s, self.libname(name))]
            if name in self.globals and v[1] == "factorama":
                return [(s, self.globals[name])]
            if not name.startswith("__"):
                self.hard(("extattr", name, n.lineno), "%s.%s does not exist" % (v[1], name), n.lineno)
            return [(s, top())]
        if k == "member":
            if name in ("name",):
                return [(s, ("const", v[2]))]
            if name in ("value",):
                return [(s, ("const", v[3]))]
            self.o()
            if name not in ENUM_ATTRS and not any(pn == name for pn, en, val, l in self.lib.mod.enums[v[1]].values):
                self.hard(("memberattr", v[1], name, n.lineno), "%s.%s has no attribute %s" % (v[1], v[2], name), n.lineno)
            return [(s, top())]
        if k == "type":
            if name in ("name", "value"):
                return [(s, ("type", v[1], name))]
            return [(s, top(v))]
        if k == "arr":
            if name == "T":
                return [(s, ("arr", v[1][::-1] if v[1] is not None else None, v[2]))]
            if name == "shape":
                return [(s, ("tuple", tuple(("const", x) if x is not None else ("top", v[2]) for x in v[1])) if v[1] is not None else top(v))]
            if name == "size" and v[1] is not None and None not in v[1]:
                k = 1
                for x in v[1]:
                    k *= x
                return [(s, ("const", k))]
            if name == "ndim" and v[1] is not None:
                return [(s, ("const", len(v[1])))]
            return [(s, ("bound", v, name))]
        if k in ("list", "varsof", "all", "tuple", "dict"):
            return [(s, ("bound", v, name))]
        return [(s, top(v))]

    def x_Subscript(self, n, s):
        out = []
        for s2, v in self.ev(n.value, s):
            out += self.index(n, s2, v)
        return out

    def index(self, n, s, v):
        sl = n.slice
        k = v[0]
        if k == "const" and v[1] is None:
            self.soft(("noneidx", n.lineno, n.col_offset), True, "takes an element of None", n.lineno)
            return []
        if k == "obj" and ("None",) in self.kinds(s, v):
            self.soft(("noneidx", n.lineno, n.col_offset), self.kinds(s, v) == frozenset([("None",)]), "takes an element of None", n.lineno)
        else:
            self.soft(("noneidx", n.lineno, n.col_offset), False, "", n.lineno)
        parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        out = []
        for s2, ixs in self.slices(parts, s):
            out += self.pick(n, s2, v, ixs, isinstance(sl, ast.Tuple))
        return out

    def slices(self, parts, s):
        """list of (state, [('i', value) | ('s', lo, hi)])"""
        out = [(s, [])]
        for p in parts:
            nxt = []
            for st, ixs in out:
                if isinstance(p, ast.Slice):
                    es = [x for x in (p.lower, p.upper, p.step) if x is not None]
                    for s2, vs in self.seq(es, st):
                        it = iter(vs)
                        d = [next(it) if x is not None else None for x in (p.lower, p.upper, p.step)]
                        nxt.append((s2, ixs + [("s",) + tuple(d)]))
                else:
                    for s2, v in self.ev(p, st):
                        nxt.append((s2, ixs + [("i", v)]))
            out = nxt
        return out

    def pick(self, n, s, v, ixs, tup):
        k = v[0]
        if k == "first" and ixs and ixs[0][0] == "i":
            # an array made of so many elements, which may be numbers or rows
            c = ixs[0][1]
            if c[0] == "const" and isinstance(c[1], int) and not isinstance(c[1], bool):
                self.o()
                if not -v[1] <= c[1] < v[1]:
                    self.hard(("idx", n.lineno, n.col_offset), "takes element %d of an array of %d" % (c[1], v[1]), n.lineno)
                    return []
        if k == "arr" and v[1] is not None:
            dims = v[1]
            if any(x[0] == "i" and x[1][0] in ("top", "list", "arr", "tuple") or x[0] == "i" and x[1] == NONE for x in ixs):
                # a computed index may be a mask or a list of positions
                return [(s, ("arr", None, v[2]))]
            if len(ixs) > len(dims):
                self.o()
                if all(x[0] == "i" and x[1][0] == "const" and isinstance(x[1][1], int) or x[0] == "s" for x in ixs):
                    self.hard(("dims", n.lineno, n.col_offset), "takes %d indices of an array with %d dimension%s" % (len(ixs), len(dims), "" if len(dims) == 1 else "s"), n.lineno)
                return [(s, top(v))]
            rest = []
            for d, x in zip(dims, ixs):
                self.o()
                if x[0] == "i":
                    c = x[1]
                    if c[0] == "const" and isinstance(c[1], int) and d is not None and not -d <= c[1] < d:
                        self.hard(("idx", n.lineno, n.col_offset), "takes element %d of an array of %d" % (c[1], d), n.lineno)
                        return []
                else:
                    rest.append(slice_len(d, x))
            rest += list(dims[len(ixs):])
            return [(s, ("arr", tuple(rest), v[2]) if rest else ("top", v[2]))]
        if k == "varsof" and len(ixs) == 1 and ixs[0][0] == "i":
            c = ixs[0][1]
            if c[0] == "const" and isinstance(c[1], int):
                return self.nth(n, s, v[1], c[1])
            return [(s, top(v, c))]
        if k == "varsof" and len(ixs) == 1 and ixs[0][0] == "s":
            return [(s, top(v))]
        if k == "tuple" and len(ixs) == 1 and ixs[0][0] == "i":
            c = ixs[0][1]
            if c[0] == "const" and isinstance(c[1], int) and not isinstance(c[1], bool):
                self.o()
                if not -len(v[1]) <= c[1] < len(v[1]):
                    self.hard(("tupidx", n.lineno, n.col_offset), "takes element %d of a tuple of %d" % (c[1], len(v[1])), n.lineno)
                    return []
                return [(s, v[1][c[1]])]
            return [(s, top(v, c))]
        if k == "list" and len(ixs) == 1:
            if ixs[0][0] == "s":
                return [(s, v)]
            s = s.copy()
            e = self.elem_of(s, v, ("sub", n.lineno, n.col_offset))
            return [(s, e if e != ("bot",) else top())]
        if k == "dict" and len(ixs) == 1 and ixs[0][0] == "i":
            return self.lookup(n, s, v, ixs[0][1], None)
        if k == "all" and len(ixs) == 1:
            if ixs[0][0] == "s":
                return [(s, v)]
            s = s.copy()
            return [(s, self.new_obj(s, ("sub", n.lineno, n.col_offset), [ANY]))]
        if k == "enum":
            return [(s, top())]
        if k == "obj" and ANY not in self.kinds(s, v) and ("None",) not in self.kinds(s, v):
            for kk in self.kinds(s, v):
                at = self.lib.attrs(self.lib.pyclass.get(kk))
                self.o()
                if at is not None and "__getitem__" not in at:
                    self.hard(("getitem", n.lineno, n.col_offset), "takes an element of a %s" % self.lib.pyclass[kk].name, n.lineno)
                    break
            return [(s, top(v))]
        return [(s, top(v, *[x[1] for x in ixs if x[0] == "i"]))]

    def nth(self, n, s, fid, i):
        """the i-th variable of a factor"""
        ks = s.heap.get(fid, frozenset([ANY]))
        good, bad, unknown = [], [], False
        for k in ks:
            vs = None if k == ANY else self.lib.vars_of.get(k)
            if vs is None:
                unknown = True
            elif -len(vs) <= i < len(vs):
                good.append(k)
            else:
                bad.append(k)
        self.o()
        if bad:
            c = self.lib.pyclass[sorted(bad, key=str)[0]]
            self.hard(("nth", n.lineno, n.col_offset), "takes variable %d of a %s, which has %d" % (i, c.name if c else "factor", len(self.lib.vars_of[bad[0]])), n.lineno)
        if not good and not unknown:
            return []
        if i < 0 or unknown:
            return [(s, top(("obj", fid)))]
        ident = ("var", fid, i)
        s = s.copy()
        if ident not in s.heap:
            vk = set()
            for k in good:
                c = self.lib.vars_of[k][i]
                vk.add((c, 0) if c else ANY)
            s.heap[ident] = frozenset(vk)
        return [(s, ("obj", ident))]

    def lookup(self, n, s, v, key, dflt):
        """element of a constant table"""
        out = []
        if key[0] in ("member", "const"):
            for k, x in v[1]:
                if k == key:
                    return [(s, x)]
            return [(s, dflt)] if dflt is not None else [(s, top())]
        if key[0] == "type":
            rest = s
            for k, x in v[1]:
                if k[0] != "member" and not (k[0] == "const" and len(key) == 3):
                    return [(s, top(key))]
                yes, no = self.narrow(rest.copy(), key[1], lambda kd, k=k: self.type_is(kd, k, key))
                out += [(y, x) for y in yes]
                if not no:
                    rest = None
                    break
                rest = no[0]
            if rest is not None and dflt is not None:
                out.append((rest, dflt))
            return out
        if key[0] == "top":
            self.forget_in(s, key)
        return [(s, top(key))]

    def forget_in(self, s, v):
        self.forget(s, deps(v))

    def type_is(self, kd, k, key):
        t = self.lib.typeof.get(kd)
        if kd in (ANY, ("None",)) or t is None:
            return None
        if k[0] == "member":
            if len(key) == 3:
                return False
            own = self.enum_of(kd)
            if own is not None and own != k[1]:
                return False
            return t == k[3]
        if len(key) == 3 and key[2] == "name":
            return self.typename(kd) == k[1]
        if len(key) == 3 and key[2] == "value":
            return t == k[1]
        return None

    def enum_of(self, kd):
        want = "VariableTypeEnum" if kd in self.lib.size_of else "FactorTypeEnum" if kd in self.lib.vars_of else None
        for e in self.lib.mod.enums.values():
            if want and e.cpp.endswith(want):
                return e.name
        return None

    # ---- operators
    def x_BinOp(self, n, s):
        out = []
        for s2, (a, b) in self.seq([n.left, n.right], s):
            out.append((s2, self.binop(n, a, b)))
        return out

    def binop(self, n, a, b):
        op = type(n.op).__name__
        d = deps(a) | deps(b)
        if a[0] == "const" and b[0] == "const":
            try:
                v = {"Add": lambda: a[1] + b[1], "Sub": lambda: a[1] - b[1], "Mult": lambda: a[1] * b[1]}[op]()
                if isinstance(v, (int, float, str)):
                    return ("const", v)
            except Exception:
                pass
            return top()
        if op == "MatMult" and a[0] == "arr" and b[0] == "arr" and a[1] and b[1]:
            x, y = a[1], b[1]
            i, j = x[-1], y[-2] if len(y) > 1 else y[0]
            self.o()
            if i is not None and j is not None and i != j and len(x) <= 2 and len(y) <= 2:
                self.hard(("matmul", n.lineno, n.col_offset), "multiplies a %s by a %s array" % (shp(x), shp(y)), n.lineno)
                return top(a, b)
            r = tuple(x[:-1]) + (tuple(y[:-2]) + (y[-1],) if len(y) > 1 else ())
            return ("arr", r, d) if r else ("top", d)
        if op in ("Add", "Sub", "Mult", "Div"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "arr" and (y[0] == "const" or y[0] == "arr" and y[1] == x[1]):
                    return ("arr", x[1], d)
            if a[0] == "arr" and b[0] == "arr" and a[1] and b[1] and len(a[1]) == len(b[1]):
                self.o()
                if any(i is not None and j is not None and i != j and 1 not in (i, j) for i, j in zip(a[1], b[1])):
                    self.hard(("broadcast", n.lineno, n.col_offset), "combines a %s with a %s array" % (shp(a[1]), shp(b[1])), n.lineno)
                return ("arr", None, d)
        return ("top", d)

    def x_UnaryOp(self, n, s):
        if isinstance(n.op, ast.Not):
            return self.boolean(n, s)
        out = []
        for s2, v in self.ev(n.operand, s):
            if v[0] == "const" and isinstance(v[1], (int, float)) and isinstance(n.op, ast.USub):
                out.append((s2, ("const", -v[1])))
            else:
                out.append((s2, v if v[0] == "arr" else top(v)))
        return out

    def boolean(self, n, s):
        t, f = self.cond(n, s)
        return [(x, ("const", True)) for x in t] + [(x, ("const", False)) for x in f]

    def x_Compare(self, n, s):
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn, ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            res = self.compare(n, s)
            if any(k is not None for k, _ in res):
                out = []
                for k, x in res:
                    out.append((x, ("const", k) if k is not None else top()))
                return out
        return [(s2, top(*vs)) for s2, vs in self.seq([n.left] + n.comparators, s)]

    def x_BoolOp(self, n, s):
        if all(self.boolish(v) for v in n.values):
            return self.boolean(n, s)
        # value form: x or y
        out, cur = [], [s]
        for i, e in enumerate(n.values):
            nxt = []
            for st in cur:
                for s2, v in self.ev(e, st):
                    if i == len(n.values) - 1:
                        out.append((s2, v))
                        continue
                    t, f = self.truth(v, s2, e)
                    stop, go = (f, t) if isinstance(n.op, ast.And) else (t, f)
                    out += [(x, v) for x in stop]
                    nxt += go
            cur = nxt
        return out

    def boolish(self, e):
        return isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) or isinstance(e, ast.BoolOp) and all(self.boolish(v) for v in e.values) \
            or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "hasattr", "bool", "any", "all", "callable")

    def x_IfExp(self, n, s):
        t, f = self.cond(n.test, s)
        return [y for x in t for y in self.ev(n.body, x)] + [y for x in f for y in self.ev(n.orelse, x)]

    # ---- conditions: (states where true, states where false)
    def cond(self, n, s):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.cond(n.operand, s)
            return f, t
        if isinstance(n, ast.BoolOp):
            cur, done = [s], []
            for e in n.values:
                nxt = []
                for st in cur:
                    t, f = self.cond(e, st)
                    if isinstance(n.op, ast.And):
                        nxt += t
                        done += f
                    else:
                        nxt += f
                        done += t
                cur = self.norm_keep(nxt)
            return (cur, self.norm_keep(done)) if isinstance(n.op, ast.And) else (self.norm_keep(done), cur)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t, f = [], []
            for k, x in self.compare(n, s):
                if k is not False:
                    t.append(x)
                if k is not True:
                    f.append(x.copy() if k is None else x)
            return t, f
        if isinstance(n, ast.Compare):
            t, f = [], []
            for s2, vs in self.seq([n.left] + n.comparators, s):
                self.forget(s2, frozenset().union(*[deps(v) for v in vs]))
                t.append(s2)
                f.append(s2.copy())
            return t, f
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr") and n.func.id not in s.env and len(n.args) == 2 and not n.keywords:
            t, f = [], []
            for s2, (o, a) in self.seq(n.args, s):
                x, y = self.test(n.func.id, o, a, s2)
                t += x
                f += y
            return t, f
        t, f = [], []
        for s2, v in self.ev(n, s):
            x, y = self.truth(v, s2, n)
            t += x
            f += y
        return self.norm_keep(t), self.norm_keep(f)

    def test(self, which, o, a, s):
        if o[0] == "obj":
            if which == "hasattr" and a[0] == "const" and isinstance(a[1], str):
                def has(k):
                    if k == ("None",):
                        return False
                    at = self.lib.attrs(self.lib.pyclass.get(k))
                    return None if at is None else a[1] in at or a[1] in OBJ_ATTRS
                return self.narrow(s, o[1], has)
            if which == "isinstance":
                cs = [a] if a[0] != "tuple" else list(a[1])
                if all(c[0] == "cls" for c in cs):
                    names = {c[1] for c in cs}

                    def isa(k):
                        if k == ("None",):
                            return False
                        c = self.lib.pyclass.get(k)
                        return None if c is None else any(x.name in names for x in self.lib.mod.mro(c))
                    return self.narrow(s, o[1], isa)
        s2 = s.copy()
        self.forget(s2, deps(o) | deps(a))
        return [s2], [s2.copy()]

    def truth(self, v, s, n):
        k = v[0]
        if k == "const":
            return ([s], []) if v[1] else ([], [s])
        if k == "sym":
            if v[1] in s.facts:
                return ([s], []) if s.facts[v[1]] else ([], [s])
            a, b = s.copy(), s.copy()
            a.facts[v[1]], b.facts[v[1]] = True, False
            return [a], [b]
        if k == "obj":
            return self.narrow(s.copy(), v[1], lambda kd: False if kd == ("None",) else None if kd == ANY or "__bool__" in (self.lib.attrs(self.lib.pyclass.get(kd)) or {"__bool__": 1}) else True)
        if k in ("func", "cls", "enum", "libfn", "mod", "ext", "builtin", "lambda", "bound"):
            return [s], []
        if k == "tuple":
            return ([s], []) if v[1] else ([], [s])
        if k == "varsof":
            return self.narrow(s.copy(), v[1], lambda kd: None if kd == ANY or self.lib.vars_of.get(kd) is None else bool(self.lib.vars_of[kd]))
        if k == "list":
            h = s.heap.get(v[1])
            if h == ("elem", ("bot",)):
                return [], [s]
            return [s], [s.copy()]
        if k == "type" and len(v) == 2:
            return [s], []
        a = s.copy()
        self.forget(a, deps(v))
        return [a], [a.copy()]

    def compare(self, n, s):
        """list of (True/False/None, state); None means either, on the same state"""
        op = type(n.ops[0]).__name__
        out = []
        for s2, (a, b) in self.seq([n.left, n.comparators[0]], s):
            out += self.rel(op, a, b, s2)
        return out

    def rel(self, op, a, b, s):
        if op in ("NotEq", "IsNot", "NotIn"):
            pos = {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}[op]
            return [(None if k is None else not k, x) for k, x in self.rel(pos, a, b, s)]
        if op in ("Eq", "Is"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "type" and (y[0] == "member" and len(x) == 2 or y[0] == "const" and len(x) == 3):
                    self.o()
                    t, f = self.narrow(s.copy(), x[1], lambda kd: self.type_is(kd, y, x))
                    return [(True, z) for z in t] + [(False, z) for z in f]
                if y == NONE:
                    if x[0] == "obj":
                        t, f = self.narrow(s.copy(), x[1], lambda kd: kd == ("None",))
                        return [(True, z) for z in t] + [(False, z) for z in f]
                    if x[0] == "const":
                        return [(x[1] is None, s)]
                    if x[0] in ("arr", "first", "list", "tuple", "all", "varsof", "type", "member", "func", "cls", "enum", "bound", "mod", "size", "dict", "libfn", "snap"):
                        return [(False, s)]
                if x[0] == "sym" and y[0] == "const" and isinstance(y[1], bool):
                    t, f = self.truth(x, s, None)
                    return [(y[1], z) for z in t] + [(not y[1], z) for z in f]
            if a[0] == "const" and b[0] == "const":
                return [(a[1] == b[1] if op == "Eq" else a[1] is b[1] or a[1] == b[1] and type(a[1]) == type(b[1]), s)]
            if a[0] == "member" and b[0] == "member":
                return [((a[1], a[3]) == (b[1], b[3]), s)]
        num = self.count(op, a, b, s)
        if num is not None:
            return num
        if op == "In" and b[0] in ("tuple", "list", "dict"):
            items = b[1] if b[0] == "tuple" else [k for k, x in b[1]] if b[0] == "dict" else None
            if items is not None and a[0] == "type" and all(x[0] == "member" or x[0] == "const" and len(a) == 3 for x in items):
                def isin(kd):
                    rs = [self.type_is(kd, x, a) for x in items]
                    return True if True in rs else None if None in rs else False
                self.o()
                t, f = self.narrow(s.copy(), a[1], isin)
                return [(True, z) for z in t] + [(False, z) for z in f]
            if items is not None and a[0] == "const" and all(x[0] == "const" for x in items):
                return [(any(a[1] == x[1] for x in items), s)]
        s = s.copy()
        self.forget(s, deps(a) | deps(b))
        return [(None, s)]

    def count(self, op, a, b, s):
        """comparison of a number of variables, or of the size of a variable, with a constant"""
        flip = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE", "Eq": "Eq", "Is": "Is"}
        if a[0] == "const" and b[0] in ("nvars", "size"):
            a, b, op = b, a, flip.get(op, op)
        if a[0] == "const" and b[0] == "const" and op in ("Lt", "LtE", "Gt", "GtE"):
            try:
                return [({"Lt": a[1] < b[1], "LtE": a[1] <= b[1], "Gt": a[1] > b[1], "GtE": a[1] >= b[1]}[op], s)]
            except TypeError:
                return None
        if a[0] not in ("nvars", "size") or b[0] != "const" or not isinstance(b[1], (int, float)) or op not in flip:
            return None

        def val(k):
            if k == ANY or k == ("None",):
                return None
            if a[0] == "size":
                return self.lib.size_of.get(k) if len(k) == 2 else k[2]
            vs = self.lib.vars_of.get(k)
            return None if vs is None else len(vs)

        def holds(k):
            x = val(k)
            if x is None:
                return None
            return {"Lt": x < b[1], "LtE": x <= b[1], "Gt": x > b[1], "GtE": x >= b[1], "Eq": x == b[1], "Is": x == b[1]}[op]
        self.o()
        t, f = self.narrow(s.copy(), a[1], holds)
        return [(True, z) for z in t] + [(False, z) for z in f]

    # ---- calls
    def x_Call(self, n, s):
        out = []
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
        for s1, f in self.ev(n.func, s):
            args = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
            for s2, vs in self.seq(args, s1):
                pos, kws = vs[:len(n.args)], {k.arg: v for k, v in zip(n.keywords, vs[len(n.args):])}
                a = self.made_array(n, f, pos, kws, star, s2)
                if a is not None:
                    out.append((s2, a))
                    continue
                out += self.apply(n, s2, f, pos, kws, star)
        seen = {}
        for s2, v in out:
            seen.setdefault((s2.key(), v), (s2, v))
        out = list(seen.values())
        if len(out) > CAP:
            out = [(self.join([x for x, v in out]), top())]
        return out

    def made_array(self, n, f, pos, kws, star, s):
        """numpy.array([a, b, ...]): as many elements as are written, numbers for certain if one of them is"""
        if star or not n.args or not isinstance(n.func, ast.Attribute) or n.func.attr not in ("array", "asarray") or set(kws) - {"dtype"} or len(pos) != 1:
            return None
        lit = n.args[0]
        if not isinstance(lit, (ast.List, ast.Tuple)) or not lit.elts or any(isinstance(x, ast.Starred) for x in lit.elts):
            return None
        if [v for _, v in self.ev(n.func.value, s)] != [("mod", "numpy")]:
            return None
        num = any(isinstance(x, ast.Constant) and type(x.value) in (int, float) for x in lit.elts)
        d = frozenset()
        for x in pos:
            d |= deps(x)
        return ("arr", (len(lit.elts),), d) if num else ("first", len(lit.elts), d)

    def apply(self, n, s, f, pos, kws, star):
        k = f[0]
        args = list(pos) + list(kws.values())
        if k == "bound":
            return self.call_bound(n, s, f[1], f[2], pos, kws, star)
        if k == "func":
            return self.call_fn(n, s, f[1], pos, kws, star)
        if k == "libfn":
            fns = [x for x in self.lib.mod.fns if x.name == f[1]]
            if not star:
                self.arity(fns, pos, kws, f[1], n.lineno)
            self.harmless(fns, f[1], True, n)
            return [(s, self.result(s, fns, None, f[1], n, args))]
        if k == "cls":
            c = self.lib.mod.classes[f[1]]
            inits = c.members("__init__")
            if not star and inits:
                self.arity(inits, pos, kws, f[1], n.lineno)
            s = s.copy()
            kk = [x for x in self.lib.kinds.get(f[1], ()) if self.lib.pyclass.get(x) is c]
            return [(s, self.new_obj(s, ("new", n.lineno, n.col_offset), kk or [ANY]))]
        if k == "builtin":
            return self.call_builtin(n, s, f[1], pos, kws)
        if k == "const" and f[1] is None:
            self.soft(("callnone", n.lineno, n.col_offset), True, "calls None", n.lineno)
            return []
        self.soft(("callnone", n.lineno, n.col_offset), False, "", n.lineno)
        if isinstance(n.func, ast.Attribute):
            self.harmless([], n.func.attr, False, n)
        if any(a[0] in ("func", "lambda") for a in args):
            self.abst("a function is handed to code that is not analysed", n.lineno)
        for a in args:
            if a[0] == "list" and k in ("top",):
                pass
        return [(s, top(f, *args))]

    def call_bound(self, n, s, o, name, pos, kws, star):
        k = o[0]
        args = list(pos) + list(kws.values())
        if k == "obj":
            ks = self.kinds(s, o)
            groups, known = [], True
            for kd in ks:
                c = self.lib.pyclass.get(kd) if kd not in (ANY, ("None",)) else None
                at = self.lib.attrs(c) if c else None
                if at is None or not isinstance(at.get(name), list):
                    known = False
                    continue
                if at[name] not in groups:
                    groups.append(at[name])
            for fns in groups:
                owner = next((c.name for c in self.lib.mod.classes.values() if fns[0] in c.fns), "")
                if not star:
                    self.arity(fns, pos, kws, "%s.%s" % (owner, name), n.lineno)
            self.harmless([f for g in groups for f in g], name, known, n)
            if not groups:
                return [(s, top(o, *args))]
            s = s.copy()
            if name == "type" and not args and any(b in ("type",) for b in [name]) and all(kd == ANY or kd in self.lib.typeof for kd in ks) and ANY not in ks:
                return [(s, ("type", o[1]))]
            if name == "size" and not args and all(kd in self.lib.size_of for kd in ks):
                return [(s, ("size", o[1]))]
            if name == "variables" and not args and all(kd in self.lib.vars_of for kd in ks):
                return [(s, ("varsof", o[1]))]
            if name == "value" and not args and all(kd in self.lib.size_of for kd in ks):
                sz = {self.lib.size_of[kd] for kd in ks}
                return [(s, ("arr", (sz.pop() if len(sz) == 1 else None,), deps(o)))]
            if not known:
                return [(s, top(o, *args))]
            fns = [f for g in groups for f in g]
            return [(s, self.result(s, fns, o, name, n, args))]
        if k == "list":
            s = s.copy()
            if name in ("append", "add", "insert", "appendleft"):
                self.put(s, o, pos[-1] if pos else top())
                return [(s, NONE)]
            if name in ("extend", "update"):
                for a in pos:
                    e = self.elem_of(s, a, ("ext", n.lineno, n.col_offset))
                    if e != ("bot",):
                        self.put(s, o, e)
                return [(s, NONE)]
            if name in ("pop",):
                e = self.elem_of(s, o, ("pop", n.lineno, n.col_offset))
                return [(s, e if e != ("bot",) else top())]
            if name in ("copy",):
                return [(s, o)]
            if name in ("sort", "reverse", "clear", "remove", "discard"):
                return [(s, NONE)]
            return [(s, top())]
        if k == "arr":
            if name in ("flatten", "ravel"):
                d = o[1]
                if d is not None and None not in d:
                    t = 1
                    for x in d:
                        t *= x
                    return [(s, ("arr", (t,), o[2]))]
                return [(s, ("arr", (None,), o[2]))]
            if name in ("copy", "astype"):
                return [(s, o)]
            if name == "transpose" and not args:
                return [(s, ("arr", o[1][::-1] if o[1] is not None else None, o[2]))]
            if name == "tolist":
                return [(s, o)]
            return [(s, top(o, *args))]
        if k == "dict":
            if name == "get" and pos:
                return self.lookup(n, s, o, pos[0], pos[1] if len(pos) > 1 else NONE)
            return [(s, top(*args))]
        return [(s, top(o, *args))]

    def call_builtin(self, n, s, name, pos, kws):
        args = list(pos) + list(kws.values())
        if name == "len" and len(pos) == 1:
            v = pos[0]
            if v[0] == "varsof":
                return [(s, ("nvars", v[1]))]
            if v[0] == "tuple":
                return [(s, ("const", len(v[1])))]
            if v[0] == "arr" and v[1] and v[1][0] is not None:
                return [(s, ("const", v[1][0]))]
            if v[0] == "first":
                return [(s, ("const", v[1]))]
            if v[0] == "obj" and ANY not in self.kinds(s, v):
                for kk in self.kinds(s, v):
                    at = self.lib.attrs(self.lib.pyclass.get(kk)) if kk != ("None",) else None
                    if at is not None and "__len__" not in at:
                        self.o()
                        self.hard(("len", n.lineno, n.col_offset), "takes the length of a %s" % self.lib.pyclass[kk].name, n.lineno)
            return [(s, top(v))]
        if name in ("list", "tuple", "sorted", "reversed", "set", "frozenset", "iter") and len(pos) == 1:
            v = pos[0]
            if v[0] in ("list", "all", "varsof"):
                return [(s, v if v[0] != "list" else v)]
            if v[0] == "tuple" and name in ("list", "tuple"):
                return [(s, v)]
            return [(s, top(v))]
        if name in ("list", "set", "dict") and not args:
            if name == "dict":
                return [(s, top())]
            s = s.copy()
            return [(s, self.new_list(s, n))]
        if name == "enumerate" and pos:
            return [(s, ("enumerate", pos[0]))]
        if name == "zip" and pos:
            return [(s, ("zip", tuple(pos)))]
        if name in ("isinstance", "hasattr", "callable", "any", "all", "bool"):
            if name == "bool" and len(pos) == 1:
                t, f = self.truth(pos[0], s, n)
                return [(x, ("const", True)) for x in t] + [(x, ("const", False)) for x in f]
            if name in ("isinstance", "hasattr") and len(pos) == 2:
                t, f = self.test(name, pos[0], pos[1], s)
                return [(x, ("const", True)) for x in t] + [(x, ("const", False)) for x in f]
            return [(s, top(*args))]
        if name == "getattr" and len(pos) >= 2 and pos[1][0] == "const" and isinstance(pos[1][1], str):
            if len(pos) == 2:
                return self.getattr_(n, s, pos[0], pos[1][1])
            if pos[0][0] == "obj":
                t, f = self.test("hasattr", pos[0], pos[1], s)
                return [y for x in t for y in self.getattr_(n, x, pos[0], pos[1][1])] + [(x, pos[2]) for x in f]
        if name in ("int",) and len(pos) == 1 and pos[0][0] == "type" and len(pos[0]) == 2:
            return [(s, ("type", pos[0][1], "value"))]
        if name == "int" and len(pos) == 1 and pos[0][0] == "member":
            return [(s, ("const", pos[0][3]))]
        if name == "type" and len(pos) == 1:
            return [(s, top(*args))]
        if isinstance(n.func, ast.Attribute):
            self.harmless([], n.func.attr, False, n)
        if any(a[0] in ("func", "lambda") for a in args):
            self.abst("a function is handed to %s" % name, n.lineno)
        return [(s, top(*args))]

    def call_fn(self, n, s, name, pos, kws, star):
        fd = self.file.funcs[name][0]
        a = fd.args
        if star or self.depth > 6:
            if self.depth > 6:
                self.abst("calls nested deeper than 6", n.lineno)
            return [(s, top(*pos))]
        names = [x.arg for x in a.posonlyargs + a.args]
        self.o()
        bad = None
        if len(pos) > len(names) and not a.vararg:
            bad = "takes %d positional arguments, %d given" % (len(names), len(pos))
        konly = [x.arg for x in a.kwonlyargs]
        for k in kws:
            if k not in names[len(a.posonlyargs):] + konly and not a.kwarg:
                bad = "takes no argument %s" % k
            elif k in names[:len(pos)]:
                bad = "is given %s twice" % k
        nd = len(names) - len(a.defaults)
        for i, x in enumerate(names):
            if i >= len(pos) and x not in kws and i < nd:
                bad = bad or "is not given %s" % x
        for x, d in zip(konly, a.kw_defaults):
            if x not in kws and d is None:
                bad = bad or "is not given %s" % x
        if bad:
            self.hard(("call", name, n.lineno), "%s %s" % (name, bad), n.lineno)
            return []
        env = {}
        for i, x in enumerate(names):
            if i < len(pos):
                env[x] = pos[i]
            elif x in kws:
                env[x] = kws[x]
            else:
                env[x] = self.dflt(a.defaults[i - nd])
        for x, d in zip(konly, a.kw_defaults):
            env[x] = kws[x] if x in kws else self.dflt(d)
        if a.vararg:
            env[a.vararg.arg] = top(*pos[len(names):])
        if a.kwarg:
            env[a.kwarg.arg] = top()
        inner = State(env, dict(s.heap), dict(s.facts))
        keep = (self.fn, getattr(self, "locals", ()), self.guard, self.stack)
        self.fn, self.locals = name, local_names(fd)
        self.stack = self.stack + ((n.lineno, n.col_offset),)
        self.scopes.append(list(s.env.values()))
        self.depth += 1
        try:
            rets, end = self.body(fd, inner)
        finally:
            self.fn, self.locals, self.guard, self.stack = keep
            self.scopes.pop()
            self.depth -= 1
        out = []
        for st, v in rets + [(st, NONE) for st in end]:
            out.append((State(dict(s.env), st.heap, st.facts), v))
        seen = {}
        for st, v in out:
            for i in refs(v):
                pass
            seen.setdefault((st.key(), v), (st, v))
        return list(seen.values())

    def dflt(self, d):
        if isinstance(d, ast.Constant):
            return ("const", d.value) if isinstance(d.value, (bool, int, float, str, type(None))) else top()
        return top()

    def body(self, fd, s):
        """(returns, falling off the end)"""
        self.acc.i("C25", fd.name)
        if id(fd) not in self.live:
            self.live[id(fd)] = frozenset()
            Live(self.live).function(fd)
        r = self.block(fd.body, [s])
        return r.ret, r.out

    # ---- statements
    class Flow:
        def __init__(self, out=()):
            self.out, self.brk, self.cont, self.ret, self.exc = list(out), [], [], [], []

    def block(self, stmts, states):
        f = self.Flow(states)
        for st in stmts:
            if not f.out:
                break
            cur, f.out = self.norm_keep(f.out), []
            nxt = []
            for s in cur:
                g = self.stmt(st, s)
                nxt += g.out
                f.brk += g.brk
                f.cont += g.cont
                f.ret += g.ret
            live = self.live.get(id(st))
            if live is not None:
                for x in nxt:
                    for k in [k for k in x.env if k not in live]:
                        del x.env[k]
            f.out = self.norm(nxt) if nxt else []
        f.ret = self.dedupe(f.ret)
        return f

    def dedupe(self, rets):
        seen = {}
        for s, v in rets:
            seen.setdefault((s.key(), v), (s, v))
        return list(seen.values())

    def stmt(self, n, s):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.abst("statement %s" % type(n).__name__, getattr(n, "lineno", None))
            raise Unsupported("statement %s" % type(n).__name__)
        return m(n, s)

    def s_Expr(self, n, s):
        return self.Flow([x for x, v in self.ev(n.value, s)])

    def s_Pass(self, n, s):
        return self.Flow([s])

    s_Global = s_Nonlocal = s_Pass

    def s_Assign(self, n, s):
        f = self.Flow()
        for s2, v in self.ev(n.value, s):
            cur = [s2.copy()]
            for t in n.targets:
                cur = [y for x in cur for y in self.assign(t, v, x)]
            f.out += cur
        return f

    def s_AnnAssign(self, n, s):
        if n.value is None:
            return self.Flow([s])
        f = self.Flow()
        for s2, v in self.ev(n.value, s):
            f.out += self.assign(n.target, v, s2.copy())
        return f

    def s_AugAssign(self, n, s):
        f = self.Flow()
        load = ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target) if isinstance(n.target, ast.Name) else None
        if load is None:
            for s2, v in self.ev(n.value, s):
                f.out.append(s2)
            return f
        for s2, (a, b) in self.seq([load, n.value], s):
            s2 = s2.copy()
            if a[0] == "list":
                e = self.elem_of(s2, b, ("aug", n.lineno, n.col_offset))
                if e != ("bot",):
                    self.put(s2, a, e)
            else:
                v = self.binop(n, a, b)
                # arithmetic on a value that was not an iteration constant
                s2.env[n.target.id] = v if v[0] != "const" else top()
            f.out.append(s2)
        return f

    def assign(self, t, v, s):
        """states after binding target t"""
        if isinstance(t, ast.Name):
            s.env[t.id] = v
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                cur = [s]
                for e in t.elts:
                    cur = [y for x in cur for y in self.assign(e.value if isinstance(e, ast.Starred) else e, top(v), x)]
                return cur
            vals = None
            if v[0] == "tuple":
                self.o()
                if len(v[1]) != len(t.elts):
                    self.hard(("unpack", t.lineno, t.col_offset), "unpacks %d values into %d names" % (len(v[1]), len(t.elts)), t.lineno)
                    return []
                vals = list(v[1])
            elif v[0] == "arr" and v[1] and v[1][0] is not None:
                self.o()
                if v[1][0] != len(t.elts):
                    self.hard(("unpack", t.lineno, t.col_offset), "unpacks an array of %d into %d names" % (v[1][0], len(t.elts)), t.lineno)
                    return []
                vals = [("arr", v[1][1:], v[2]) if len(v[1]) > 1 else ("top", v[2])] * len(t.elts)
            elif v[0] == "varsof":
                out = []
                ks = s.heap.get(v[1], frozenset([ANY]))
                lens = {len(self.lib.vars_of[k]) if k != ANY and self.lib.vars_of.get(k) is not None else None for k in ks}
                self.o()
                wrong = [k for k in lens if k is not None and k != len(t.elts)]
                if wrong:
                    self.hard(("unpack", t.lineno, t.col_offset), "unpacks %d variables of a factor into %d names" % (wrong[0], len(t.elts)), t.lineno)
                    return []
                cur = [(s, [])]
                for i in range(len(t.elts)):
                    cur = [(s3, vs + [x]) for s2, vs in cur for s3, x in self.nth(t, s2, v[1], i)]
                for s2, vs in cur:
                    c2 = [s2]
                    for e, x in zip(t.elts, vs):
                        c2 = [y for z in c2 for y in self.assign(e, x, z)]
                    out += c2
                return out
            elif v[0] == "const" and not isinstance(v[1], str):
                self.soft(("unpackc", t.lineno, t.col_offset), True, "unpacks a value that is not a sequence", t.lineno)
                return []
            if vals is None:
                vals = [top(v)] * len(t.elts)
            cur = [s]
            for e, x in zip(t.elts, vals):
                cur = [y for z in cur for y in self.assign(e, x, z)]
            return cur
        if isinstance(t, ast.Subscript):
            out = []
            for s2, o in self.ev(t.value, s):
                if o[0] == "list":
                    s2 = s2.copy()
                    self.put(s2, o, v)
                out.append(s2)
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for s2, o in self.ev(t.value, s):
                if o[0] == "obj":
                    self.set_attr(s2, o, t)
                if o[0] == "obj" and ANY not in self.kinds(s2, o):
                    self.attr_fns(s2, o, t.attr, t)
                out.append(s2)
            return out
        return [s]

    def s_If(self, n, s):
        t, f = self.cond(n.test, s)
        r = self.Flow()
        for g in (self.block(n.body, self.norm_keep(t)) if t else self.Flow(), self.block(n.orelse, self.norm_keep(f)) if f else self.Flow()):
            r.out += g.out
            r.brk += g.brk
            r.cont += g.cont
            r.ret += g.ret
        return r

    def s_For(self, n, s):
        r = self.Flow()
        for s1, it in self.ev(n.iter, s):
            r2 = self.loop(n, s1, lambda st: self.bind_iter(n, st, it))
            for k in ("out", "ret"):
                setattr(r, k, getattr(r, k) + getattr(r2, k))
        return r

    def bind_iter(self, n, s, it):
        s = s.copy()
        ident = ("for", n.lineno, n.col_offset)
        k = it[0]
        if k == "enumerate":
            e = self.elem_of(s, it[1], ident)
            v = ("tuple", (top(), e)) if e != ("bot",) else e
        elif k == "zip":
            es = [self.elem_of(s, x, (ident, i)) if x[0] in ("arr",) or len({deps(y) for y in it[1]}) and x[0] == "all" and len(it[1]) == 1 else top(x) for i, x in enumerate(it[1])]
            v = ("tuple", tuple(es))
        else:
            v = self.elem_of(s, it, ident)
        if v == ("bot",):
            return []
        return self.assign(n.target, v, s)

    def s_While(self, n, s):
        def head(st):
            t, f = self.cond(n.test, st)
            return t
        r = self.loop(n, s, head)
        out = []
        for st in r.out:
            t, f = self.cond(n.test, st)
            out += f
        r.out = self.norm_keep(out) if out else []
        return r

    def loop(self, n, s, head):
        r = self.Flow()
        seen, work = {}, [s]
        seen[s.key()] = s
        brk = []
        for rnd in range(ROUNDS * 4):
            nxt = []
            ent = [y for x in work for y in head(x)]
            if not ent:
                break
            g = self.block(n.body, self.norm_keep(ent))
            r.ret += g.ret
            brk += g.brk
            for x in self.norm_keep(g.out + g.cont) if g.out + g.cont else []:
                self.gc(x)
                k = x.key()
                if k not in seen:
                    seen[k] = x
                    nxt.append(x)
            if not nxt:
                break
            work = nxt
            if len(seen) > CAP or rnd >= ROUNDS:
                j = self.join(list(seen.values()))
                self.gc(j)
                if j.key() in seen and len(seen) == 1:
                    break
                seen = {j.key(): j}
                work = [j]
        else:
            self.abst("loop does not settle", n.lineno)
        after = list(seen.values())
        if n.orelse:
            g = self.block(n.orelse, self.norm_keep(after))
            after = g.out
            r.ret += g.ret
        r.out = self.norm_keep(after + brk)
        return r

    def s_Break(self, n, s):
        f = self.Flow()
        f.brk = [s]
        return f

    def s_Continue(self, n, s):
        f = self.Flow()
        f.cont = [s]
        return f

    def s_Return(self, n, s):
        f = self.Flow()
        f.ret = self.ev(n.value, s) if n.value is not None else [(s, NONE)]
        return f

    def s_Raise(self, n, s):
        if n.exc is not None:
            self.ev(n.exc, s)
        return self.Flow()

    def s_Assert(self, n, s):
        t, f = self.cond(n.test, s)
        return self.Flow(t)

    def s_Delete(self, n, s):
        s = s.copy()
        for t in n.targets:
            if isinstance(t, ast.Name):
                s.env.pop(t.id, None)
        return self.Flow([s])

    def s_With(self, n, s):
        cur = [s]
        for i in n.items:
            nxt = []
            for st in cur:
                for s2, v in self.ev(i.context_expr, st):
                    nxt += self.assign(i.optional_vars, top(v), s2.copy()) if i.optional_vars is not None else [s2]
            cur = nxt
        return self.block(n.body, cur)

    def s_Try(self, n, s):
        names = set()
        for h in n.handlers:
            if h.type is None:
                names.add("BaseException")
            else:
                for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    names.add(x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "?")
        catches = bool(names & {"BaseException", "Exception", "AttributeError", "TypeError", "IndexError", "LookupError", "NameError", "UnboundLocalError", "ValueError", "?"})
        self.guard += catches
        try:
            g = self.block(n.body, [s.copy()])
        finally:
            self.guard -= catches
        r = self.Flow()
        r.brk, r.cont, r.ret = list(g.brk), list(g.cont), list(g.ret)
        after = g.out
        if n.orelse and after:
            e = self.block(n.orelse, after)
            after = e.out
            r.brk += e.brk
            r.cont += e.cont
            r.ret += e.ret
        # a handler starts somewhere in the middle: what the body binds is not known there
        hs = s.copy()
        for x in ast.walk(ast.Module(n.body, [])):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                hs.env[x.id] = top()
            elif isinstance(x, ast.alias):
                hs.env.setdefault((x.asname or x.name).split(".")[0], top())
        for i in list(hs.heap):
            if any(isinstance(x, ast.Call) for b in n.body for x in ast.walk(b)) and isinstance(hs.heap[i], tuple):
                hs.heap[i] = top() if any(("list" in str(i)[:8],)) else hs.heap[i]
        for h in n.handlers:
            st = hs.copy()
            if h.name:
                st.env[h.name] = top()
            e = self.block(h.body, [st])
            after = after + e.out
            r.brk += e.brk
            r.cont += e.cont
            r.ret += e.ret
        if n.finalbody:
            after = self.block(n.finalbody, after).out if after else []
        r.out = after
        return r

    def s_Import(self, n, s):
        s = s.copy()
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            s.env[nm] = ("ext", "factorama") if a.name.split(".")[0] == "factorama" else ("mod", a.name)
        return self.Flow([s])

    def s_ImportFrom(self, n, s):
        s = s.copy()
        for a in n.names:
            nm = a.asname or a.name
            if a.name == "*":
                continue
            if "_factorama" in (n.module or "") or n.module == "factorama" or n.level and not n.module:
                self.o()
                if a.name == "_factorama":
                    s.env[nm] = ("ext", "_factorama")
                elif a.name in self.allbound:
                    s.env[nm] = self.libname(a.name)
                elif a.name in self.globals:
                    s.env[nm] = self.globals[a.name]
                else:
                    self.hard(("import", a.name, n.lineno), "%s is imported but does not exist" % a.name, n.lineno)
                    s.env[nm] = top()
            else:
                s.env[nm] = top()
        return self.Flow([s])

    def s_FunctionDef(self, n, s):
        s = s.copy()
        self.abst("nested function %s is not analysed" % n.name, n.lineno)
        s.env[n.name] = top()
        return self.Flow([s])

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, s):
        s = s.copy()
        self.abst("class %s is not analysed" % n.name, n.lineno)
        s.env[n.name] = top()
        return self.Flow([s])

    def s_Match(self, n, s):
        r = self.Flow()
        for s1, v in self.ev(n.subject, s):
            cur = [s1]
            for c in n.cases:
                t, f = [], []
                for st in cur:
                    a, b = self.pattern(c.pattern, v, st)
                    t += a
                    f += b
                if c.guard is not None:
                    t2 = []
                    for st in t:
                        x, y = self.cond(c.guard, st)
                        t2 += x
                        f += y
                    t = t2
                if t:
                    g = self.block(c.body, self.norm_keep(t))
                    r.out += g.out
                    r.brk += g.brk
                    r.cont += g.cont
                    r.ret += g.ret
                cur = self.norm_keep(f) if f else []
            r.out += cur
        return r

    def pattern(self, p, v, s):
        if isinstance(p, ast.MatchValue):
            t, f = [], []
            for s2, w in self.ev(p.value, s):
                for k, x in self.rel("Eq", v, w, s2):
                    if k is not False:
                        t.append(x)
                    if k is not True:
                        f.append(x.copy() if k is None else x)
            return t, f
        if isinstance(p, ast.MatchOr):
            t, cur = [], [s]
            for q in p.patterns:
                nxt = []
                for st in cur:
                    a, b = self.pattern(q, v, st)
                    t += a
                    nxt += b
                cur = nxt
            return t, cur
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            s = s.copy()
            if p.name:
                s.env[p.name] = v
            return [s], []
        s = s.copy()
        self.forget(s, deps(v))
        for x in ast.walk(p):
            nm = getattr(x, "name", None)
            if isinstance(nm, str):
                s.env[nm] = top(v)
        return [s], [s.copy()]


def plain(v):
    return v[0] in ("const", "member") or v[0] == "tuple" and all(plain(x) for x in v[1])


def shp(d):
    return "x".join("?" if x is None else str(x) for x in d)


def slice_len(d, x):
    lo, hi, st = x[1:]
    if st is not None:
        return d if st in (("const", -1), ("const", 1)) and lo is None and hi is None else None

    def c(v, default):
        return default if v is None or v == NONE else v[1] if v[0] == "const" and isinstance(v[1], int) else "?"
    a, b = c(lo, 0), c(hi, None)
    if a == "?" or b == "?" or a is None:
        return None
    if d is None:
        return None
    return len(range(*slice(a, b).indices(d)))


def local_names(fd):
    out, glob = set(), set()

    def walk(n, top_):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            elif isinstance(c, ast.alias):
                out.add((c.asname or c.name).split(".")[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Global, ast.Nonlocal)):
                glob.update(c.names)
            walk(c, False)
    walk(fd, True)
    a = fd.args
    out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    return out - glob


class Live:
    """names that may still be read after each statement"""

    def __init__(self, out):
        self.res = out

    def function(self, fd):
        self.block(fd.body, frozenset(), frozenset(), frozenset())

    def block(self, stmts, out, brk, cont):
        cur = out
        for st in reversed(stmts):
            self.res[id(st)] = self.res.get(id(st), frozenset()) | cur
            cur = self.stmt(st, cur, brk, cont)
        return cur

    def used(self, n):
        r = set()
        if n is None:
            return r
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
                r.add(x.id)
            elif isinstance(x, ast.Name) and isinstance(getattr(x, "ctx", None), ast.Store) and isinstance(n, ast.AugAssign):
                r.add(x.id)
        return r

    def stmt(self, st, out, brk, cont):
        if isinstance(st, ast.If):
            a = self.block(st.body, out, brk, cont)
            b = self.block(st.orelse, out, brk, cont)
            return a | b | self.used(st.test)
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            after = self.block(st.orelse, out, brk, cont) if st.orelse else out
            extra = self.used(st.test) if isinstance(st, ast.While) else self.used(st.target)
            head = frozenset(after | extra)
            for _ in range(20):
                inner = self.block(st.body, head, out, head)
                if isinstance(st, ast.For) or isinstance(st, ast.AsyncFor):
                    inner = inner - {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
                new = frozenset(head | inner)
                if new == head:
                    break
                head = new
            return head | (self.used(st.iter) if hasattr(st, "iter") else frozenset())
        if isinstance(st, (ast.With, ast.AsyncWith)):
            r = self.block(st.body, out, brk, cont)
            for i in st.items:
                r = r | self.used(i.context_expr)
            return r
        if isinstance(st, ast.Try):
            fin = self.block(st.finalbody, out, brk, cont) if st.finalbody else out
            hs = frozenset().union(*[self.block(h.body, fin, brk, cont) | self.used(h.type) for h in st.handlers]) if st.handlers else frozenset()
            e = self.block(st.orelse, fin | hs, brk, cont) if st.orelse else fin
            return self.block(st.body, e | hs, brk, cont) | hs
        if isinstance(st, ast.Match):
            r = out
            for c in st.cases:
                r = r | self.block(c.body, out, brk, cont) | self.used(c.pattern) | self.used(c.guard)
            return r | self.used(st.subject)
        if isinstance(st, ast.Break):
            return brk
        if isinstance(st, ast.Continue):
            return cont
        if isinstance(st, ast.Return):
            return frozenset(self.used(st.value))
        if isinstance(st, ast.Raise):
            return frozenset(self.used(st))
        if isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets):
            return (out - {t.id for t in st.targets}) | self.used(st.value)
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return out | {x.id for x in ast.walk(st) if isinstance(x, ast.Name)}
        return out | self.used(st)


# names that matplotlib and numpy objects have as well
FOREIGN = {"add", "append", "clear", "copy", "fill", "get", "insert", "pop", "put", "remove", "reset", "resize", "reverse", "set", "sort", "start", "stop", "update", "extend"}


def plotting(m, acc):
    mod = B.model(m.F)
    import facts
    here = os.path.dirname(mod.file if os.path.isabs(mod.file) else os.path.join(facts.REPO, mod.file))
    pyi = PS.File(os.path.join(here, "__init__.pyi"))
    it = Interp(m, acc, os.path.join(here, "__init__.py"), pyi)
    pub = [n for n in it.file.funcs if not n.startswith("_")]
    if not pub:
        raise AnalysisBroken("the package defines no public function")
    if "PlotFactorGraph" not in pub:
        acc.a("C25", "PlotFactorGraph", "not found in %s" % it.loc)
    for c, w in it.lib.unknown.items():
        acc.a("C25", M.short(c), "type not known: %s" % w)
    for k, v in it.lib.vars_of.items():
        if v is None:
            acc.a("C25", M.short(k[0]), "variables() not evaluated")
    called = set()
    for n in pub:
        fd = it.file.funcs[n][0]
        ann = {}
        if n in pyi.funcs:
            a = pyi.funcs[n][0].args
            ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        a = fd.args
        s = State()
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            s.env[x.arg] = it_param(it, s, x.arg, x.annotation if x.annotation is not None else ann.get(x.arg))
        if a.vararg:
            s.env[a.vararg.arg] = top()
        if a.kwarg:
            s.env[a.kwarg.arg] = top()
        it.fn, it.locals = n, local_names(fd)
        try:
            it.body(fd, s)
        except Unsupported as ex:
            acc.a("C25", n, str(ex))
        called.add(n)
    it.report()
    # helpers nobody reached: their own names are still checked
    for n, fs in it.file.funcs.items():
        if n not in called and n not in {x for x in acc.inst.get("C25", ())}:
            fd = fs[0]
            s = State()
            for x in fd.args.posonlyargs + fd.args.args + fd.args.kwonlyargs:
                s.env[x.arg] = top()
            it.fn, it.locals = n, local_names(fd)
            try:
                it.body(fd, s)
            except Unsupported as ex:
                acc.a("C25", n, str(ex))
    it.report()


def it_param(it, s, name, ann):
    t = PS.ptype(ann, it.pynames) if ann is not None else None
    opt = t is not None and t.startswith("opt[")
    inner = t[4:-1] if opt else t
    if inner == "bool":
        return ("sym", name)
    if inner in it.lib.kinds:
        ks = set(it.lib.kinds[inner]) | ({("None",)} if opt else set())
        s.heap[("param", name)] = frozenset(ks)
        return ("obj", ("param", name))
    return top()
