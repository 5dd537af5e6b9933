"""C42: which members of the library change a variable, a factor or the structure of a graph (transitive effects over the call graph)"""
import re
import model as M
from decl_checks import parents, use_kind

MEMBERSHIP = re.compile(r"\b(Variable|Factor|VariablePlacement|FactorPlacement)\b")


ACCESS = {"operator[]", "at", "begin", "end", "rbegin", "rend", "find", "front", "back", "data", "get", "operator*", "operator->", "equal_range", "lower_bound", "upper_bound"}
RESTORES = {"ComputeNumericalJacobians"}        # perturbs and restores: C21, C40


class Effects:
    def __init__(self, m):
        self.F = m.F
        self.memo = {}
        self.state = set(m.vars) | set(m.facs) | {M.VAR, M.FAC}
        for c in list(self.state):
            self.state |= set(self.F.bases(c))
        self.over = {}
        for f in self.F.fn.values():
            for o in f.get("overrides") or ():
                self.over.setdefault(o, []).append(f)

    def protected(self, rec, name):
        """is this field part of a variable's, a factor's or the graph's lasting state?"""
        if rec in self.state:
            return not self.mutable(rec, name)
        r = self.F.rec.get(rec)
        if r is None or not rec.split("@")[0].endswith("FactorGraph"):
            return False
        t = next((f["t"].get("n", "") for f in r["fields"] if f["name"] == name), "")
        return bool(MEMBERSHIP.search(t))

    def mutable(self, rec, name):
        r = self.F.rec.get(rec)
        return any(f["name"] == name and f.get("mutable") for f in (r or {}).get("fields", ()))

    def reached(self, c):
        """functions a call can reach"""
        f = self.F.fn.get(c.get("id"))
        out = [f] if f is not None else []
        if not out and c.get("q"):
            n = len(c.get("pt") or ())
            out = [g for g in self.F.by_q.get(c["q"], ()) if len(g["params"]) == n] or list(self.F.by_q.get(c["q"], ()))
        todo = [g["id"] for g in out]
        while todo:
            for g in self.over.get(todo.pop(), ()):
                if g not in out:
                    out.append(g)
                    todo.append(g["id"])
        return out

    def of(self, f):
        """'' if f changes nothing of the lasting state, otherwise what it changes"""
        if f["id"] in self.memo:
            return self.memo[f["id"]]
        self.memo[f["id"]] = ""
        if f["name"] in RESTORES:
            return ""
        r = "" if f.get("const") and not f.get("static") or f.get("ctor") or f.get("dtor") else self.body(f.get("body"))
        self.memo[f["id"]] = r
        return r

    def body(self, b):
        for x, par in parents(b, lambda x: x.get("k") == "member" and x.get("rec") and self.protected(x["rec"], x.get("name")), []):
            if self.written(x, par) and not self.own(x):
                return "%s.%s" % (M.short(x["rec"]), x.get("name"))
        for x, par in parents(b, lambda x: x.get("k") in ("call", "mcall", "opcall") and (x.get("callee") or {}).get("id"), []):
            c = x["callee"]
            if c.get("const") and not c.get("static"):
                continue
            if x["k"] == "mcall" and self.own({"obj": x.get("obj")}):
                continue
            for g in self.reached(c):
                r = self.of(g)
                if r:
                    return r
        return ""

    def written(self, x, par):
        """is the named object written, directly or through an element of it?"""
        while True:
            if use_kind(x, par) != "write":
                return False
            k = len(par) - 1
            while k >= 0 and par[k].get("k") not in ("mcall", "opcall", "assign", "binary", "compound", "bin", "unary", "call"):
                k -= 1
            c = par[k] if k >= 0 else {}
            if c.get("k") in ("mcall", "opcall") and (c.get("callee") or {}).get("name") in ACCESS:
                if par[:k] and par[k - 1].get("k") is None and "b" in par[k - 1]:
                    return False
                x, par = c, par[:k]
                continue
            return True

    def own(self, x):
        """is the object a local copy?"""
        o = x.get("obj") or x.get("e")
        while isinstance(o, dict) and o.get("k") in ("member", "paren", "cast", "index"):
            if (o.get("t") or {}).get("ptr") or o.get("arrow"):
                return False
            o = o.get("obj") or o.get("e") or o.get("b") or o.get("a")
        t = (o or {}).get("t") or {}
        d = (o or {}).get("dt") or t
        return isinstance(o, dict) and o.get("k") == "ref" and o.get("dk") == "local" and not (d.get("ref") or d.get("ptr") or d.get("rref"))

    def bound(self, f):
        if f.lam is not None:
            return self.body(f.lam.get("body"))
        if f.target is None:
            return None
        c = dict(f.target)
        if c.get("const") and not c.get("static"):
            return ""
        gs = self.reached(c)
        if not any("body" in g for g in gs):
            return None
        for g in gs:
            r = self.of(g)
            if r:
                return r
        return ""
