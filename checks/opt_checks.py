"""Obligations on SparseOptimizer.  optimize() is analysed as a whole, for every number of iterations: traces are explored with
state merging at loop heads (merge.py), the graph is a canonical one over interface stubs, and the linear solver is an abstract
object whose factorisation and solve may succeed or fail each time.  A monitor runs along each trace."""
import algebra as al, interp as I, model as M, stubs, merge
from algebra import C, ZERO, ONE, Poly
from interp import Cell, Mat, Obj, Vec, Map, Sparse, Opaque, Str, Unsupported, UB, Throw, PathEnd
from graph_checks import Graph, G, SHAPES, gfn, layout, dense
from merge import known_sign, assume, Merger

O = "factorama::SparseOptimizer"
SHAPE = ("free, constant and free variables, out of order", [(7, 2, False), (3, 1, True), (5, 1, False)], [(4, 2, (0, 1)), (2, 1, (2, 0))])
SMALL = ("one free and one constant variable", [(7, 1, False), (3, 1, True)], [(4, 1, (1, 0))])
SUCCESS, RUNNING = "SUCCESS", "RUNNING"


class Solver:
    """abstract sparse LDLT"""

    def __init__(self):
        self.status = "none"        # none, ok, fail
        self.H = None
        self.k = 0
        self.info = "ok"
        self.used = None

    def state(self):
        return [self.status, self.info]


class OptWorld(stubs.World):
    def __init__(self, it, mon):
        stubs.World.__init__(self, it)
        self.mon = mon
        self.vars, self.factors = [], []
        self.throwing = None        # None, "armed", "done"
        self.nan = None             # None, "armed", "on"
        self.nver = set()

    def facs(self):
        return [f.tag for f in self.factors]

    def flags(self):
        return [self.throwing, self.nan] + self.mon.flags()

    def key(self, d):
        return (d.name,) + tuple(tuple(self.value(v)) + (v.tag.const,) for v in d.vs)

    def var(self, vid, dim, const=False, name=None):
        o = stubs.World.var(self, vid, dim, const, name)
        self.vars.append(o)
        return o

    def fac(self, fid, rows, vs, name=None):
        o = stubs.World.fac(self, fid, rows, vs, name)
        self.factors.append(o)
        return o

    def residual(self, d):
        out = stubs.World.residual(self, d)
        if self.nan and d is self.factors[0].tag:
            k = self.version(d)
            bad = any(al.has_kind(x, "nonfinite") for v in d.vs for x in self.value(v))
            key = ("nan", k)
            if not bad:
                if key not in self.nver and not hasattr(self, "_n%d" % k):
                    setattr(self, "_n%d" % k, 1)
                    if self.it.path.choose(2) == 1:
                        self.nver.add(key)
                bad = key in self.nver
            if bad:
                out = [M.latom("%s.n%d@%d" % (d.name, r, k), kind="nonfinite") for r in range(d.rows)]
        return out

    def varcall(self, it, o, d, m, cells, loc):
        old = list(it.mpolys(d.val)) if m in ("set_value_from_vector", "apply_increment") else None
        r = stubs.World.varcall(self, it, o, d, m, cells, loc)
        if old is not None:
            self.mon.on_write(o, m, old, self.value(o), loc)
        return r

    def faccall(self, it, o, d, m, cells, loc):
        if m in ("compute_residual", "compute_jacobians"):
            if self.throwing == "armed" and d is self.factors[0].tag and self.mon.rounds > 0:
                if it.path.choose(2) == 1:
                    self.throwing = "done"
                    self.mon.threw = True
                    raise Throw(Opaque("exception"), loc)
            if m == "compute_residual":
                self.mon.on_residual(d, loc)
            else:
                self.mon.on_jacobian(d, loc)
        return stubs.World.faccall(self, it, o, d, m, cells, loc)


class Monitor:
    """typestate of one optimisation run"""

    def __init__(self, m, acc, method, nm):
        self.m, self.acc, self.method, self.nm = m, acc, method, nm
        self.rounds = 0
        self.threw = False
        self.on = False
        self.A = None               # accepted values
        self.RA = None
        self.pend = None            # last solution (Mat) not yet settled
        self.tried = None           # None, "fail": an attempt since the last settle
        self.after = None           # None (start), "fail", "accept"
        self.lam = Cell(None)
        self.lastfail = False       # the last factorisation or solve failed
        self.events = []
        self.steps = 0
        self.moved = False
        self.seen = set()
        self.stepping = False       # solves belong to an optimisation that is not monitored
        self.outcomes, self.replay = [], None
        self.timers = None
        self.loc = None
        self.judged = set(PIDS) | {"C27"}
        self.wrote = False
        self.checked = False
        self.rose = False           # some step was kept without having been found not to raise the residual
        self.kept = Cell(C(-1))     # length of the last increment that was kept, -1 before the first
        self.last = None            # the increment itself
        self.base = Cell(0)         # iterations reported so far
        self.done = 0               # increments kept since

    def pick(self, n):
        """outcome of a factorisation or solve"""
        k = self.replay.pop(0) if self.replay is not None else self.it.path.choose(n)
        self.outcomes.append(k)
        return k

    def flags(self):
        return [min(self.rounds, 1), self.threw, self.tried, self.after, self.lastfail, self.moved, self.rose, self.done, tuple(sorted(self.timers or ()))]

    def roots(self):
        return [self.A, self.RA, self.pend, self.lam, self.initial, self.kept, self.last, self.base]

    def v(self, pid, key, msg, loc=None):
        if pid not in self.judged:
            return
        self.acc.v(pid, key, "%s: %s [%s]" % (self.nm, msg, "; ".join(self.it.path.log[-8:])), loc or self.loc or self.m_loc("optimize"))

    def m_loc(self, name):
        fs = [f for f in self.m.F.methods(O, name) if "body" in f]
        return "%s:%s" % (fs[0]["file"], fs[0]["line"]) if fs else O

    def o(self, pid, n=1):
        self.acc.o(pid, n)

    # --- oracle
    def begin(self, it, g, opt, S):
        self.it, self.g, self.opt, self.S = it, g, opt, S
        self.lay, msg, _ = layout(g)
        if self.lay is None:
            raise Unsupported("placement: " + msg)
        self.rows, self.cols = self.lay
        self.n = g.total()
        self.free = g.free()
        self.A = [it.newmat(v.tag.dim, 1, list(g.w.value(v)), -1, 1) for v in self.free]
        self.RA = self.res()
        c = self.cost(self.RA)
        self.initial = [Cell(c), Cell(al.sqrt(c))]
        self.entry = [list(g.w.value(v)) for v in g.vs]
        self.on = True
        self.timers = set()

    def res(self):
        R = [None] * self.g.rows()
        for f in self.g.fs:
            for r, x in enumerate(self.g.w.residual(f.tag)):
                R[self.rows[f.tag.id] + r] = x
        return self.it.newmat(len(R), 1, R, -1, 1)

    def jac(self):
        J = [[ZERO] * self.n for _ in range(self.g.rows())]
        for f in self.g.fs:
            b = self.rows[f.tag.id]
            for vi, v in enumerate(f.tag.vs):
                if v.tag.const:
                    continue
                for r in range(f.tag.rows):
                    for c in range(v.tag.dim):
                        J[b + r][self.cols[v.tag.id] + c] = self.g.w.jac(f.tag, vi, r, c)
        return J

    def cost(self, R):
        t = ZERO
        for c in R.cells:
            t = t + c.v * c.v
        return t

    def at(self, vals):
        return all(list(self.g.w.value(v)) == list(x) for v, x in zip(self.free, vals))

    def accepted(self):
        return [self.it.mpolys(a) for a in self.A]

    def stepped(self, lr=True):
        if self.pend is None:
            return None
        d = self.it.mpolys(self.pend)
        out = []
        for v, a in zip(self.free, self.accepted()):
            k = self.cols[v.tag.id]
            out.append([x + (self.S["learning_rate"] if lr else ONE) * y for x, y in zip(a, d[k:k + v.tag.dim])])
        return out

    # --- events
    def on_write(self, o, meth, old, new, loc):
        if not self.on:
            return
        self.events.append((meth, o.tag.name))
        self.o("C14")
        if o.tag.const and old != list(new):
            self.v("C14", "optimisation moves a constant", "constant variable %s changes from %s to %s" % (o.tag.name, [al.pstr(x, 2) for x in old], [al.pstr(x, 2) for x in new]), loc)
        self.o("C16")
        if any(al.has_kind(x, "bad") for x in new):
            self.v("C16", "failed solution applied", "variable %s is changed by the result of a failed solve" % o.tag.name, loc)
        if not o.tag.const:
            self.moved = self.wrote = True
            if meth == "apply_increment" and self.pend is not None and list(new) != list(old):
                # the stub adds increments up, a rotation or a clamped variable does not: two increments in a row neither undo
                # nor complete each other
                k = self.free.index(o)
                pid = "C15" if self.method == "LM" else "C37"
                self.o(pid)
                st = self.stepped()
                if list(old) != list(self.accepted()[k]):
                    if list(new) == list(self.accepted()[k]):
                        self.v(pid, "undone by an increment", "variable %s is taken back by a second increment, which does not restore the value of a variable whose increment is not a plain addition" % o.tag.name, loc)
                    elif st is not None and list(new) == list(st[k]):
                        self.v(pid, "composed increment", "variable %s reaches the step by more than one increment, which is not the step for a variable whose increment is not a plain addition" % o.tag.name, loc)

    def on_residual(self, d, loc):
        if d is self.g.w.factors[0].tag:
            self.rounds += 1
        if not self.on:
            return
        self.events.append(("residual", d.name))
        if self.moved and self.pend is not None:
            # first evaluation after variables were written: the whole step, or everything back
            self.moved = False
            self.o("C37")
            if not self.at(self.accepted()) and not self.at(self.stepped()):
                if self.at(self.stepped(False)):
                    self.v("C27", "learning rate", "the solution is applied without the learning rate", loc)
                self.v("C37", "increment", "the variables are %s after the increment: not the solution of the linear system times the learning rate at every free variable's own columns" % self.show(), loc)

    def show(self):
        return ", ".join("%s=%s" % (v.tag.name, [al.pstr(x, 4) for x in self.g.w.value(v)]) for v in self.free)

    def on_jacobian(self, d, loc):
        if self.on:
            self.events.append(("jacobian", d.name))

    def unsettled(self):
        """a solution was found and it is not yet clear whether it stays"""
        if self.pend is None:
            return False
        if self.at(self.accepted()):
            return not (self.wrote or self.lastfail)
        if self.moved or not self.at(self.stepped()):
            return True
        return self.method == "LM" and known_sign(self.it, self.cost(self.res()) - self.cost(self.RA)) != -1

    def follow(self):
        """the reported step length and iteration count, as long as they are right"""
        d = self.it.to_poly(field(self.opt, "current_stats_.delta_norm"))
        if self.kept.v is None and al.cancel(d * d - self.cost(self.last)) == ZERO:
            self.kept.v = d
        n = self.it.to_poly(field(self.opt, "current_stats_.current_iteration"))
        if self.done == 1 and n == self.it.to_poly(self.base.v) + ONE:
            self.base.v = field(self.opt, "current_stats_.current_iteration")
            self.done = 0

    def at_head(self):
        """before values are widened: a step whose fate is known is settled and the damping that follows is judged"""
        if self.tried and not self.unsettled():
            self.settle(None)
        self.follow()
        if self.method == "LM" and self.lam.v is not None and self.after in ("fail", "accept"):
            lam = self.it.to_poly(field(self.opt, "current_stats_.damping_parameter"))
            if lam != self.lam.v:
                self.damping(lam, None)
                self.lam.v = lam
                self.after = None

    def settle(self, loc):
        """variables at rest: accepted or restored"""
        if self.at(self.accepted()):
            if self.tried:
                self.after = "fail"
            self.tried = None
            self.moved = False
            self.pend = None
            return
        st = self.stepped()
        self.moved = False
        if st is not None and self.at(st):
            if self.method == "LM":
                R = self.res()
                self.o("C15")
                s = known_sign(self.it, self.cost(R) - self.cost(self.RA))
                if s != -1:
                    self.v("C15", "kept without improvement", "an increment is kept although the cost was not found to be strictly lower (%s)" % {None: "the costs are not compared", 0: "it is equal", 1: "it is higher"}[s], loc)
        else:
            self.o("C15" if self.method == "LM" else "C37")
            self.v("C15" if self.method == "LM" else "C37", "half-way state", "the variables are left at %s: neither the values before the increment nor the whole increment" % self.show(), loc)
        d = self.cost(self.res()) - self.cost(self.RA)
        if known_sign(self.it, d) not in (-1, 0) and known_sign(self.it, al.sqrt(self.cost(self.res())) - al.sqrt(self.cost(self.RA))) not in (-1, 0):
            self.rose = True
        self.after = "accept"
        self.tried = None
        if self.pend is not None:
            k = [self.S["learning_rate"] * x for x in self.it.mpolys(self.pend)]
            self.last = self.it.newmat(len(k), 1, k, -1, 1)
            self.kept.v = None
            self.done = min(self.done + 1, 3)
        self.pend = None
        self.A = [self.it.newmat(v.tag.dim, 1, list(self.g.w.value(v)), -1, 1) for v in self.free]
        self.RA = self.res()
        self.steps += 1

    def on_compute(self, so, H, what, loc):
        if not self.on:
            return
        self.events.append(("compute",))
        self.loc = loc
        if self.tried and self.method == "LM" and not self.at(self.accepted()) and not (self.stepped() and self.at(self.stepped())):
            pass
        self.settle(loc)
        self.tried = "fail"
        if what == "analyzePattern":
            return
        r, c, e = dense(self.it, H)
        self.o("C37")
        if (r, c) != (self.n, self.n):
            self.v("C37", "normal matrix size", "a %dx%d matrix is factorised for %d unknowns" % (r, c, self.n), loc)
            return
        J = self.jac()
        JJ = [[sum((J[k][i] * J[k][j] for k in range(len(J))), ZERO) for j in range(self.n)] for i in range(self.n)]
        D = [[e[i][j] - JJ[i][j] for j in range(self.n)] for i in range(self.n)]
        lam = D[0][0]
        self.o("C37", self.n * self.n)
        bad = [(i, j) for i in range(self.n) for j in range(self.n) if (D[i][j].t if i != j else (D[i][i] - lam).t)]
        if bad or self.method == "GN" and lam.t:
            i, j = bad[0] if bad else (0, 0)
            if not bad:
                self.v("C27", "method", "with the method Gauss-Newton the normal matrix is damped by %s" % al.pstr(lam, 3), loc)
            self.v("C37", "normal matrix", "the factorised matrix is not J'J%s of the Jacobian at the current variables: entry (%d,%d) is %s" % (" plus a multiple of the identity" if self.method == "LM" else "", i, j, al.pstr(e[i][j], 4)), loc)
            return
        if self.method == "LM":
            self.o("C27")
            if not lam.t:
                self.v("C27", "method", "with the method Levenberg-Marquardt the normal matrix is not damped", loc)
            self.damping(lam, loc)

    def damping(self, lam, loc):
        S = self.S
        old = self.lam.v
        self.o("C15", 2)
        self.lam.v = lam
        mx = S["max_lambda"]
        if old is None:
            self.o("C27")
            if lam != S["initial_lambda"]:
                self.v("C27", "initial damping", "the first attempt uses damping %s instead of the initial damping" % al.pstr(lam, 3), loc)
                self.lam.v = S["initial_lambda"]
            return
        up, down = old * S["lambda_up_factor"], old * S["lambda_down_factor"]
        if self.after is None:
            if lam != old:
                self.v("C15", "damping changed without an attempt", "the damping goes from %s to %s although nothing was tried in between" % (al.pstr(old, 3), al.pstr(lam, 3)), loc)
        elif self.after == "fail":
            if lam == up:
                if known_sign(self.it, up - mx) not in (-1, 0):
                    self.v("C15", "damping above the maximum", "after a failed attempt the damping becomes %s without staying below the maximum" % al.pstr(lam, 3), loc)
                    assume(self.it, lam - mx, -1) if known_sign(self.it, lam - mx) is None else None
            elif lam == mx:
                if known_sign(self.it, up - mx) == -1:
                    self.v("C15", "damping raised too far", "after a failed attempt the damping jumps to the maximum although the raised value is below it", loc)
            else:
                for pid in ("C15", "C27"):
                    self.v(pid, "damping after a failed attempt", "after a failed attempt the damping goes from %s to %s" % (al.pstr(old, 3), al.pstr(lam, 3)), loc)
        elif self.after == "accept":
            ok = lam in (down, old) or lam.is_const() and 0 < lam.cval() < C(al.Fr(1, 10 ** 6)).cval()
            if not ok:
                for pid in ("C15", "C27"):
                    self.v(pid, "damping after an accepted attempt", "after an accepted attempt the damping goes from %s to %s" % (al.pstr(old, 3), al.pstr(lam, 3)), loc)

    def on_solve(self, b, ok, loc):
        if not self.on:
            return
        self.events.append(("solve", ok))
        self.wrote = False
        self.lastfail = not ok
        if ok:
            self.o("C16")
            w = self.singular()
            if w:
                self.v("C16", "singular factorisation used", "the system is solved although %s" % w, loc)
        if not isinstance(b, Mat) or b.cols != 1:
            return
        self.o("C37")
        if b.rows != self.n:
            return
        J = self.jac()
        R = self.it.mpolys(self.RA)
        want = [-sum((J[k][i] * R[k] for k in range(len(J))), ZERO) for i in range(self.n)]
        if self.it.mpolys(b) != want:
            self.v("C37", "right-hand side", "the right-hand side is not -J'r at the current variables: %s" % [al.pstr(x, 3) for x in self.it.mpolys(b)], loc)

    def singular(self):
        """a singular or ill-conditioned D of the last factorisation that nothing decided on this trace rules out"""
        n = self.n
        nd = getattr(self, "nd", 0)
        if not self.checked:
            return "the pivots of this factorisation were not looked at"
        facts = []
        tag = "@%d" % nd
        for q, s in self.it.path.signs.items():
            names = [al.CTX.atoms[i] for i in q.atoms()]
            if names and all(a.kind == "D" and a.name.endswith(tag) for a in names):
                facts.append((q, s))
        for small, rest in BADPIVOTS:
            for k in range(n):
                val = {"D.%d%s" % (i, tag): small if i == k else rest for i in range(n)}
                val["Dmin.0" + tag] = small
                val["Dmax.0" + tag] = rest if n > 1 else small
                if n == 1 and small > 0 and small >= al.Fr(1, 10 ** 14):
                    continue
                try:
                    if all(agrees(q, s, val) for q, s in facts):
                        return "nothing rules out a pivot of %s next to one of %s (%d comparison(s) made)" % (float(small), float(rest), len(facts))
                except (KeyError, ZeroDivisionError):
                    raise Unsupported("comparison of pivots")
        return None

    def timer(self, o, what, loc):
        if self.timers is None:
            return
        nm = next((k for k, c in self.opt.f.items() if c.v is o), None)
        if nm is None:
            return
        if what == "start":
            self.o("C20")
            other = self.timers - {nm}
            if other:
                self.v("C20", "%s runs into %s" % (sorted(other)[0], nm), "%s is started while %s is still running" % (nm, sorted(other)[0]), loc)
                self.timers -= other
            self.timers.add(nm)
        else:
            self.timers.discard(nm)


# pivots (smallest, largest) the documented limits 1e-14 and 1e12 exclude
BADPIVOTS = [(al.Fr(0), al.Fr(1)), (al.Fr(1, 10 ** 15), al.Fr(1)), (al.Fr(1, 10 ** 15), al.Fr(1, 10 ** 15)), (al.Fr(1), al.Fr(10 ** 13)), (al.Fr(1, 10 ** 6), al.Fr(10 ** 8))]


def agrees(q, s, val):
    t = al.Fr(0)
    for m, c in q.t.items():
        x = al.Fr(c)
        for i, e in m:
            x = x * al.Fr(val[al.CTX.atoms[i].name]) ** e
        t += x
    return (t > 0) - (t < 0) == s


def solver_hooks(it, mon):
    def call(it, o, name, vs, e):
        if o.data is None:
            o.data = Solver()
        s = o.data
        loc = "%s:%s" % (it.curfn.get("file", ""), e.get("l", 0))
        if name in ("compute", "factorize", "analyzePattern"):
            H = vs[0]
            if not isinstance(H, (Sparse, Mat)):
                raise Unsupported("solver argument %s" % type(H).__name__)
            mon.on_compute(s, H, name, loc)
            if name == "analyzePattern":
                return None
            s.H = it.copyval(H)
            s.k += 1
            mon.checked = False
            s.status = ["ok", "fail"][mon.pick(2)]
            s.info = s.status
            mon.lastfail = s.status == "fail"
            return o
        if name == "info":
            return 0 if s.info == "ok" else 1
        mon.acc.o("C16")
        if name in ("vectorD", "matrixL", "matrixU", "permutationP", "permutationPinv", "determinant", "solve"):
            if s.status != "ok":
                mon.v("C16", "%s after %s" % (name, "a failed factorisation" if s.status == "fail" else "no factorisation"), "%s() is used %s" % (name, "although the factorisation failed" if s.status == "fail" else "before anything was factorised"), loc)
        if name == "vectorD":
            mon.nd = getattr(mon, "nd", 0) + 1
            mon.checked = True
            n = s.H.rows if s.H is not None else 0
            return it.newmat(n, 1, [M.latom("D.%d@%d" % (i, mon.nd), pos=True, kind="D") for i in range(n)], -1, 1)
        if name == "solve":
            B = vs[0]
            B = it.densify(B)
            if s.H is not None and B.rows != s.H.rows:
                raise UB("solve with %d rows for %d unknowns" % (B.rows, s.H.rows), loc)
            ok = mon.pick(2) == 0
            s.info = "ok" if ok else "fail"
            mon.on_solve(B, ok and s.status == "ok", loc)
            if B.cols == 1 and (mon.on or mon.stepping):
                mon.nx = getattr(mon, "nx", 0) + 1
                nan = any(al.has_kind(x, "nonfinite") for x in it.mpolys(B))
                kind = "nonfinite" if nan else "sym" if ok and s.status == "ok" else "bad"
                x = it.newmat(B.rows, 1, [M.latom("dx.%d%s@%d" % (i, "n" if nan else "", mon.nx), kind=kind) for i in range(B.rows)], -1, 1)
                mon.pend = it.copyval(x)
                return x
            n = s.H.rows if s.H is not None else B.rows
            kind = "inv" if ok and s.status == "ok" else "bad"
            inv = [[M.latom("Inv%s.%d.%d@%d" % ("bad" if kind == "bad" else "", i, j, s.k), kind=kind) for j in range(n)] for i in range(n)]
            mon.inv = s
            b = it.mpolys(B)
            return it.newmat(n, B.cols, [sum((inv[i][k] * b[k * B.cols + j] for k in range(n)), ZERO) for i in range(n) for j in range(B.cols)])
        raise Unsupported("solver method " + name)
    it.hooks["method:Eigen::SimplicialLDLT"] = call
    it.hooks["method:Eigen::SimplicialLLT"] = call

    def coeff(it, name, vals):
        if vals and all(any(al.CTX.atoms[i].kind == "D" for i in x.atoms()) for x in vals):
            g = sorted({al.CTX.atoms[i].name.rsplit("@")[-1] for x in vals for i in x.atoms()})[-1]
            return M.latom("D%s.0@%s" % (name[:3], g), pos=name == "maxCoeff", kind="D")
        return None
    it.coeff_hook = coeff
    for w in ("start", "stop", "reset"):
        it.hooks["factorama::Stopwatch::" + w] = lambda it, o, cells, e, w=w: mon.timer(o, w, "%s:%s" % ((it.curfn or {}).get("file", ""), (e or {}).get("l", 0)))


def enum(m, typ, name):
    for e in m.F.enums.get(typ, {}).get("e", []):
        if e["name"] == name:
            return e["v"]
    return None


def settings(m, it, w, method, verbose=False, maxit=None):
    s = Obj("factorama::OptimizerSettings")
    it.run_ctor_default("factorama::OptimizerSettings", s)
    S = {}
    for f, c in it.fields("factorama::OptimizerSettings"):
        n = f["name"]
        if f["t"].get("fp"):
            S[n] = M.latom("set." + n, pos=True)
            s.f[n] = Cell(S[n])
    s.f["method"] = Cell(enum(m, "factorama::OptimizerMethod", {"GN": "GaussNewton", "LM": "LevenbergMarquardt"}[method]))
    s.f["verbose"] = Cell(verbose)
    S["max_num_iterations"] = M.latom("set.max_num_iterations", kind="sym") if maxit is None else maxit
    s.f["max_num_iterations"] = Cell(S["max_num_iterations"])
    return s, S


def optimizer(m, it):
    o = Obj(O)
    it.run_ctor_default(O, o)
    return o


def prepare(m, p, acc, method, nm, shape=SHAPE, ctx=True, **kw):
    if ctx:
        al.set_ctx(al.Ctx())
    it = m.interp(p)
    it.threeway = True
    it.exact_signs = True
    it.equality_false = False
    it.max_dec = 400
    mon = Monitor(m, acc, method, nm)
    mon.it = it
    w = OptWorld(it, mon)
    g = Graph(m, it, w, shape)
    o = optimizer(m, it)
    solver_hooks(it, mon)
    st, S = settings(m, it, w, method, **kw)
    for a, b in (("initial_lambda", "max_lambda"),):
        if a in S and b in S:
            assume(it, S[a] - S[b], -1)
    it.method(o, "setup", [g.o, st])
    return it, w, g, o, mon, S


def field(o, path):
    for k in path.split("."):
        c = o.f.get(k)
        if c is None:
            raise Unsupported("no field " + path)
        o = c.v
    return o


def status(m, v):
    for e in m.F.enums.get("factorama::OptimizerStatus", {}).get("e", []):
        if e["v"] == v:
            return e["name"]
    return "?%s" % v


def run_all(m, acc, method, mode, shape=SHAPE, limit=6000):
    """explores optimize() for any number of iterations; mode: plain, throw, nan"""
    nm = "%s, %s" % ({"GN": "Gauss-Newton", "LM": "Levenberg-Marquardt"}[method], {"plain": "no exceptions", "throw": "a factor may throw", "nan": "residuals may be NaN"}[mode])
    seen = set()
    stat = {"paths": 0, "done": 0, "merged": 0, "states": 0}
    used = set()

    def run(p):
        it, w, g, o, mon, S = prepare(m, p, acc, method, nm, shape)
        if mode == "throw":
            w.throwing = "armed"
        if mode == "nan":
            w.nan = "armed"
            mon.judged = {"C17"}
            it.nan_mode = True
        mon.begin(it, g, o, S)
        solver = o.f
        mg = Merger(lambda: [o, w.vars, w.factors] + mon.roots(), w, where=lambda f: f.get("rec") != G and "factor_graph" not in f.get("file", ""), seen=seen,
                    blocked=mon.unsettled)
        mg.start(it)

        def head(it, s, env, this, n):
            if not mg.where(it.curfn or {}):
                return
            key = (id(s), len(it.frames))
            if n == 0:
                mon.entry_timers = getattr(mon, "entry_timers", {})
                mon.entry_timers[key] = set(mon.timers)
            else:
                mon.o("C20")
                left = mon.timers - mon.entry_timers.get(key, set())
                if left and mode != "throw":
                    mon.v("C20", "%s left running" % sorted(left)[0], "%s is still running when the loop goes round" % sorted(left)[0], "%s:%s" % (it.curfn.get("file"), s.get("l")))
                    mon.timers -= left
                    for t in left:
                        o.f[t].v.f["is_running_"].v = False if "is_running_" in o.f[t].v.f else None
            mon.at_head()
            mg.hook(it, s, env, this, n)
        it.loop_hook = head
        stat["paths"] += 1
        try:
            it.method(o, "optimize")
        except PathEnd:
            stat["merged"] += 1
            raise
        except Throw as t:
            acc.o("C17")
            mon.v("C17", "exception escapes", "optimize() itself throws (%s) once the iterations have begun" % t.loc, str(t.loc))
            return
        finally:
            used.update(x for x in [])
        stat["done"] += 1
        stat["states"] = len(seen)
        finish(m, acc, it, w, g, o, mon, S, method, mode, nm)
    out = I.explore(run, limit)
    for p, r, err in out:
        if isinstance(err, UB):
            for pid in ("C16", "C37"):
                acc.v(pid, "undefined behaviour: %s" % err.what, "%s: %s" % (nm, err), str(err.loc))
        elif isinstance(err, (Unsupported, al.TooBig)):
            for pid in PIDS:
                acc.a(pid, nm, str(err))
        elif isinstance(err, Throw):
            for pid in PIDS:
                acc.a(pid, nm, "throw outside optimize: %s" % err)
    for pid in PIDS:
        acc.i(pid, "%s: %d traces, %d to the end, %d joined an explored state" % (nm, stat["paths"], stat["done"], stat["merged"]))
    return stat


PIDS = ("C14", "C15", "C16", "C17", "C20", "C37", "C38")


def finish(m, acc, it, w, g, o, mon, S, method, mode, nm):
    """obligations at the return of optimize()"""
    loc = mon.m_loc("optimize")
    mon.loc = None
    mon.on = False
    st = status(m, field(o, "current_stats_.status"))
    valid = field(o, "current_stats_.valid")
    mon.o("C17", 3)
    if st == RUNNING or st.startswith("?"):
        mon.v("C17", "running at the end", "optimize() returns with status %s" % st, loc)
    if valid != (st == SUCCESS):
        mon.v("C17", "valid flag and status %s" % st, "optimize() returns with status %s and valid=%s" % (st, valid), loc)
    if mon.threw and st == SUCCESS:
        mon.v("C17", "lost exception", "an exception inside an iteration ends as success", loc)
    if mode == "nan":
        now = [x for f in g.fs for x in w.residual(f.tag)]
        mon.o("C17")
        if st == SUCCESS and any(al.has_kind(x, "nonfinite") for x in now):
            mon.v("C17", "success with a residual that is not a number", "optimize() returns success although the residual at the final variables is not a number", loc)
    mon.o("C16")
    if method == "GN" and mon.lastfail and st == SUCCESS:
        mon.v("C16", "failure not reported", "the last factorisation or solve failed but the status is success", loc)
    if method == "LM":
        mon.settle(loc)
        if mon.lam.v is not None and not mon.threw:
            lam = it.to_poly(field(o, "current_stats_.damping_parameter"))
            if lam != mon.lam.v or mon.after == "fail" and mon.lam.v != S["max_lambda"]:
                mon.damping(lam, loc)
    elif not (mon.threw and mon.pend is not None):
        mon.settle(loc)
    if mode != "nan" and st == SUCCESS and mon.rose:
        mon.o("C17")
        c = mon.cost(mon.res())
        short = known_sign(it, it.to_poly(field(o, "current_stats_.delta_norm")) - S["step_tolerance"]) == -1
        low = known_sign(it, c - mon.initial[0].v) == -1 or known_sign(it, al.sqrt(c) - mon.initial[1].v) == -1
        if not short and not low:
            mon.v("C17", "diverged run reported as success", "optimize() returns success after a step that may have raised the residual, without finding the residual below the initial one or the step below its tolerance", loc)
    for v, b in zip(g.vs, mon.entry):
        if v.tag.const:
            mon.o("C14")
            if list(w.value(v)) != b:
                mon.v("C14", "optimisation moves a constant", "constant variable %s ends at another value" % v.tag.name, loc)
    if mode == "plain":
        mon.o("C20")
        if mon.timers:
            t = sorted(mon.timers)[0]
            mon.v("C20", "%s left running" % t, "%s is still running when optimize() returns with status %s" % (t, st), loc)
        R = it.mpolys(mon.res())
        chi = ZERO
        for x in R:
            chi = chi + x * x
        mon.o("C38", 6)
        failed = mon.after != "accept" or mon.tried is not None
        mon.follow()
        d = it.to_poly(field(o, "current_stats_.delta_norm"))
        if (mon.kept.v is None or d != it.to_poly(mon.kept.v)) and not (failed and not d.t):
            mon.v("C38", "step length", "with status %s the reported step length %s is not that of the last increment kept%s" % (st, al.pstr(d, 3), " (nor zero for none)" if failed else ""), loc)
        n = it.to_poly(field(o, "current_stats_.current_iteration")) - it.to_poly(mon.base.v)
        if mon.done == 3:
            acc.a("C38", nm, "the iteration count is not kept up iteration by iteration")
        elif n != C(mon.done) and not (failed and n == C(mon.done + 1)):
            mon.v("C38", "iteration count", "with status %s the reported number of iterations is not that of the increments kept%s (it is off by %s)" % (st, " plus one without any" if failed else "", al.pstr(n - C(mon.done), 3)), loc)
        i2, ir = it.to_poly(field(o, "initial_stats_.chi2")), it.to_poly(field(o, "initial_stats_.residual_norm"))
        if i2 != mon.initial[0].v or ir != mon.initial[1].v:
            mon.v("C38", "initial statistics", "with status %s the initial statistics are not those of the residual at the values the optimisation started from" % st, loc)
        if it.to_poly(field(o, "current_stats_.chi2")) != chi:
            mon.v("C38", "chi2", "with status %s the reported chi2 is not that of the residual at the final variables" % st, loc)
        if it.to_poly(field(o, "current_stats_.residual_norm")) != al.sqrt(chi):
            mon.v("C38", "residual_norm", "with status %s the reported residual norm is not that of the residual at the final variables" % st, loc)


def exploration(method, mode):
    return lambda m, acc: run_all(m, acc, method, mode)
