"""C39: a factor accepts only variables it can evaluate.  Every constructor of every factor and variable class is analysed on
every combination of variable classes, sizes, indices and vector lengths its signature admits; where the constructor returns,
no evaluation may leave the bounds of a vector or matrix or combine operands of different size."""
import itertools
import algebra as al, interp as I, model as M, factor_checks as FC
from interp import Cell, Vec, Mat, Obj, Unsupported, UB, Throw, PathEnd

MATX = "Eigen::Matrix<double,-1,-1>"
PARTS = 16


def combos(m, cls):
    for f in m.ctors(cls):
        ps = f["params"]
        ptr = [(k, m.ptr_cls(p)) for k, p in enumerate(ps) if p["t"].get("ptr") or m.ptr_cls(p)]
        opts = [sorted(m.var_class_options(c), key=str) or [(None, None)] for k, c in ptr]
        bools = [k for k, p in enumerate(ps) if p["t"].get("bool")]
        ints = [k for k, p in enumerate(ps) if p["t"].get("int") and "id" not in p["name"].lower().split("_") and k != 0]
        dyn = [k for k, p in enumerate(ps) if (I.parse_mat_type(p["t"].get("n", "")) or (0, 0, 0))[:2] == (-1, 1) or p["t"].get("n", "").startswith("Eigen::Ref")]
        for o in itertools.product(*opts):
            for b in itertools.product([False, True], repeat=len(bools)):
                for i in itertools.product([0, 1, 2, -1], repeat=len(ints)):
                    for d in itertools.product([0, -1, 1], repeat=len(dyn)):
                        yield {"ctor": f, "ptr": {k: x for (k, c), x in zip(ptr, o)}, "bool": dict(zip(bools, b)), "int": dict(zip(ints, i)),
                               "dyn": dyn, "dynoff": dict(zip(dyn, d))}


def name(m, cls, cfg):
    s = FC.cfgname(m, cls, cfg)
    ps = cfg["ctor"]["params"]
    t = ["%s %s" % (ps[k]["name"], "one too short" if d < 0 else "one too long") for k, d in cfg["dynoff"].items() if d]
    return s + (" with " + ", ".join(t) if t else "")


def one(m, cls, cfg, acc):
    nm = name(m, cls, cfg)
    f = cfg["ctor"]
    loc = "%s:%s" % (f["file"], f["line"])

    def run(p):
        al.set_ctx(al.Ctx())
        it = m.interp(p)
        acc.o("C39")
        try:
            fac, vs = m.build(it, cls, cfg)
        except Throw:
            return "refused"
        n = it.to_int(it.method(fac, "residual_size"))
        tv = m.factor_vars(it, fac)
        dims = [it.to_int(it.method(v, "size")) for v in tv]
        what = [("residual", lambda: m.residual_value(it, fac), None), ("residual in place", lambda: m.residual_inplace(it, fac, n), None)]
        what += [("Jacobian", lambda: m.jacobians(it, fac, Vec([], MATX)), dims)]
        for w, fn, d in what:
            acc.o("C39")
            try:
                r = fn()
            except Throw:
                continue
            if d is None:
                if isinstance(r, Mat) and r.size != n:
                    acc.v("C39", "%s %s size" % (M.short(cls), w), "%s is accepted, but its %s has %d entries instead of %d [%s]" % (nm, w, r.size, n, "; ".join(p.log)), loc)
                continue
            if len(r.c) != len(d):
                continue        # C01's business
            for k, (c, want) in enumerate(zip(r.c, d)):
                if isinstance(c.v, Mat) and c.v.size and (c.v.rows, c.v.cols) != (n, want):
                    acc.v("C39", "%s Jacobian block %d" % (M.short(cls), k), "%s is accepted, but block %d of its Jacobian is %dx%d instead of %dx%d [%s]" % (nm, k, c.v.rows, c.v.cols, n, want, "; ".join(p.log)), loc)
        return "accepted"
    seen = set()
    for p, r, err in I.explore(run, 300):
        if isinstance(err, UB):
            acc.v("C39", "%s %s" % (M.short(cls), f["params"][min(cfg["ptr"], default=0)]["name"]), "%s is accepted, but: %s [%s]" % (nm, err, "; ".join(p.log)), str(err.loc))
        elif isinstance(err, (Unsupported, al.TooBig)):
            if str(err) == "path budget" and seen:
                continue        # the traces explored stand for the rest: which operands meet does not depend on their values
            acc.a("C39", nm, str(err))
        elif r:
            seen.add(r)
            acc.i("C39", "%s: %s" % (M.short(cls), r) if r == "refused" else nm)


def part(k):
    def run(m, acc):
        i = 0
        for cls in m.facs:
            for cfg in combos(m, cls):
                if i % PARTS == k:
                    one(m, cls, cfg, acc)
                i += 1
        for cls in m.vars:
            for f in m.ctors(cls):
                dyn = [q for q, p in enumerate(f["params"]) if (I.parse_mat_type(p["t"].get("n", "")) or (0, 0, 0))[:2] == (-1, 1) or p["t"].get("n", "").startswith("Eigen::Ref")]
                for n in range(0, 8) if dyn else (None,):
                    if i % PARTS == k:
                        var(m, cls, f, n, acc)
                    i += 1
    return run


def var(m, cls, f, n, acc):
    nm = "%s(%s)%s" % (M.short(cls), ", ".join(p["name"] for p in f["params"]), "" if n is None else " from %d entries" % n)
    loc = "%s:%s" % (f["file"], f["line"])

    def run(p):
        al.set_ctx(al.Ctx())
        it = m.interp(p)
        acc.o("C39")
        try:
            cells = []
            for q in f["params"]:
                if q["t"].get("int") and "id" in q["name"].lower():
                    cells.append(Cell(1))
                elif n is not None and n == 0 and ((I.parse_mat_type(q["t"].get("n", "")) or (0, 0, 0))[:2] == (-1, 1)):
                    cells.append(Cell(it.newmat(0, 1, [], -1, 1)))
                else:
                    cells.append(Cell(m.arg(it, q, "v", n)))
            o = Obj(cls)
            it.run_ctor(f, o, it.with_defaults(f, cells))
        except Throw:
            return "refused"
        for meth in ("value", "size", "name"):
            it.method(o, meth)
        return "accepted"
    for p, r, err in I.explore(run, 200):
        if isinstance(err, UB):
            acc.v("C39", "%s construction" % M.short(cls), "%s: %s [%s]" % (nm, err, "; ".join(p.log)), str(err.loc))
        elif isinstance(err, (Unsupported, al.TooBig)):
            acc.a("C39", nm, str(err))
        elif r:
            acc.i("C39", "%s: %s" % (nm, r))
