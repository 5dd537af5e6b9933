"""Runs the extractor over every translation unit of /repo's working tree and merges the facts."""
import hashlib, json, os, subprocess, sys, glob, tempfile, concurrent.futures as cf, sysconfig, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FACTORAMA_REPO", "/repo")
SRC = os.path.join(REPO, "src", "factorama")
PYD = os.path.join(REPO, "python_bindings", "python")
BUILD = os.path.join(VERIF, "build")


class AnalysisBroken(Exception):
    """The analysis itself cannot run (missing anchors, tool failure): an error exit, never a verdict."""


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _flags():
    return ["-std=c++17", "-DNDEBUG", "-fPIC", "-O2", "-Wno-everything", "-I" + os.path.join(REPO, "src"), "-I" + SRC,
            "-isystem", "/usr/include/eigen3", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]


def _py_flags():
    inc = sysconfig.get_paths()["include"]
    for c in ("/usr/include/python3.12", inc):
        if os.path.exists(os.path.join(c, "Python.h")):
            inc = c
            break
    pb = []
    for c in ("/usr/include/pybind11", "/usr/local/include/pybind11"):
        if os.path.isdir(c):
            pb = ["-isystem", os.path.dirname(c)] if os.path.dirname(c) != "/usr/include" else []
    return ["-isystem", inc] + pb + ["-I" + PYD, "-D_factorama_EXPORTS"]


def build_tool():
    r = subprocess.run(["bash", os.path.join(VERIF, "analyzer", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("extractor does not build:\n" + r.stdout + r.stderr)
    return os.path.join(BUILD, "extract")


def _units():
    cpps = sorted(glob.glob(os.path.join(SRC, "**", "*.cpp"), recursive=True))
    hpps = sorted(glob.glob(os.path.join(SRC, "**", "*.hpp"), recursive=True) + glob.glob(os.path.join(SRC, "**", "*.h"), recursive=True))
    if not cpps or not hpps:
        raise AnalysisBroken("no sources below " + SRC)
    return cpps, hpps


class Facts:
    def __init__(self):
        self.fn = {}        # id -> function
        self.rec = {}       # qualified name -> record
        self.enums = {}     # qualified name -> enum
        self.globals = {}   # q -> global
        self.units = []
        self.by_q = {}
        self.pyfn = {}

    def merge(self, d, unit, py=False):
        for f in d["functions"]:
            f["unit"] = unit
            old = self.fn.get(f["id"])
            if old is None or ("body" not in old and "body" in f):
                self.fn[f["id"]] = f
        for r in d["records"]:
            self.rec.setdefault(r["q"], r)
        for e in d["enums"]:
            self.enums.setdefault(e["q"], e)
        for g in d["globals"]:
            self.globals.setdefault((g["q"], g["file"], g["line"]), g)
        self.units.append(unit)

    def finish(self):
        self.by_q = {}
        for f in self.fn.values():
            self.by_q.setdefault(f["q"], []).append(f)
        self.derived = {}
        for q, r in self.rec.items():
            for b in r["bases"]:
                self.derived.setdefault(b, []).append(q)

    def strings(self):
        """constant arrays of strings: qualified name -> elements (None where null)"""
        if getattr(self, "_strs", None) is None:
            self._strs = {g["q"]: g["strs"] for g in self.globals.values() if "strs" in g}
        return self._strs

    def subclasses(self, base):
        out, todo = [], [base]
        while todo:
            b = todo.pop()
            for d in sorted(self.derived.get(b, [])):
                if d not in out:
                    out.append(d)
                    todo.append(d)
        return sorted(out)

    def bases(self, q):
        out = [q]
        i = 0
        while i < len(out):
            r = self.rec.get(out[i])
            if r:
                out += [b for b in r["bases"] if b not in out]
            i += 1
        return out

    def methods(self, q, name=None, inherited=True):
        """function facts of the methods of record q (with bodies where known)"""
        out = []
        for c in (self.bases(q) if inherited else [q]):
            r = self.rec.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if name is None or m["name"] == name:
                    f = self.fn.get(m["id"])
                    out.append(f if f else dict(m, rec=c, params=m["params"]))
        return out

    def resolve_virtual(self, dyn, callee):
        """final overrider of method `callee` (a fact) for dynamic class dyn"""
        name = callee["name"]
        want = [self._pk(p["t"]) for p in callee.get("params", [])]
        for c in self.bases(dyn):
            r = self.rec.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["name"] == name and [self._pk(p["t"]) for p in m["params"]] == want and bool(m["const"]) == bool(callee.get("const")):
                    if m["pure"]:
                        continue
                    f = self.fn.get(m["id"])
                    if f is not None:
                        return f
        return None

    @staticmethod
    def _pk(t):
        return (t.get("n"), t.get("ref", 0), t.get("ptr", 0))


_cache = {}


def load(with_python=True, quiet=True):
    key = (REPO, with_python)
    if key in _cache:
        return _cache[key]
    tool = build_tool()
    cpps, hpps = _units()
    h = hashlib.sha256()
    h.update(_read(os.path.join(VERIF, "analyzer", "extract.cpp")))
    for p in hpps:
        h.update(p.encode() + b"\0" + _read(p))
    hdr = h.hexdigest()
    os.makedirs(os.path.join(BUILD, "facts"), exist_ok=True)
    umb = os.path.join(BUILD, "umbrella_%s.cpp" % hashlib.sha256((hdr + REPO).encode()).hexdigest()[:16])
    txt = "".join('#include "%s"\n' % p for p in hpps)
    if not os.path.exists(umb) or open(umb).read() != txt:
        tmp = umb + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(txt)
        os.replace(tmp, umb)
    jobs = []
    for p in cpps:
        jobs.append((p, SRC, _flags()))
    jobs.append((umb, SRC, _flags()))
    binding = os.path.join(PYD, "factorama", "_factorama.cpp")
    if with_python:
        if not os.path.exists(binding):
            raise AnalysisBroken("binding source is missing: " + binding)
        jobs.append((binding, os.path.join(PYD, "factorama"), _flags() + _py_flags()))
    jobs.sort(key=lambda j: -len(_read(j[0])))

    def run(job):
        p, root, fl = job
        k = hashlib.sha256((hdr + p + root + repr(fl)).encode() + _read(p)).hexdigest()[:24]
        out = os.path.join(BUILD, "facts", k + ".json")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run([tool, tmp, root, p, "--"] + fl, capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(tmp):
                raise AnalysisBroken("cannot analyse %s:\n%s" % (p, (r.stdout + r.stderr)[-3000:]))
            os.replace(tmp, out)
        with open(out) as f:
            return p, json.load(f)

    F = Facts()
    with cf.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        res = list(ex.map(run, jobs))
    # .cpp units first in a fixed order
    for p, d in sorted(res, key=lambda x: x[0]):
        F.merge(d, p)
    F.finish()
    _cache[key] = F
    return F


def prune_cache(keep=400):
    d = os.path.join(BUILD, "facts")
    if not os.path.isdir(d):
        return
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    for f in fs[:-keep]:
        os.unlink(f)


if __name__ == "__main__":
    import time
    t = time.time()
    F = load()
    print(len(F.units), "units", len(F.fn), "functions", len(F.rec), "records", "%.1fs" % (time.time() - t))
    print("Variables", F.subclasses("factorama::Variable"))
    print("Factors", F.subclasses("factorama::Factor"))
