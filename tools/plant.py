"""Development tool: confirms planted bugs.  plant.py SPEC.py [id ...]
SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=C++ or demo_py=Python source)].
For every bug, in an overlay of /repo (and of /verif) inside a private mount namespace: apply the edit, build, run the stable tests, run the
demonstration on the clean and on the patched tree and the property's check on the patched tree.  A confirmed bug is kept in
/verif/seeded/<id>/ whether or not the check catches it.
plant.py --recheck [id ...] repeats the confirmation of /verif/seeded/<id>/ ; --checks-only only runs the checks."""
import json, os, queue, subprocess, sys, tempfile, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded")
DEMO_CPP = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Run with cwd /repo after the build.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export HOME="$tmp"
g++ -std=c++17 -O1 -w -Isrc -I/usr/include/eigen3 "$here/demo.cpp" _build/libfactorama.a -o "$tmp/demo"
cd "$tmp"
timeout 120 "$tmp/demo"
"""
DEMO_PY = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Run with cwd /repo after the build.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export HOME="$tmp" MPLCONFIGDIR="$tmp" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo/python_bindings/python"
cd "$tmp"
REPO="$repo" timeout 120 /usr/bin/python3 "$here/demo.py"
"""


POOL = queue.Queue()


def ns(up, script, timeout=1500):
    """run script with a copy of /repo mounted on /repo and an overlay on /verif"""
    for d in ("vu", "vw"):
        os.makedirs(os.path.join(up, d), exist_ok=True)
    pre = ("mount --bind %s /repo && mount -t overlay overlay -o lowerdir=/verif,upperdir=%s/vu,workdir=%s/vw /verif || exit 99\n"
           % (open(os.path.join(up, "copy")).read(), up, up))
    try:
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", pre + script], capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def checks(up, pid, tier="quick"):
    rc, out = ns(up, "cd /verif && VERIF_SEED=1 VERIF_TIER=%s python3 checks/run.py %s" % (tier, pid), 1000)
    lines = [l for l in out.splitlines() if l.strip()]
    return rc, "\n".join(l[:400] for l in lines if "VIOLATION" in l or "ERROR" in l or l.startswith("  ") or l.startswith(pid))


def confirm(bid, checks_only=False):
    d = os.path.join(SEED, bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    up = tempfile.mkdtemp(prefix="plant-")
    w = POOL.get()
    open(os.path.join(up, "copy"), "w").write(w)
    msg = []
    ok = True
    try:
        if checks_only:
            rc, out = ns(up, "cd /repo && git apply %s/patch.diff" % d)
            if rc:
                return bid, False, None, "patch does not apply: " + out[-300:]
        else:
            rc, out = ns(up, "cd /repo && bash %s/demo.sh" % d)
            if rc:
                ok = False
                msg.append("demo fails on the clean tree rc=%d: %s" % (rc, out[-600:]))
            base = "/opt/vp/BASELINE.json"
            rc, out = ns(up, "cd /repo && git apply %s/patch.diff && bash /opt/vp/build.sh >%s/b.log 2>&1 || { tail -20 %s/b.log; exit 7; }\n"
                             "bash /opt/vp/test.sh %s/o.json >/dev/null 2>&1\nbash %s/demo.sh" % (d, up, up, up, d))
            if rc == 7:
                return bid, False, None, "build/apply failed: " + out[-1500:]
            try:
                t = json.load(open(up + "/o.json"))
                stable = json.load(open(base))["stable"]
                miss = [s for s in stable if s not in t["passed"]]
            except Exception as ex:
                miss = ["no results %s" % ex]
            if miss:
                ok = False
                msg.append("tests fail: %s" % miss[:4])
            if rc == 0:
                ok = False
                msg.append("demo passes on the patched tree")
            else:
                msg.append("demo(patched) rc=%d %s" % (rc, out.strip()[-200:]))
        rc, out = checks(up, meta["property"])
        caught = rc == 1 and ("VIOLATION property=%s" % meta["property"]) in out
        msg.append("check rc=%d %s" % (rc, out[:900]))
        return bid, ok, caught, "\n    ".join(msg)
    finally:
        subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."])
        POOL.put(w)
        subprocess.run(["unshare", "-Urm", "rm", "-rf", up])
        shutil.rmtree(up, ignore_errors=True)


def write(b):
    d = os.path.join(SEED, b["id"])
    os.makedirs(d, exist_ok=True)
    up = tempfile.mkdtemp(prefix="pw-")
    files = {}
    for f, old, new in b["edits"]:
        p = os.path.join("/repo", f)
        s = files.get(f) or open(p).read()
        if s.count(old) != 1:
            raise SystemExit("%s: %s: old text occurs %d times" % (b["id"], f, s.count(old)))
        files[f] = s.replace(old, new)
    diff = ""
    for f, s in files.items():
        a = os.path.join(up, "n")
        open(a, "w").write(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, os.path.join("/repo", f), a], capture_output=True, text=True)
        diff += "diff --git a/%s b/%s\n" % (f, f) + r.stdout
    shutil.rmtree(up)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if "demo" in b:
        open(os.path.join(d, "demo.cpp"), "w").write(b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_CPP)
    else:
        open(os.path.join(d, "demo.py"), "w").write(b["demo_py"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_PY)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def main():
    a = sys.argv[1:]
    conly = "--checks-only" in a
    re_ = "--recheck" in a or conly
    a = [x for x in a if not x.startswith("--")]
    if re_:
        ids = a or sorted(os.listdir(SEED))
    else:
        g = {}
        exec(open(a[0]).read(), g)
        bugs = [b for b in g["BUGS"] if not a[1:] or b["id"] in a[1:]]
        ids = []
        for b in bugs:
            try:
                write(b)
                ids.append(b["id"])
            except SystemExit as ex:
                print("SPEC", ex, flush=True)
    jobs = int(os.environ.get("JOBS", "3"))
    for k in range(jobs):
        w = os.environ.get("POOL", "/tmp/pw") + "%d" % k
        if not os.path.isdir(w):
            subprocess.run(["cp", "-a", "/repo", w], check=True)
        subprocess.run("git -C %s checkout -q -- . && git -C %s pull -q /repo HEAD" % (w, w), shell=True)
        POOL.put(w)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for bid, ok, caught, msg in ex.map(lambda b: confirm(b, conly), ids):
            print("%s: %s %s\n    %s" % (bid, "confirmed" if ok else "NOT CONFIRMED", "caught" if caught else "MISSED", msg), flush=True)


main()
