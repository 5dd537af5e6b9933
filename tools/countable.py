"""Which planted bugs change lines of the original repository (others would not count)."""
import os, re, subprocess, sys, tempfile
BASE = "90ac763"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def git(*a, cwd="/repo"):
    return subprocess.run(["git", "-C", cwd] + list(a), capture_output=True, text=True).stdout
def added(path):
    out = set()
    for l in git("diff", "-U0", BASE, "HEAD", "--", path).splitlines():
        m = re.match(r"@@ -\S+ \+(\d+)(?:,(\d+))? @@", l)
        if m:
            a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
            out |= set(range(a, a + n))
    return out
t = tempfile.mkdtemp(prefix="cnt-")
subprocess.run(["git", "clone", "-q", "/repo", t])
for b in sorted(os.listdir(V + "/seeded")):
    r = subprocess.run(["git", "-C", t, "apply", "%s/seeded/%s/patch.diff" % (V, b)], capture_output=True, text=True)
    if r.returncode:
        print(b, "does not apply", r.stderr[:100]); continue
    ok, path = False, None
    for l in git("diff", "-U0", "HEAD", cwd=t).splitlines():
        if l.startswith("--- a/"):
            path = l[6:]
            ad = added(path)
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
            old = [x not in ad for x in (range(a, a + n) if n else (a, a + 1)) if x >= 1]
            ok |= any(old) if n else all(old)
    if not ok:
        print(b, "only changes lines our own commits added")
    git("checkout", "-q", "--", ".", cwd=t)
subprocess.run(["rm", "-rf", t])
