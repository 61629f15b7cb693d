#!/usr/bin/env python3
"""plant.py FILE...: builds /verif/seeded/<id>/ from bug specifications.
A specification is a Python file defining bug(id, property, needs, breaks, edits, mod, pkg, package, helpers, test)."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def bug(id, property, needs, breaks, edits, test, mod="1pass-app", pkg="test/core/facade", package="facade", helpers=("vault", "facade"), files=None, demo=None):
    if os.environ.get("ONLY") and id not in os.environ["ONLY"].split(","): return
    d = V + "/seeded/" + id
    t = tempfile.mkdtemp(prefix="plant.")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w", "HEAD"])
    try:
        for f, old, new in edits:
            p = t + "/w/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        for f in sorted({e[0] for e in edits}):
            df = subprocess.check_output(["git", "-C", t + "/w", "diff", "-U0", "--", f], text=True)
            n = 0
            for l in df.splitlines():
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(",")
                    st, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    n += cnt
                    for k in range(st, st + cnt):
                        bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (k, k), "HEAD", "--", f], text=True)
                        if not bl.lstrip("^").startswith("edcd0de"): print("  WARNING: changes a line of our own:", bl.strip())
            if n == 0: print("  WARNING: changes no line of", f)
        diff = subprocess.check_output(["git", "-C", t + "/w", "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
        shutil.rmtree(t)
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    D = V + "/scripts/demo/"
    if demo:
        open(d + "/demo.sh", "w").write(demo)
    else:
        open(d + "/demo.sh", "w").write(open(D + "demo.sh").read().replace("MOD", mod, 1).replace("PKGDIR", pkg) if False else
            open(D + "demo.sh").read().replace("mod=MOD; pkg=PKGDIR", "mod=%s; pkg=%s" % (mod, pkg)).replace("of PKGDIR ", "of %s/%s " % (mod, pkg)))
        for h in helpers:
            open(d + "/%s_test.go" % h, "w").write(open(D + h + "_test.go").read().replace("package PKG", "package " + package))
        open(d + "/demo_test.go", "w").write(test.replace("package PKG", "package " + package))
    for n, c in (files or {}).items():
        open(d + "/" + n, "w").write(c)
    print("planted", id)
if __name__ == "__main__":
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, "exec"))
