#!/usr/bin/env python3
"""seed.py DIR: builds /verif/seeded/<id> from a spec directory is not needed; see plant() below.
usage: seed.py verify ID...   (applies the patch in a scratch copy, builds, tests, runs the demo both ways, runs the checks)"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def clean():
    sh("git -C /repo checkout -- .")
def verify(i, checks=True):
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    res = {}
    def demo():
        t = tempfile.mkdtemp(prefix="sd.")
        for f in os.listdir(d):
            if f not in ("patch.diff", "meta.json"):
                shutil.copy(d + "/" + f, t)
        r = sh("bash %s/demo.sh" % t, cwd="/repo")
        shutil.rmtree(t)
        return r
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty repo"
    sh("bash /opt/vp/build.sh")
    r = demo(); res["demo_clean"] = r.returncode
    if r.returncode: print(r.stdout[-3000:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        print(i, "patch does not apply", a.stdout); return
    try:
        b = sh("bash /opt/vp/build.sh"); res["build"] = b.returncode
        if b.returncode: print(b.stdout)
        sh("bash /opt/vp/test.sh /tmp/seed.json")
        base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/seed.json"))
        st = base.get("stable_pass") or base.get("passed") or base.get("stable") or base
        gp = set(got.get("passed", got.get("pass", [])))
        res["tests_lost"] = [x for x in st if x not in gp] if isinstance(st, list) else "?"
        r = demo(); res["demo_bug"] = r.returncode; out = r.stdout
        if checks:
            e = dict(os.environ); e["VERIF_DIR"] = "/tmp/vv"
            c = sh("/tmp/vt check all", env=e)
            res["caught"] = [l.split("property=")[1].split()[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            fl = [l for l in c.stdout.splitlines() if l.startswith("FAIL")]
            res["why"] = [l[:200] for l in fl[:2]]
    finally:
        clean(); sh("bash /opt/vp/build.sh")
    good = res["demo_clean"] == 0 and res["build"] == 0 and res["demo_bug"] != 0 and not res["tests_lost"]
    hit = meta["property"] in res.get("caught", [])
    print("%-28s %s valid=%s own=%s caught=%s" % (i, meta["property"], good, hit, ",".join(res.get("caught", []))))
    if not good: print("   ", res, out[-1500:])
    for w in res.get("why", []): print("     ", w)
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids: verify(i)
