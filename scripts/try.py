#!/usr/bin/env python3
"""try.py FILE...: runs the analyser (/tmp/vt) on variants of /repo.
ref(id, edits): a behaviour-preserving rewrite; every check has to stay quiet.
mut(id, property, edits): a behaviour change; the property's check has to report it.
An edit is (file, old, new) or (file, regex, new, "re"); ONLY=id,... and CHECKS=C09,... restrict the run."""
import sys, os, re, subprocess, shutil, tempfile, concurrent.futures as cf
jobs = []
def ref(id, edits): jobs.append((id, None, edits))
def mut(id, prop, edits): jobs.append((id, prop, edits))
def run(j):
    id, prop, edits = j
    t = tempfile.mkdtemp(prefix="try.")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C " + t, shell=True)
        for e in edits:
            p = t + "/" + e[0]
            s = open(p).read()
            if len(e) == 4:
                n = len(re.findall(e[1], s, re.S)); s2 = re.sub(e[1], e[2], s, flags=re.S)
            else:
                n = s.count(e[1]); s2 = s.replace(e[1], e[2])
            if n != 1 and not (len(e) == 4 and n > 0): return id, prop, "EDIT? %s matches %d: %r" % (e[0], n, e[1][:60])
            open(p, "w").write(s2)
            if p.endswith(".go") and shutil.which("goimports"): subprocess.run(["goimports", "-w", p], stderr=subprocess.DEVNULL)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
        for m in ("1pass-core", "1pass-parse", "1pass-up", "1pass-term", "1pass-app"):
            b = subprocess.run("go build ./...", shell=True, cwd=t + "/" + m, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if b.returncode: return id, prop, "BUILD " + b.stdout[:600]
        tests = ""
        if os.environ.get("TESTS", "1") == "1":
            for m in ("1pass-core", "1pass-parse", "1pass-app"):
                b = subprocess.run("go test ./... 2>&1 | grep -E '^(--- FAIL|FAIL)'", shell=True, cwd=t + "/" + m, env=env, stdout=subprocess.PIPE, text=True)
                tests += b.stdout
        v = tempfile.mkdtemp(prefix="tv.")
        env.update(VERIF_REPO=t, VERIF_DIR=v)
        out = ""
        for c in os.environ.get("CHECKS", "all").split(","):
            out += subprocess.run(["timeout", "600", "/tmp/vt", "check", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace").stdout
        shutil.rmtree(v)
        return id, prop, out, tests
    finally:
        shutil.rmtree(t)
for f in sys.argv[1:]:
    exec(compile(open(f).read(), f, "exec"))
only = os.environ.get("ONLY")
if only: jobs = [j for j in jobs if j[0] in only.split(",") or any(o.endswith("*") and j[0].startswith(o[:-1]) for o in only.split(","))]
badn = 0
with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for r in ex.map(run, jobs):
        id, prop, out = r[:3]
        tests = r[3] if len(r) > 3 else ""
        caught = re.findall(r"^VIOLATION property=(\S+)", out, re.M)
        good = ("OK property" in out or caught) and (not caught if prop is None else prop in caught)
        if "OK property" not in out and not caught: good = False
        badn += not good
        print("%-4s %-34s %-4s caught=%s%s" % ("ok" if good else "BAD", id, prop or "ref", ",".join(caught), "  TESTS FAIL" if tests else ""))
        if tests and os.environ.get("V"): print(tests)
        if not good or os.environ.get("V"):
            for l in out.splitlines():
                if l.startswith(("FAIL", "EDIT?", "BUILD")) or "panic" in l or "problem" in l: print("      " + l[:400])
            if not caught and "OK property" not in out: print("      " + out[-600:])
        sys.stdout.flush()
print("bad:", badn, "of", len(jobs))
