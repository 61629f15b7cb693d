#!/usr/bin/env python3
"""sweep.py ref|mut [N] [seed]: runs the analyser (/tmp/vt) on generated variants of /repo (tool/cmd/mutgen).
ref: batches of behaviour-preserving rewrites; every check has to stay quiet (a noisy batch is split until single
rewrites remain). mut: N single changes that build and pass the tests; lists those no check reports."""
import sys, os, re, json, random, subprocess, shutil, tempfile, concurrent.futures as cf
mode = sys.argv[1]
N = int(sys.argv[2]) if len(sys.argv) > 2 else 400
random.seed(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
OPS = os.environ.get("OPS"); FILES = os.environ.get("FILES")
J = int(os.environ.get("J", "7"))
env0 = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="0")
subprocess.check_call("cd %s/tool && go build -o /tmp/mutgen ./cmd/mutgen" % os.path.dirname(os.path.dirname(os.path.abspath(__file__))), shell=True, env=env0)
changes = [json.loads(l) for l in subprocess.check_output(["/tmp/mutgen", mode, "/repo"], text=True).splitlines()]
if OPS: changes = [c for c in changes if c["Op"] in OPS.split(",")]
if FILES: changes = [c for c in changes if any(f in c["File"] for f in FILES.split(","))]
def apply(t, batch):
    per = {}
    for c in batch: per.setdefault(c["File"], []).extend((e["Pos"], e["End"], e["New"]) for e in c["Edits"])
    for f, es in per.items():
        b = open("/repo/" + f, "rb").read()
        for p, q, n in sorted(es, reverse=True): b = b[:p] + n.encode() + b[q:]
        open(t + "/" + f, "wb").write(b)
def overlap(a, b):
    if a["File"] != b["File"]: return False
    lo = lambda c: min(e["Pos"] for e in c["Edits"]); hi = lambda c: max(e["End"] for e in c["Edits"])
    return lo(a) <= hi(b) and lo(b) <= hi(a)
def check(t):
    v = tempfile.mkdtemp(prefix="tv.")
    try:
        return subprocess.run(["timeout", "600", os.environ.get("VT", "/tmp/vt"), "check", "all"], env=dict(env0, VERIF_REPO=t, VERIF_DIR=v), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace").stdout
    finally: shutil.rmtree(v)
def copy():
    t = tempfile.mkdtemp(prefix="try.")
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C " + t, shell=True)
    return t
def builds(t, batch):
    for m in sorted({c["File"].split("/")[0] for c in batch} | {"1pass-app"}):
        if subprocess.run("go build ./...", shell=True, cwd=t + "/" + m, env=env0, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return False
    return True
def runref(batch):
    t = copy()
    try:
        apply(t, batch)
        if not builds(t, batch):
            if len(batch) == 1: return []
            return runref([c for c in batch if alone(c)])
        out = check(t)
    finally: shutil.rmtree(t)
    if "OK property" in out and "VIOLATION" not in out and "problems" not in out.split("OK property")[0]: return []
    if "type-check" in out or "LOAD" in out:
        if len(batch) == 1: return [(batch[0], "BUILD " + out[-300:])]
    elif len(batch) == 1:
        return [(batch[0], ",".join(re.findall(r"^VIOLATION property=(\S+)", out, re.M)) + "\n" + "\n".join("      " + l[:330] for l in out.splitlines() if l.startswith("FAIL"))[:1500] or out[-400:])]
    k = max(1, len(batch) // 4)
    r = []
    for i in range(0, len(batch), k): r += runref(batch[i:i + k])
    return r
def alone(c):
    t = copy()
    try:
        apply(t, [c])
        return builds(t, [c])
    finally: shutil.rmtree(t)
def runmut(c):
    t = copy()
    try:
        apply(t, [c])
        mod = c["File"].split("/")[0]
        for m in ("1pass-core", "1pass-parse", "1pass-up", "1pass-term", "1pass-app"):
            if subprocess.run("go build ./...", shell=True, cwd=t + "/" + m, env=env0, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return c, "build"
        base = json.load(open("/opt/vp/BASELINE.json"))
        for m in ("1pass-core", "1pass-parse", "1pass-app"):
            b = subprocess.run("go test -vet=off -count=1 -p 1 ./... 2>&1 | grep -E '^(--- FAIL|panic)'", shell=True, cwd=t + "/" + m, env=env0, stdout=subprocess.PIPE, text=True)
            if b.stdout: return c, "tests"
        out = check(t)
        ids = re.findall(r"^VIOLATION property=(\S+)", out, re.M)
        if "OK property" not in out and not ids: return c, "ERR " + out[-300:]
        return c, ",".join(ids) or "SURVIVED"
    finally: shutil.rmtree(t)
def show(c):
    b = open("/repo/" + c["File"], "rb").read()
    return " | ".join("%s => %s" % (b[e["Pos"]:e["End"]].decode()[:70].replace("\n", " "), e["New"][:70].replace("\n", " ")) for e in c["Edits"])
with cf.ThreadPoolExecutor(J) as ex:
    if mode == "ref":
        random.shuffle(changes)
        batches = []
        B = int(os.environ.get("B", "25"))
        for c in changes:
            for b in batches:
                if len(b) < B and not any(overlap(c, d) for d in b): b.append(c); break
            else: batches.append([c])
        batches = batches[:N]
        print(len(changes), "rewrites,", len(batches), "batches"); sys.stdout.flush()
        n = 0
        for rs in ex.map(runref, batches):
            for c, why in rs:
                n += 1
                print("NOISY", c["ID"], c["File"], show(c)); print("     ", why); sys.stdout.flush()
        print("noisy:", n)
    else:
        random.shuffle(changes)
        cnt = {}
        for c, r in ex.map(runmut, changes[:N]):
            k = r if r in ("build", "tests", "SURVIVED") else "ERR" if r.startswith("ERR") else "caught"
            cnt[k] = cnt.get(k, 0) + 1
            if k in ("SURVIVED", "ERR"): print(r[:200], c["ID"], c["File"] + ":" + str(c["Line"]), show(c)); sys.stdout.flush()
        print(cnt)
