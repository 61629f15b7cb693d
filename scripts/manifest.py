#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the list of registered rules."""
import json, re, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
reg = set()
for f in glob.glob(here + "/tool/*.go"):
    reg |= set(re.findall(r'register\("(C\d\d)"', open(f).read()))
notes = json.load(open(here + "/scripts/notes.json"))
base = ("Static: decided from the source on every run, over all paths of every entry point (main, each command, "
        "each GUI layout and key handler); loops by fixpoint, values as symbolic provenance terms, path guards as BDDs. "
        "Trusts the Go type checker and go/ssa, and the models of the standard library and third-party calls in tool/models.go and tool/hooks.go. ")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg:
        n = notes.get(i, {})
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": n.get("technique", "static value-flow analysis"), "level": "other",
                       "level_note": base + n.get("note", "")})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not")
