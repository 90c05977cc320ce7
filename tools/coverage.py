#!/usr/bin/env python3
"""Which functions of the crates no contract names. usage: coverage.py DIR-with-exp_CRATE.rs"""
import glob, json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = sys.argv[1]
have = set()
for m in glob.glob(V + "/build/verus/*/*/map.json"):
    for f in json.load(open(m)):
        have.add(f["path"])
def last(p):
    k, r = p.split(":", 1)
    if k == "impl" and "~for~" in r:
        t, ty = r.split("~for~", 1)
        # drop a module path in front of the trait name
        b = t.split("<")[0].split("::")[-1]
        t = b + t[len(t.split("<")[0]):]
        return f"impl:{t}~for~{ty}"
    return p
have = {last(p) for p in have}
tot = 0
for c in "traits bits ints reals compounds utils static-iter".split():
    l = subprocess.run([V + "/vx/target/release/vx", "--list", f"{d}/exp_{c}.rs"], capture_output=True, text=True).stdout.split("\n")
    l = [x for x in l if x]
    miss = [x for x in l if last(x) not in have]
    tot += len(l)
    print(f"## {c}: {len(l) - len(miss)}/{len(l)}")
    for x in miss:
        if not re.search(r"/(fmt|clone|eq|assert_\w+|hash|default)$", x):
            print("  ", x)
