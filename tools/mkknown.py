"""specs/known_fns.json: names of the functions and constants of the pinned tree, per crate.
vx inlines only helpers whose names are not in this list (run once on the pinned tree)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for d in sorted(glob.glob("/repo/crates/*")):
    c = os.path.basename(d)
    names = set()
    for f in glob.glob(d + "/src/**/*.rs", recursive=True) + glob.glob(f"{V}/build/exp/{c}-*.rs"):
        s = open(f).read()
        names |= set(re.findall(r"\bfn\s+(\w+)", s)) | set(re.findall(r"\bconst\s+(\w+)\s*:", s))
    out[c] = sorted(names)
json.dump(out, open(f"{V}/specs/known_fns.json", "w"), indent=0)
