#!/usr/bin/env python3
"""Which lines of the library the programs of the checks execute (no verification): tools/cov.py [id...]
Writes build/cov.txt: per file, the lines never executed by any of the checks."""
import sys, os, subprocess, json, glob, re, collections
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from comps import PROPS
ids = sys.argv[1:] or sorted(PROPS)
hit, seen = collections.defaultdict(lambda: collections.defaultdict(int)), {}
for p in ids:
    r = subprocess.run(["python3", os.path.join(HERE, "check.py"), p], env=dict(os.environ, VX_COV="1"), capture_output=True, text=True, cwd=HERE)
    if r.returncode: print(p, r.returncode, r.stdout[-500:], r.stderr[-1500:])
    for b in glob.glob(os.path.join(HERE, "build", p + "-*", "b")):
        for g in glob.glob(os.path.join(b, "*.gcda")):
            o = subprocess.run(["gcov", "-t", "-j", os.path.basename(g)], cwd=b, capture_output=True, text=True).stdout
            for l in o.split("\n"):
                if not l.startswith("{"): continue
                for f in json.loads(l)["files"]:
                    m = re.search(r"/gen/((?:include|src)/.*)", os.path.join(b, f["file"]))
                    if not m: continue
                    for ln in f["lines"]: hit[m.group(1)][ln["line_number"]] += ln["count"]
with open(os.path.join(HERE, "build", "cov.txt"), "w") as fh:
    for f in sorted(hit):
        tot, miss = len(hit[f]), sorted(l for l, c in hit[f].items() if not c)
        fh.write("%s: %d of %d lines\n" % (f, tot - len(miss), tot))
        src = open(os.path.join(os.environ.get("VX_REPO", "/repo"), f)).read().split("\n")
        for l in miss: fh.write("   %4d %s\n" % (l, src[l - 1][:150] if l <= len(src) else ""))
