#!/usr/bin/env python3
"""replay.py <replay file>: executes the recorded program and schedule again and validates the trace."""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib")); sys.path.insert(0, HERE)
import vbuild, check
from comps import PROPS
r = json.load(open(sys.argv[1]))
w = [x for x in PROPS[r["property"]]["worlds"] if x["name"] == r["world"]][0]
d = os.path.join(HERE, "build", "replay-run"); os.makedirs(d, exist_ok=True)
b = vbuild.build("replay-run/b", w["harness"], w["sources"], w.get("defines", ()), extra=w.get("extra", ()), ldflags=w.get("ldflags", ()), asan=w.get("asan", True), race=r.get("checked_accesses", False))
pf = os.path.join(d, "p.txt"); open(pf, "w").write(r["program"] + "\n")
os.system("cd %s && ASAN_OPTIONS=detect_leaks=0 %s p.txt o.txt 60 0 %d" % (d, b, r["schedule"]))
for l in open(os.path.join(d, "o.txt")):
    t = json.loads(l); ev = [r["trace"][0]] + t["ev"]
    for e in ev: print(json.dumps(e))
    ok, pos = check.explain(w, os.path.join(d, "cv"), w["spec"], w.get("consts", {"C": "{1,2,3,4,5,6,7,8}"}), ev)
    print("ACCEPTED" if ok else "REJECTED at event %d: %s" % (pos - 1, ev[min(pos - 1, len(ev) - 1)]))
    sys.exit(0 if ok else 1)
