#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from comps import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Traces of the real code (rebuilt from /repo, with std atomics, locks, threads and clocks replaced by a controlled runtime that explores "
        "schedules, spurious failures and happens-before) are each decided by TLC against the TLA+ specification {s}, which is itself model checked "
        "exhaustively within small constants. Assurance is for the executions explored; trusted: the runtime, the harness, TLC.")
checks = []
for p in ids:
    if p not in PROPS: continue
    sp = ", ".join(sorted({w["spec"] + ".tla" for w in PROPS[p]["worlds"]}))
    checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p, evidence_file="evidence/%s.json" % p,
                       technique="TLA+ specification (%s) checked with TLC; TLC trace validation of controlled executions of the real code; programs generated from the specification" % sp,
                       level="model_checking", level_note=PROPS[p].get("note", NOTE).replace("{s}", sp)))
m = dict(version=1, setup_cmd="python3 setup.py", hooks=dict(guard="VX_NONE", enable="no hooks: the checks build a rewritten copy of /repo's sources (std:: primitives replaced by vx:: ones)", source_commits=[]),
         checks=checks, not_applicable=[dict(property=p, reason="check not built yet") for p in ids if p not in PROPS])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
