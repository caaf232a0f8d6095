#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/texts.py and lib/registry.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import texts, registry
V = os.path.dirname(os.path.abspath(__file__))
T = sorted(texts.T, key=lambda t: t["id"])
with open(V + "/properties.jsonl", "w") as f:
    for t in T:
        t = dict(t); t.pop("note"); f.write(json.dumps(t) + "\n")
checks = []
for t in T:
    if t["id"] not in registry.PROPS: continue
    checks.append(dict(property=t["id"], quick_cmd="python3 check.py " + t["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + t["id"],
        evidence_file="evidence/%s.json" % t["id"],
        technique="function contracts and loop invariants on the real C source, discharged function by function with CBMC (SAT/SMT); failures replayed natively",
        level="proof", level_note=t["note"]))
na = [dict(property=p, reason=r) for p, r in getattr(texts, "NA", [])]
m = dict(version=1, setup_cmd="python3 setup.py", hooks=dict(guard="DSTU_VERIFY", enable="goto-cc -DDSTU_VERIFY: each DSTU_LOOP_HEAD(id) in the source becomes the macro DSTU_LOOP_HEAD_<id>, which the proof unit defines as the loop's invariant",
    source_commits=texts.HOOK_COMMITS), checks=checks, not_applicable=na,
    notes="One check per property: check.py <id>. Contracts in proofs/, executable specs in spec/, native replay in native/. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
