#!/usr/bin/env python3
"""Writes MANIFEST.json. CHECKS: property -> (technique, level, note)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"
COMMON = (" Every enumerated case is executed on the real code and compared with an independent list model; "
          "exhaustive within the stated bounds, nothing is said beyond them (assumption: two trees whose slices sit at the same paths react alike).")
CHECKS = {
 "P01": ("explicit-state exploration of all reachable tree shapes, each insertion executed on the real tree and compared with a list model", MC, "All shapes up to a bounded number of slices for node widths 1-3, all insertion points and join patterns, several feature sets and index types." + COMMON),
 "P02": ("explicit-state exploration of all reachable tree shapes with an independent B-tree invariant checker on each state", MC, "Invariant read off cursor paths and slice ranges; the repository's own validate() is run in addition." + COMMON),
 "P03": ("explicit-state exploration; every index of every reachable state looked up on the real tree", MC, "Includes refusals (out of range) with the tree compared before and after." + COMMON),
 "P04": ("explicit-state exploration; all ranges and all front/back step orders enumerated", MC, "All step orders for small ranges, systematic patterns for longer ones." + COMMON),
 "P05": ("explicit-state exploration; all hint paths up to a length and component bound enumerated", MC, "Results with hints are compared with the model." + COMMON),
 "P06": ("explicit-state exploration; every source of cursors compared with the shape derived independently", MC, "Shapes are derived from navigation-free evidence and cross-checked." + COMMON),
 "P07": ("explicit-state exploration with recorded join/split call sequences checked against the protocol automaton", MC, "Log of user callbacks per insertion compared with the sequence the protocol prescribes." + COMMON),
 "P08": ("explicit-state exploration with non-commutative and strict index types", MC, "Heisenberg-group positions and free-monoid positions that refuse any ill-typed arithmetic." + COMMON),
 "P09": ("explicit-state exploration of clone/insert/drop sequences on pairs of trees", MC, "Plain trees." + COMMON),
}
exec(open(os.path.join(HERE, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "manifest_more.py")) else None
NA = globals().get("NA", {})
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
if globals().get("HOOKS"):
    m["hooks"] = HOOKS
for p in props:
    if p in CHECKS:
        t, l, n = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
