#!/usr/bin/env python3
"""Writes the evidence of C18 or C19 when their harness no longer compiles."""
import json, os, re, sys
prop = sys.argv[2] if len(sys.argv) > 2 else "C18"
text = open(sys.argv[1]).read()
errors = re.findall(r"^error.*\n(?:.*\n){1,4}?\s*-->.*", text, re.M)[:6] or [text[:1500]]
n = len(re.findall(r"^error", text, re.M))
json.dump({"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "exploration",
           "coverage": {"evaluations": n, "distinct_nontrivial": n, "rule": {"C18": "macro calls compiled; those listed are refused by the compiler", "C19": "components handed to threads by reference; the compiler refuses to share them"}[prop], "samples": errors},
           "assumptions": ["the same code compiles on the pinned tree, and the rest of the harness compiles against this one"], "violations": n, "wall_s": 0.0},
          open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + f"/evidence/{prop}.json", "w"), indent=1)
