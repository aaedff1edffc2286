#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of harness modules."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.dont_write_bytecode = True
sys.path.insert(0, R)
from props import REGISTRY, LEVEL_NOTE
NA = {
 "N01": "The guarantee is made by IPOPT (compiled code behind a foreign interface) and by convergence of a floating-point iteration; no symbolic encoding of that code is within reach.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
           "technique": "symbolic execution of the real code + SMT (z3; cvc5 cross-check)", "level": "model_checking",
           "level_note": LEVEL_NOTE.get(REGISTRY[i], "")} for i in ids if i in REGISTRY]
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in REGISTRY]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
