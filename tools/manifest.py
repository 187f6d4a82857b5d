#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "gen"))
import jobs as J
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
}
TECH = "symbolic execution of the crate's LLVM IR with an SMT solver (Z3); counterexamples replayed natively"
NOTE = ("bounded: every input of the generated job templates (bytes replaced by symbolic ones), loops unrolled completely; nothing "
        "outside the templates is claimed")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTE,
        }
        for p in props if p["id"] in J.PROPS
    ],
    "not_applicable": [
        {"property": p["id"], "reason": NA.get(p["id"], "no check yet")} for p in props if p["id"] not in J.PROPS
    ],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
