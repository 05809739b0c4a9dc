#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
NOT_APPLICABLE = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    c = CHECKS.get(i)
    if c is None:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check has been built for it yet.")})
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "technique": "symbolic execution of the program's LLVM IR with Z3", "level": "model_checking",
        "level_note": "Within these bounds, every input: %s. Trusted for 'holds': the executor and Z3, and the models of sqlite, zlib and zstd, threads and HashMap's hash (compared with the real libraries on replayed paths); every violation reported was reproduced on the real program." % c["bounds"]})
m["notes"] = "Every run rebuilds the LLVM IR and a native replay program from /repo's working tree. known-findings.txt lists recorded findings and repaired defects."
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
