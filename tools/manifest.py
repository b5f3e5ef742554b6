#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the properties the harness implements."""
import json, os, subprocess, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
have = set(sys.argv[1:]) or set(subprocess.check_output([root + "/target/mc/mc", "list"], text=True).split())
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
TECH = {
 "C09": "exhaustive enumeration of input files x hash seeds x repetitions/concurrent parses on the real code, all observations compared",
 "C08": "exhaustive enumeration of include graphs, spellings, glob patterns and file faults on the real code against a reference model of include semantics",
}
NOTE = ("Bounded model checking of the real library: every element of the stated finite spaces is executed through the public API and "
        "compared with an executable reference model (or, for relations between executions, with each other); nothing is sampled. "
        "Assurance is complete within the bounds printed in the evidence file and none beyond; trusted: the reference model in mc/src/refm.rs, rust_decimal, the compiler.")
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, "exhaustive enumeration of bounded inputs/histories on the real code against a reference model"),
            "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
