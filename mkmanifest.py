#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and props.py."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, HERE)
from props import PROPS

TECH = {"exploration": "runtime monitoring: generated executions of the real code under ASan+UBSan and release builds, judged by an independent reference-model oracle",
        "fault_enumeration": "runtime monitoring: enumerated and random damage of input files, real readers under ASan+UBSan, oracle = sanitizer reports, abnormal ends, per-case step budget"}
NOTE = ("Held on the executions generated in the run (counts, distinct cases and samples in the evidence file), nothing beyond them. "
        "Trusts the oracle in /verif/harness/%s, the stand-in for ggdatetime in /verif/harness/shim where the module needs it, gcc's sanitizers, and the host's libm.")
ps = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --warm", "checks": [], "not_applicable": []}
for p in ps:
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": q.get("technique", TECH[q["level"]]),
            "level": q["level"],
            "level_note": q.get("note", NOTE % q["harness"]),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "monitor not built yet"})
m["notes"] = "No hooks are added to /repo: every oracle observes the public API, including the printers the repository compiles under its own DEBUG define."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
