#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/props.py and the lists here."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "vlib"))
import props
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
checks = []
for k, p in props.PROPS.items():
    checks.append({
        "property": k,
        "quick_cmd": f"python3 vlib/check.py {k} quick",
        "thorough_cmd": f"python3 vlib/check.py {k} thorough",
        "technique": p.get("technique", "symbolic execution of the LLVM IR of /repo's code against the interpreter's, decided by Z3"),
        "level": p["level"],
        "level_note": "Holds for every value of the symbolic inputs within the bounds: " + p["bounds"] + ". "
                      + p.get("note", "Trusted: the symbolic executor, Z3, the harness's evaluation of backend IR, revm-interpreter as the oracle; "
                                      "native code generation is outside. Queries that time out and branches left at the time limit are listed in the evidence."),
    })
m = {"version": 1, "setup_cmd": "python3 vlib/build.py engine harness rt evm",
     "hooks": {"guard": props.GUARD[0], "enable": props.GUARD[1], "source_commits": props.GUARD[2]},
     "checks": checks, "not_applicable": NA,
     "notes": "One driver (vlib/check.py), one job list per property (vlib/props.py); see DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
