#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
abstract = {"S01": "SolverMC", "S02": "SolverMC", "S03": "SolverMC", "S04": "SolverMC and Provenance", "S05": "SolverMC", "S06": "SolverMC", "C02": "Calculator",
            "H01": "Calculator and Provenance", "H03": "Calculator and Provenance", "C04": "Provenance", "E05": "Provenance", "F01": "Provenance", "H02": "Concurrent and Sharing", "E01": "Reference", "E02": "Reference", "E03": "Reference", "E04": "Reference", "E08": "Reference", "F02": "HandlesMC and Lives"}
checks = []
for p in props:
    i = p["id"]
    a = abstract.get(i)
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"./check {i} --thorough",
        "technique": "TLA+ specification, TLC trace validation of executions generated from it"
                     + (f"; exhaustive TLC check of {a}" if a and a != "Reference" else "; the specification itself checked against published facts (Reference)" if a else ""),
        "level": "model_checking",
        "level_note": ("Every recorded operation of the generated scenarios is judged by TLC against the TLA+ contract (P_%s); the inputs are "
                       "a seeded, structured sample, not all doubles." % i if i != "F02" else
                       "Every recorded operation of a C client on the shared library is judged by TLC against the handle rules.")
                      + (f" The abstract state machine ({a}) is checked exhaustively within its bounds." if a and a != "Reference" else " Module Reference checks the equations of the specification against published reference values and tabulated facts." if a else "")
                      + " Trusted: TLC with the Java overrides for double arithmetic, the recording harness, rustc.",
    })
json.dump({"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: everything judged is public. Repairs of genuine defects are listed in known_findings.txt."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
