#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
CHECKS = importlib.import_module("checks.meta").CHECKS
PY = "/opt/venv/bin/python"
TECH = "deterministic simulation with fault injection: "
NA = {
    "N01": "pure functions of their operands: no schedule, history, fault or environment for the property to depend on; simulating them would be plain differential testing of inputs, another technique",
    "N02": "a pure function of a call signature at class definition: nothing concurrent, timed, stateful or faulty to simulate (typecheck/inference failures during builds are covered under C02)",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    cid = p["id"]
    if cid in CHECKS:
        m = CHECKS[cid]
        checks.append(dict(
            property=cid,
            quick_cmd=f"{PY} run.py check {cid} --tier quick",
            thorough_cmd=f"{PY} run.py check {cid} --tier thorough",
            evidence_file=f"evidence/{cid}.json",
            technique=TECH + m["technique"],
            level=m["level"],
            level_note=m["note"],
        ))
    else:
        na.append(dict(property=cid, reason=NA.get(cid, "check not built yet")))
doc = dict(version=1, setup_cmd=f"{PY} -c \"import magma, hwtypes, pysmt, ast_tools; import sys; sys.path.insert(0, '.'); import checks.meta\"",
           checks=checks, not_applicable=na)
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
