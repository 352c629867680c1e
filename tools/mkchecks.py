#!/usr/bin/env python3
"""Writes checks.json (the jobs of every check) and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}
NA = {}
TECH = "symbolic execution of the Go SSA form of the real code (gosym) with z3: path conditions, assertions and coverage certificates decided by the solver; counterexamples replayed natively"


def J(func, name, thorough=False, sp=None, maps=False, race=False, **p):
    j = {"fn": func, "name": name, "params": p}
    if maps:
        j["map_order"] = True
    if race:
        j["race"] = True
    if sp:
        j["sparams"] = sp
    if thorough:
        j["thorough"] = True
    return j


def check(id, bounds, jobs, assumptions=(), note="", **kw):
    names = [j["fn"] + "/" + j["name"] for j in jobs]
    assert len(set(names)) == len(names), (id, [n for n in names if names.count(n) > 1])
    C[id] = dict(jobs=jobs, bounds=bounds, assumptions=list(assumptions), **kw)
    C[id]["note"] = note


exec(open(os.path.join(V, "tools", "jobs.py")).read())

notes = {k: v.pop("note") for k, v in C.items()}
json.dump(C, open(os.path.join(V, "checks.json"), "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
M = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"bash /verif/check.sh {i} quick",
            "thorough_cmd": f"bash /verif/check.sh {i} thorough",
            "technique": TECH,
            "level": "model_checking",
            "level_note": (notes[i] + " " if notes[i] else "") + "Bounds: " + C[i]["bounds"],
        }
        for i in ids if i in C
    ],
    "not_applicable": [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in C],
}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(M["checks"]), "checks,", len(M["not_applicable"]), "not applicable")
