"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
IRT = "symbolic execution of the LLVM IR of the real renderer, properties decided per path by z3/cvc5"
PYT = "symbolic execution of the real Python functions on exact symbolic reals, decided per path by z3/cvc5"
NOTE = json.load(open(os.path.join(V, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    f = glob.glob(os.path.join(V, "checks", p["id"] + "_*.py"))
    if f and p["id"] not in NA:
        n = NOTE.get(p["id"], {})
        src = open(f[0]).read()
        tech = n.get("technique") or (IRT if "import render" in src else PYT)
        checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} --tier quick", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json", technique=tech, level="model_checking",
            level_note=n.get("note") or "Every path of the real code over the stated symbolic inputs is explored and each obligation is decided by the solver for all inputs of the path; doubles are modelled as exact reals; bounds in DESIGN.md and in the evidence file; outside the bounds nothing is claimed."))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "No check has been built yet.")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="No hooks are needed in /repo. run.py re-executes itself with /opt/venv/bin/python (numpy, scipy, torch) and the solvers of python3-vt."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
