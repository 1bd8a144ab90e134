"""Writes DESIGN.md: the hand-written parts (design_head.md, design_notes.json, design_tail.md) with bounds, assumptions and costs taken from the checks and
the last evidence files, and the list of planted bugs."""
import ast, glob, importlib, json, os, sys
if not sys.executable.startswith("/opt/venv"):
    os.environ["PYTHONPATH"] = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True



def value(path, name):
    return getattr(importlib.import_module(os.path.basename(path)[:-3]), name)


notes = json.load(open(os.path.join(T, "design_notes.json")))
NA = json.load(open(os.path.join(T, "not_applicable.json")))
out = [open(os.path.join(T, "design_head.md")).read().rstrip(), ""]
for p in map(json.loads, open(os.path.join(V, "properties.jsonl"))):
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    f = glob.glob(os.path.join(V, "checks", i + "_*.py"))
    if i in NA or not f:
        out += ["**Not applicable.** " + NA.get(i, "no check built yet"), ""]
        continue
    c = {}
    for n in ast.parse(open(f[0]).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
            c[n.targets[0].id] = value(f[0], n.targets[0].id)
    out += ["*How it is decided.* " + notes.get(i, ""), "", "*Bounds (quick).* " + c.get("BOUNDS", ""), ""]
    if c.get("ASSUMPTIONS"):
        out += ["*Assumptions.* " + "; ".join(c["ASSUMPTIONS"]) + ".", ""]
seeds = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} |")
tail = open(os.path.join(T, "design_tail.md")).read()
known = open(os.path.join(V, "KNOWN_FINDINGS")).read().splitlines()
tail = tail.replace("@SEEDS@", "\n".join(seeds)).replace("@FIXES@", "\n".join("* `" + k.split(" ")[2] + "` (" + k.split(" ")[1].split("=")[1] + ") " + " ".join(k.split(" ")[3:]) for k in known if k.startswith("fixed:")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n" + tail)
