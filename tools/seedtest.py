#!/usr/bin/env python3
"""seedtest.py [ids...]: confirms the planted changes of /verif/seeded and tells which checks catch them.

Every change is applied to a scratch copy of /repo that a private mount namespace shows as /repo (nothing outside the
copy is touched); the extension is rebuilt, the stable tests and the demonstration are run, then the check of the
property the change breaks (and any other given with --checks).  Development tool only: no check uses it."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = {a.split("=")[0]: a.split("=")[1] if "=" in a else "1" for a in sys.argv[1:] if a.startswith("--")}
ids = args or sorted(os.listdir(V + "/seeded"))


def sh(cmd, log, timeout=1500):
    with open(log, "w") as f:
        try:
            return subprocess.run(["bash", "-c", cmd], stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return "timeout"


def one(b):
    meta = json.load(open(f"{V}/seeded/{b}/meta.json"))
    d = f"/tmp/sb/{b}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/report")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    subprocess.check_call(["cp", "-a", f"{V}/seeded/{b}", d + "/seed"])
    subprocess.check_call(["cp", "-a", V, d + "/verif"])
    ns = f"mount --bind {d}/repo /repo && mount --bind {d}/report /opt/vp/report && mount --bind {d}/verif /verif && "
    run = lambda c, n: sh("unshare -Urm bash -c '" + ns + c + "'", f"{d}/{n}.log")
    out = dict(id=b, prop=meta["property"])
    if "--nodemo" not in opt:
        out["demo0"] = run(f"cd /repo && bash {d}/seed/demo.sh", "demo0")
    out["apply"] = run(f"cd /repo && git apply {d}/seed/patch.diff", "apply")
    if out["apply"] == 0:
        if "--notests" not in opt:
            run(f"bash /opt/vp/test.sh {d}/t.json", "tests")
            out["tests"] = len(json.load(open(f"{d}/t.json"))["passed"]) if os.path.exists(f"{d}/t.json") else None
        else:
            out["build"] = run("bash /opt/vp/build.sh", "build")
        if "--nodemo" not in opt:
            out["demo1"] = run(f"cd /repo && bash {d}/seed/demo.sh", "demo1")
        checks = opt.get("--checks", meta["property"]).split(",") if "--nocheck" not in opt else []
        for c in checks:
            out[c] = run(f"cd /verif && VERIF_TIER=quick VERIF_SEED=1 python3 run.py {c} --tier quick", "check_" + c)
            t = open(f"{d}/check_{c}.log").read()
            out[c] = f"{out[c]} " + ("CAUGHT" if out[c] == 1 and f"VIOLATION property={c}" in t else "MISSED")
    shutil.rmtree(d + "/repo", ignore_errors=True)
    shutil.rmtree(d + "/verif", ignore_errors=True)
    print(json.dumps(out), flush=True)


with ThreadPoolExecutor(int(opt.get("--par", "2"))) as ex:
    list(ex.map(one, ids))
