"""Runs a check: distributes its scenarios over processes, applies the known-findings list, writes evidence."""
import importlib
import json
import pickle
import signal
import os
import struct
import sys
import tempfile
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
for p in (HERE, os.path.join(VERIF, "checks")):
    if p not in sys.path:
        sys.path.insert(0, p)

DEADLINE_S = {"quick": 780, "thorough": 5400}


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, Fraction):
        return float(x)
    if hasattr(x, "tolist"):
        return jsonable(x.tolist())
    return repr(x)


class Job:
    """what a scenario reports"""

    def __init__(self, pid, name, tier, known, deadline):
        from paths import Stats
        self.pid, self.name, self.tier = pid, name, tier
        self.known = known
        self.deadline = deadline
        self.stats = Stats()
        self.violations = []      # confirmed on the real code, not listed
        self.found_known = {}
        self.unconfirmed = []
        self.samples = []
        self.functions = set()
        self.incomplete = []

    def explorer(self, names, pre=None, **kw):
        import paths
        kw.setdefault("stats", self.stats)
        kw.setdefault("deadline", self.deadline)
        e = paths.Explorer(names, pre, **kw)
        return e

    def explore(self, names, fn, check, pre=None, on_cut=None, **kw):
        e = self.explorer(names, pre, **kw)
        r = e.run(fn, check, on_cut)
        if r is False:
            self.incomplete.append(self.name)
        if not self.stats.get("obligations") and check is not None:
            self.incomplete.append(self.name + " (no obligation reached)")
        return e

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(jsonable(s))

    def trace(self, agrees):
        self.stats.add("traces_replayed")
        self.stats.add("traces_agree" if agrees else "traces_disagree_at_boundary_points")

    def violation(self, key, what, data, confirmed):
        """returns a true value when exploration of the scenario should stop"""
        v = {"key": key, "what": what, "job": self.name, "data": jsonable(data)}
        if key in self.known:
            self.found_known[key] = v
            return None
        if confirmed:
            self.violations.append(v)
            return True
        self.unconfirmed.append(v)
        return True if len(self.unconfirmed) > 3 else None


def load_known(pid):
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=C07 key=<key> :: text
                head, text = line[len("finding:"):].split("::", 1)
                kv = dict(t.split("=", 1) for t in head.split())
                if kv["property"] == pid:
                    out[kv["key"]] = text.strip()
    return out


def _work(a):
    pid, mod, name, params, tier, known, deadline = a
    t = time.time()
    j = Job(pid, name, tier, known, deadline)
    err = None
    try:
        sys.setrecursionlimit(20000)
        m = importlib.import_module(mod)
        m.run_job(j, **params)
        if not j.stats.get("obligations") and not j.violations and not j.unconfirmed and not j.found_known and not j.incomplete:
            err = f"vacuous: no obligation was reached (paths that ended early: {j.stats.get('cut_reasons')})"
    except Exception:
        err = traceback.format_exc()
    try:
        import irexec
        for p in irexec._prog.values():
            j.functions |= p.used
    except Exception:
        pass
    return dict(name=name, stats=dict(j.stats), violations=j.violations, known=j.found_known, unconfirmed=j.unconfirmed,
                samples=j.samples, functions=sorted(j.functions), incomplete=j.incomplete, error=err, wall=time.time() - t)


GRACE_S = 40        # after the deadline the explorers stop by themselves; a process still running then is ended and its job reported as incomplete


def run_forked(jobs, nproc, hard, done, tasks):
    """worker processes forked from a parent without threads (so that a fork is always safe); each takes job numbers from a
    shared pipe, writes its results to files and ends after `tasks` jobs"""
    sys.stdout.flush()
    sys.stderr.flush()
    rd, wr = os.pipe()
    os.write(wr, b"".join(struct.pack("i", i) for i in range(len(jobs))))
    os.close(wr)
    with tempfile.TemporaryDirectory(prefix="vf_jobs") as tmp:
        def worker():
            code = 1
            try:
                for _ in range(tasks):
                    q = os.read(rd, 4)
                    if len(q) < 4:
                        break
                    i = struct.unpack("i", q)[0]
                    open(os.path.join(tmp, f"{i}.pid{os.getpid()}"), "w").close()
                    r = _work(jobs[i])
                    with open(os.path.join(tmp, f"{i}.tmp"), "wb") as f:
                        pickle.dump(r, f)
                    os.rename(os.path.join(tmp, f"{i}.tmp"), os.path.join(tmp, f"{i}.pkl"))
                sys.stdout.flush()
                sys.stderr.flush()
                code = 0
            finally:
                os._exit(code)
        running, left, status_of = set(), set(range(len(jobs))), {}

        def collect():
            for f in os.listdir(tmp):
                if f.endswith(".pkl"):
                    with open(os.path.join(tmp, f), "rb") as h:
                        r = pickle.load(h)
                    os.unlink(os.path.join(tmp, f))
                    left.discard(int(f[:-4]))
                    done(r)
        while True:
            started = {int(f.split(".")[0]) for f in os.listdir(tmp) if ".pid" in f}
            while len(running) < nproc and len(started) < len(jobs) and time.time() < hard:
                pid = os.fork()
                if pid == 0:
                    worker()
                running.add(pid)
                started.add(-pid)
            if not running:
                break
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.time() > hard:
                    for p in running:
                        os.kill(p, signal.SIGKILL)
                time.sleep(0.02)
            elif pid in running:
                running.discard(pid)
                if status:
                    status_of[pid] = status
            collect()
        collect()
        late = time.time() > hard
        for i in sorted(left):
            st = [s for p, s in status_of.items() if os.path.exists(os.path.join(tmp, f"{i}.pid{p}"))]
            done(dict(name=jobs[i][2], stats={}, violations=[], known={}, unconfirmed=[], samples=[], functions=[], incomplete=[jobs[i][2]] if late else [],
                      error=None if late else f"the process of scenario {jobs[i][2]} ended with status {st}", wall=0))
    os.close(rd)


def run_check(pid, mod, tier):
    t0 = time.time()
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    m = importlib.import_module(mod)
    known = load_known(pid)
    deadline = t0 + float(os.environ.get("VF_DEADLINE", DEADLINE_S[tier]))
    if hasattr(m, "prepare"):
        m.prepare(tier)
    jobs = [(pid, mod, n, p, tier, known, deadline) for n, p in m.jobs(tier)]
    only = os.environ.get("VF_JOB")
    if only:
        jobs = [j for j in jobs if only in j[2]]
    nproc = min(len(jobs), int(os.environ.get("VF_PROCS", os.cpu_count() or 1)))
    results = []

    def done(r):
        results.append(r)
        if os.environ.get("VF_VERBOSE"):
            print(f"  {r['name']}: {r['wall']:.1f}s paths={r['stats'].get('paths')} obl={r['stats'].get('obligations')} "
                  f"cuts={r['stats'].get('cut_reasons')} viol={len(r['violations'])} unconf={len(r['unconfirmed'])} {'ERROR' if r['error'] else ''}", flush=True)
    if nproc <= 1:
        for a in jobs:
            done(_work(a))
    else:
        run_forked(jobs, nproc, deadline + GRACE_S, done, getattr(m, "MAXTASKS", 4))
    return finish(pid, m, tier, results, known, t0)


def finish(pid, m, tier, results, known, t0):
    from paths import Stats
    st = Stats()
    viol, unconf, errs, incomplete, samples, funcs, fk = [], [], [], [], [], set(), {}
    for r in sorted(results, key=lambda r: r["name"]):
        st.merge(r["stats"])
        viol += r["violations"]
        unconf += r["unconfirmed"]
        incomplete += r["incomplete"]
        fk.update(r["known"])
        funcs |= set(r["functions"])
        for s in r["samples"]:
            samples.append({"scenario": r["name"], **(s if isinstance(s, dict) else {"case": s})})
        if r["error"]:
            errs.append(f"{r['name']}: {r['error']}")
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev_dir, "replays"), exist_ok=True)
    replay = None
    if viol:
        replay = os.path.join(ev_dir, "replays", f"{pid}.json")
        with open(replay, "w") as f:
            json.dump({"property": pid, "tier": tier, "violations": viol[:10]}, f, indent=1)
    cov = dict(
        states=int(st.get("paths", 0)), transitions=int(st.get("queries", 0)),
        traces_validated_against_impl=int(st.get("traces_agree", 0)), samples=samples[:8] or [{"note": "none"}],
        scenarios=len(results), obligations=int(st.get("obligations", 0)), discharged=int(st.get("discharged", 0)),
        solver="z3 (linear: simplex; non-linear: nlsat), cvc5 as second solver on unknown",
        solver_seconds=round(st.get("solver_s", 0), 2), counters={k: v for k, v in st.items()},
        functions_encoded=[f for f in sorted(funcs) if "vector" not in f and "allocator" not in f][:80] + list(getattr(m, "FUNCTIONS", [])),
        bounds=getattr(m, "BOUNDS", ""), incomplete=incomplete, inconclusive_obligations=int(st.get("inconclusive", 0)),
        inconclusive_branches=int(st.get("inconclusive_branches", 0) + st.get("irrational_branches", 0)),
        exhaustive=not incomplete and not st.get("inconclusive") and not st.get("inconclusive_branches") and not st.get("deadline_hit"),
        explanation="states = explored paths (each decided for all its inputs by the solver); transitions = solver queries")
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov,
              assumptions=list(getattr(m, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(ev_dir, f"{pid}.json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    for k, v in sorted(fk.items()):
        print(f"KNOWN-FINDING: property={pid} {known[k]} [{k}]")
    print(f"{pid} {tier}: scenarios={len(results)} paths={st.get('paths', 0)} queries={st.get('queries', 0)} obligations={st.get('obligations', 0)} "
          f"solver={st.get('solver_s', 0):.1f}s traces={st.get('traces_agree', 0)}/{st.get('traces_replayed', 0)} wall={time.time() - t0:.1f}s"
          + (f" INCOMPLETE {incomplete[:3]}" if incomplete else "") + (f" inconclusive={st.get('inconclusive')}" if st.get("inconclusive") else "")
          + (f" inconclusive branches={cov['inconclusive_branches']}" if cov["inconclusive_branches"] else "") + (f" cuts={st.get('cut_reasons')}" if st.get("cut_reasons") else ""))
    if viol:
        for v in viol[:5]:
            print(f"  {v['job']}: {v['what']}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if unconf:
        for v in unconf[:5]:
            print("UNCONFIRMED (solver counterexample that the real code does not reproduce):", v["job"], v["what"], json.dumps(v["data"])[:1500])
        return 2
    if errs:
        print("\n".join(errs[:3])[-6000:])
        return 3
    if st.get("obligations", 0) == 0:
        print("vacuous: no obligation was reached")
        return 4
    return 0
