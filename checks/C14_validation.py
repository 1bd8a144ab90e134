"""C14: invalid scenes are rejected with an exception before anything is drawn; valid scenes are accepted."""
import paths  # noqa: F401  (makes the solvers importable)
import z3

import bridge
import build
import cyx
from bridge import F64, Inputs, Scenario

BOUNDS = ("arrays of 0 to 3 dimensions with symbolic extents (any size below 2^31) and symbolic contents (any index values, flags and numbers), every scene field and argument with each other number of dimensions, "
          "with other element types, not contiguous or missing (one at a time; the remaining fields stay symbolic); forward and backward, colour and error mode, both kinds of background, neither, both; through "
          "renderScene/renderSceneB and through the compiled entry points directly")
ASSUMPTIONS = ["numpy's own operations behave as documented (shapes, flatten, ascontiguousarray, comparisons, all/any)", "Cython compiles the bridge faithfully (each explored path is replayed on the compiled bridge)"]
MAXTASKS = 60


def base(tier):
    o = []
    for via in ("direct", "python"):
        for bw in (0, 1):
            for err in (0, 1):
                for bg in ("image", "color"):
                    for tex in (3, 2):
                        if via == "python" and tier == "quick" and (bg == "image") == (tex == 3):
                            continue
                        o.append((f"{via}_{'backward' if bw else 'forward'}_{'error' if err else 'color'}_{bg}_{tex}", dict(sc=(bool(bw), bool(err), via, bg, tex))))
                for bg in ("both", "none"):
                    if not err:
                        o.append((f"{via}_{'backward' if bw else 'forward'}_{bg}", dict(sc=(bool(bw), False, via, bg, 3))))
    return o


def jobs(tier):
    o = base(tier)
    for via in ("direct", "python"):
        for bw in (False, True):
            for err in (False, True):
                sc = Scenario(bw, err, via, "image" if err else "color", 3)
                for n, (nd, dt) in sc.arrays().items():
                    if n not in bridge.ARGS and err and not (tier == "thorough"):
                        continue            # scene fields are treated alike in both modes
                    if n in bridge.ARGS and not err and bw and n != "image_b" and tier == "quick":
                        continue
                    ch = [dict(ndim=k) for k in range(4) if k != nd]
                    ch += [dict(none=True), dict(contig=False)] + [dict(dtype=d) for d in ("int64", "float32", "bool") if d != str(dt)]
                    if via == "python" and tier == "quick":
                        ch = [c for c in ch if "none" in c or c.get("ndim") in (1, 2)]
                    for c in ch:
                        if n == "textured" and "dtype" in c:
                            continue
                        nm = f"{via}_{'backward' if bw else 'forward'}_{'error' if err else 'color'}_{n}_{'_'.join(f'{a}{b}' for a, b in c.items())}"
                        o.append((nm, dict(sc=(bw, err, via, "image" if err else "color", 3), change={n: c})))
    o += [(f"throw_{d}", dict(sc=(bool(bw), False, "direct", "color", 3), throw=True)) for bw, d in ((0, "forward"), (1, "backward"))]
    return o


def prepare(tier):
    build.bridge_path()


def text(inp, x):
    import numpy as np
    return {n: (f"{v.dtype}{list(v.shape)}" + (f" {v.ravel()[:6].tolist()}" if n in ("faces", "faces_uv", "textured") else "") if isinstance(v, np.ndarray) else v) for n, v in x.items()}


def run_job(j, sc, change=None, throw=False):
    S = Scenario(*sc, change=change)
    inp = Inputs(S)
    pcs = inp.pieces()
    im = inp.arrays.get("image")
    nonempty = [cyx.zi(e) >= 1 for e in im.shape] if isinstance(im, cyx.A) else []
    valid = z3.And([p for _, p in pcs] + nonempty)
    accepted = False
    for ctx, out, calls, scene, st in bridge.run(inp, j):
        if ctx is None:
            j.incomplete.append(j.name)
            return
        extra = []
        if throw:
            for c in calls:
                j.stats.add("obligations")
                if c["catches"]:
                    j.stats.add("discharged")
                    continue
                m = bridge.model_of(ctx, inp, [])
                x = bridge.concrete(inp, m)
                o, _, _ = bridge.replay(S, x, throw=True)
                j.violation(f"throw:{c['name']}", f"an error thrown by the C++ renderer ends the process ({o}) instead of raising an exception", text(inp, x), o[0] == "crash")
                return
            continue
        if calls:
            accepted = True
            for what, p in pcs:
                j.stats.add("obligations")
                r = ctx.check(z3.Not(p))
                if r == z3.unsat:
                    j.stats.add("discharged")
                    continue
                if r == z3.unknown:
                    j.stats.add("inconclusive")
                    continue
                m = bridge.model_of(ctx, inp, [z3.Not(p)]) or ctx.s.model()
                x = bridge.concrete(inp, m)
                if x is None:
                    j.violation(f"{what}", f"{S.describe()}: accepted although wrong: {what}", {}, False)
                    return
                o, rec, _ = bridge.replay(S, x)
                bad = bridge.concrete_pieces(S, x)
                if j.violation(f"{j.name}:{what}", f"{S.describe()}: accepted although wrong: {what} ({', '.join(bad)})", text(inp, x), (bool(rec) or o[0] == "crash") and bool(bad)):
                    return
        elif out[0] == "raise":
            j.stats.add("obligations")
            if not inp.canonical():
                j.stats.add("discharged")
            else:
                r = ctx.check(valid)
                if r == z3.unsat:
                    j.stats.add("discharged")
                elif r == z3.unknown:
                    j.stats.add("inconclusive")
                else:
                    m = bridge.model_of(ctx, inp, [valid]) or ctx.s.model()
                    x = bridge.concrete(inp, m)
                    o, rec, _ = bridge.replay(S, x) if x else (["?"], [], {})
                    ok = x is not None and o[0] == "raise" and not bridge.concrete_pieces(S, x)
                    if j.violation(f"{j.name}:valid", f"{S.describe()}: a valid scene is rejected ({out[1]})", text(inp, x) if x else {}, ok):
                        return
        if out[0] == "crash":
            m = bridge.model_of(ctx, inp, [])
            x = bridge.concrete(inp, m) if m is not None else None
            o = bridge.replay(S, x)[0] if x else ["?"]
            if j.violation(f"{j.name}:crash", f"{S.describe()}: {out[1]}", text(inp, x) if x else {}, o[0] == "crash"):
                return
        elif not throw:
            m = bridge.model_of(ctx, inp, extra)
            x = bridge.concrete(inp, m) if m is not None else None
            if x is not None:
                o, rec, _ = bridge.replay(S, x)
                same = (o[0] == out[0] and bool(rec) == bool(calls) and (o[0] != "raise" or o[1] == out[1]))
                j.trace(same)
                j.sample({"path": len(ctx.taken), "outcome": str(out[:2]), "inputs": text(inp, x)})
                if not same:
                    raise RuntimeError(f"the compiled bridge does {o} ({len(rec)} calls) where the encoding does {out[:2]} ({len(calls)} calls): {text(inp, x)}")
    if throw and not j.stats.get("obligations"):
        raise RuntimeError("the renderer is never reached")
