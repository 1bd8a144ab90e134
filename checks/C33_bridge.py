"""C33: the C++ renderer receives exactly the scene's arrays and flags, and its gradients come back in the scene's shapes."""
import paths  # noqa: F401  (makes the solvers importable)
import numpy as np
import z3

import bridge
import build
import cyx
from bridge import ARGS, CT, CTYPES, FLAGS, GRAD, INTS, SCENE, Inputs, Scenario
from cyx import A, Ptr, zb, zi

BOUNDS = ("valid scenes with symbolic extents (any size below 2^31; pixels, vertices and faces not zero) and symbolic contents of every array and flag; forward and backward, colour and error mode, both kinds of background, "
          "with and without a texture; every scene array contiguous, strided, or with another element type (one at a time); through renderScene/renderSceneB and through the compiled entry points directly")
ASSUMPTIONS = ["numpy's own operations behave as documented (shapes, flatten, ascontiguousarray, astype)", "Cython compiles the bridge faithfully (each explored path is replayed on the compiled bridge)"]
MAXTASKS = 60
OUT = ("image", "z_buffer", "err_buffer")      # written, not read, by the forward renderer


def jobs(tier):
    o = []
    for via in ("direct", "python"):
        for bw in (False, True):
            d = "backward" if bw else "forward"
            for err in (False, True):
                for bg in ("image", "color"):
                    for tex in (3, 2):
                        o.append((f"{via}_{d}_{'error' if err else 'color'}_{bg}_{tex}", dict(sc=(bw, err, via, bg, tex))))
            for bg in ("image", "color"):
                for err in (False, True):
                    if err and tier == "quick":
                        continue
                    arr = Scenario(bw, err, via, bg, 3).arrays()
                    for n in arr:
                        if n in ARGS or tier == "quick" and bg == "image" and n != "background_image":
                            continue
                        ch = [dict(contig=False)] + ([dict(ndim=2)] if n == "depths" else [])
                        if n in ("background_image", "background_color", "texture", "uv", "ij", "depths", "shade", "colors") or n in GRAD:
                            ch += [dict(dtype=t) for t in ("float32", "int64", "int32")]
                        elif n == "faces_uv":
                            ch += [dict(dtype=t) for t in ("int64", "int32")]
                        elif n in ("edgeflags", "textured", "shaded"):
                            ch += [dict(dtype="uint8")]
                        if via == "python" and tier == "quick":
                            ch = [c for c in ch if 'dtype' not in c]
                        for c in ch:
                            o.append((f"{via}_{d}_{'error' if err else 'color'}_{bg}_{n}_{'_'.join(f'{a}{b}' for a, b in c.items())}", dict(sc=(bw, err, via, bg, 3), change={n: c})))
    return o


def prepare(tier):
    build.bridge_path()


def contents(p, src, ctype, k):
    """element k read through the pointer is element k of the source"""
    got, want = p.at(k), src.at(k)
    kd = CTYPES[ctype][1]
    if ctype == "bool":
        want = cyx.conv(want, src.dtype, np.dtype(bool))
        if p.dtype == np.dtype(bool):
            return got == want
        return z3.And(z3.Or(got == 0, got == 1), (got != 0) == want)
    want = cyx.conv(want, src.dtype, np.dtype(np.uint32 if "u" in kd else np.float64))
    return got == want


def facts(inp, out, calls, st):
    """[(what, condition)] for a path that reaches the renderer"""
    S, f = inp.sc, []
    if len(calls) != 1 or calls[0]["name"] != ("renderScene_B" if S.backward else "renderScene"):
        return [("the renderer is called once", z3.BoolVal(False))]
    d = calls[0]
    s = d["scene"] if isinstance(d["scene"], cyx.Struct) else d["scene"].x
    k = z3.Int("element")
    inside = lambda a: z3.And(k >= 0, k < zi(a.size))
    for n in list(SCENE) + (list(GRAD) if S.backward else []):
        src, p = inp.arrays.get(n), d["fields"].get(n)
        ct = CT.get(n, "double")
        if not isinstance(src, A):
            f.append((f"{n} is not set", z3.BoolVal(isinstance(p, Ptr) and p.a is None)))
            continue
        if not isinstance(p, Ptr) or p.a is None:
            f.append((f"{n} is handed over", z3.BoolVal(False)))
            continue
        q = d["frozen"][n]
        ok = q.dtype.itemsize == CTYPES[ct][2] and q.dtype.kind in CTYPES[ct][1] and p.a.contig and d["owned"].get(n)
        f.append((f"memory of {n}", z3.And(z3.BoolVal(bool(ok)), zi(q.size) >= zi(src.size))))
        if ok:
            f.append((f"contents of {n}", z3.Implies(inside(src), contents(q, src, ct, k))))
    a = inp.arrays
    want = dict(nb_triangles=zi(a["faces"].shape[0]), nb_vertices=zi(a["depths"].shape[0]), nb_uv=zi(a["uv"].shape[0]), height=inp.height, width=inp.width, nb_colors=zi(a["image"].shape[2]),
                texture_height=zi(a["texture"].shape[0]), texture_width=zi(a["texture"].shape[1]))
    for n in INTS:
        f.append((n, zi(d["fields"][n]) == want[n] if n in d["fields"] else z3.BoolVal(False)))
    for n in FLAGS:
        f.append((n, zb(d["fields"][n]) == inp.flags[n] if n in d["fields"] else z3.BoolVal(False)))
    f.append(("sigma", d["sigma"].z == inp.sigma if isinstance(d["sigma"], cyx.R) else z3.BoolVal(False)))
    f.append(("antialiase_error", zb(d["error"]) == z3.BoolVal(S.error)))
    used = S.arrays()
    for n in ARGS:
        if n in used:
            p, own = d.get(n), st["args"][n]
            f.append((f"{n} is the caller's array", z3.BoolVal(isinstance(p, Ptr) and p.a is not None and p.a.buf is own.buf and p.a.idx is None)))
            if isinstance(p, Ptr) and p.a is not None and (S.backward or n not in OUT):
                f.append((f"contents of {n}", z3.Implies(inside(inp.arrays[n]), d["frozen"][n].at(k) == inp.arrays[n].at(k))))
    for n, src in inp.arrays.items():
        if n in SCENE or n in GRAD and not S.backward:
            now = getattr(st["scene"], n, None)
            if not isinstance(src, A):
                f.append((f"{n} afterwards", z3.BoolVal(now is None)))
            else:
                f.append((f"{n} afterwards", z3.And(cyx.same_shape(now.shape, src.shape), z3.BoolVal(now.dtype == src.dtype), z3.Implies(inside(src), now.at(k) == src.at(k))) if isinstance(now, A) else z3.BoolVal(False)))
        elif n in GRAD:
            now = getattr(st["scene"], n, None)
            w = z3.Function(f"written.{n}", z3.IntSort(), z3.RealSort())
            f.append((f"gradient {n} afterwards", z3.And(cyx.same_shape(now.shape, src.shape), z3.BoolVal(now.dtype.kind == "f" and now.dtype.itemsize == 8), z3.Implies(inside(src), now.at(k) == w(k)))
                      if isinstance(now, A) else z3.BoolVal(False)))
    f.append(("the call returns", z3.BoolVal(out[0] == "return")))
    return f


def run_job(j, sc, change=None):
    S = Scenario(*sc, change=change)
    inp = Inputs(S)
    valid = [p for _, p in inp.pieces()] + [zi(e) >= 1 for e in inp.arrays["image"].shape] + [zi(inp.arrays[n].shape[0]) >= 1 for n in ("faces", "depths", "uv")]
    k = z3.Int("k")
    valid += [z3.ForAll([k], z3.And(inp.arrays[n].at(k) >= 0, inp.arrays[n].at(k) <= 1)) for n in change or {} if CT.get(n) == "bool" and inp.arrays[n].dtype == np.uint8]     # flags stored as integers
    reached = 0
    for ctx, out, calls, scene, st in bridge.run(inp, j):
        if ctx is None:
            j.incomplete.append(j.name)
            return
        if not calls:
            continue                # rejected: decided by C14
        ctx.s.push()
        try:
            ctx.s.add(*valid)
            reached += 1
            for what, p in facts(inp, out, calls, st):
                j.stats.add("obligations")
                r = ctx.check(z3.Not(p))
                if r == z3.unsat:
                    j.stats.add("discharged")
                    continue
                if r == z3.unknown:
                    j.stats.add("inconclusive")
                    continue
                m = bridge.model_of(ctx, inp, [z3.Not(p)])
                bad, x = [], None
                for fill in (False, True):
                    x = bridge.concrete(inp, m, filled=fill) if m is not None else None
                    if x is not None:
                        bad = bridge.concrete_faults(S, x, *bridge.replay(S, x))
                    if bad:
                        break
                if j.violation(f"{j.name}:{what}", f"{S.describe()}: {what}: {'; '.join(bad[:3])}", {n: (f"{v.dtype}{list(v.shape)}" if isinstance(v, np.ndarray) else v) for n, v in (x or {}).items()}, bool(bad)):
                    return
            m = bridge.model_of(ctx, inp, [])
            x = bridge.concrete(inp, m, filled=True) if m is not None else None
            if x is not None and not bridge.concrete_pieces(S, x):
                bad = bridge.concrete_faults(S, x, *bridge.replay(S, x))
                j.trace(not bad)
                j.sample({"path": len(ctx.taken), "inputs": {n: (f"{v.dtype}{list(v.shape)}" if isinstance(v, np.ndarray) else v) for n, v in x.items()}})
                if bad and not j.violations and not j.unconfirmed:
                    raise RuntimeError(f"the compiled bridge: {bad[:3]} where the encoding finds nothing wrong")
        finally:
            ctx.s.pop()
    if not reached:
        raise RuntimeError("no valid scene reaches the renderer")
