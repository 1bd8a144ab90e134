"""C02: adjacent triangles tile the plane (no cracks, no double painting)."""
from fractions import Fraction as F

import render
from geom import orient, neg_lit, isinf
from render import Scene2
from sym import Num, Event

BOUNDS = ("two triangles sharing an edge, one of the shared vertices or an apex anywhere in R^2; fans of three and four triangles around a symbolic vertex "
          "anywhere inside a concrete polygon that covers the grid partly or entirely; each triangle rendered alone (untextured; both clockwise flags and pixel-centre "
          "conventions, strict and non-strict edges); 3x3 grids (quick), up to 5x5 (thorough)")
ASSUMPTIONS = ["doubles are exact real numbers", "a pixel counts as painted when its z buffer value is finite"]

# A, B, C, D: triangles (A,B,C) and (D,C,B); the symbolic one replaces an entry
QUADS = [
    [(F(-1), F(1)), (F(1), F(-3)), (F(1), F(5)), (F(4), F(1))],
    [(F(-2), F(-3)), (F(-3), F(2)), (F(4), F(1)), (F(2), F(6))],
    [(F(1, 2), F(-2)), (F(-1), F(1)), (F(3), F(1)), (F(3, 2), F(4))],     # shared edge on a row of pixel centres
    [(F(-4), F(7, 3)), (F(0), F(0)), (F(2), F(2)), (F(9), F(-5))],          # shared edge on a diagonal of pixel centres
]
RINGS = [
    [(F(-1), F(-1)), (F(3), F(-1)), (F(1), F(4))],
    [(F(-1), F(-2)), (F(5), F(1)), (F(3), F(5)), (F(-3), F(3))],
    [(F(0), F(0)), (F(2), F(0)), (F(2), F(2)), (F(0), F(2))],
]


def jobs(tier):
    o = []
    n = 3
    k = 0
    for qi in range(len(QUADS)):
        for mv in ((1, 0) if tier == "quick" else (0, 1, 2, 3)):
            for strict in (True, False):
                k += 1
                for cw in ((True, False) if tier == "thorough" else (k % 2 == 0,)):
                    o.append((f"edge{qi}_m{mv}_s{int(strict)}_cw{int(cw)}", dict(kind="edge", qi=qi, mv=mv, strict=strict, cw=cw, integer=qi != 1, n=2 if mv == 1 and not strict and tier == "quick" else n)))
    for ri in range(len(RINGS)):
        for strict in (True, False):
            for cw in ((True, False) if tier == "thorough" else (ri != 1,)):
                o.append((f"fan{ri}_s{int(strict)}_cw{int(cw)}", dict(kind="fan", qi=ri, mv=0, strict=strict, cw=cw, integer=ri != 1 or strict, n=2 if ri == 1 and not strict and tier == "quick" else n)))
    if tier == "thorough":
        for qi in range(len(QUADS)):
            o.append((f"T_edge{qi}", dict(kind="edge", qi=qi, mv=1, strict=True, cw=True, integer=True, n=5)))
        for ri in range(len(RINGS)):
            o.append((f"T_fan{ri}", dict(kind="fan", qi=ri, mv=0, strict=True, cw=True, integer=ri == 0, n=5)))
    o.sort(key=lambda q: not q[0].startswith("fan1"))
    return o


def run_job(j, kind, qi, mv, strict, cw, integer, n):
    off = F(0) if integer else F(1, 2)
    centres = [(x + off, y + off) for y in range(n) for x in range(n)]

    def geometry(v):
        if kind == "edge":
            P = [list(q) for q in QUADS[qi]]
            P[mv] = [v[0], v[1]]
            return P, [(0, 1, 2), (3, 2, 1)]
        ring = RINGS[qi]
        P = [list(q) for q in ring] + [[v[0], v[1]]]
        m = len(ring)
        return P, [(k, (k + 1) % m, m) for k in range(m)]

    def scene(P, f):
        # every triangle is written with the winding that the flag calls front-facing
        return Scene2(faces=[[0, 1, 2]], depths=[1, 1, 1], ij=[P[f[0]], P[f[1]], P[f[2]]] if (orientation > 0) == cw else [P[f[0]], P[f[2]], P[f[1]]],
                      colors=[[F(1)]] * 3, height=n, width=n, clockwise=cw, strict_edge=strict, integer_pixel_centers=integer)

    # the common orientation of the listed triangles
    if kind == "edge":
        orientation = 1 if orient(*[QUADS[qi][k] for k in (0, 1, 2)]) > 0 else -1
    else:
        orientation = 1 if orient(*RINGS[qi][:3]) > 0 else -1

    def painted(c, f):
        return [not isinf(z) for z in c(scene(*f)).z]

    def prog(v):
        P, tris = geometry(v)
        for f in tris:
            o = orient(*[P[k] for k in f])
            if not (o * orientation > 0):
                return None
        return P, tris, [[not isinf(z) for z in render.ir_forward(scene(P, f)).z] for f in tris]

    def violations(P, tris, paint):
        """(pixel, what, list of conjunctions under which what is painted is wrong)"""
        out = []
        for i, p in enumerate(centres):
            cnt = sum(q[i] for q in paint)
            inside = [[neg_lit(orient(P[f[k]], P[f[(k + 1) % 3]], p) * orientation, ">") for k in range(3)] for f in tris]
            if kind == "edge":
                # open shared edge: on the line, strictly inside with respect to the other edges
                e = [neg_lit(orient(P[1], P[2], p), "=")]
                for f in tris:
                    e += [neg_lit(orient(P[f[k]], P[f[(k + 1) % 3]], p) * orientation, ">") for k in (0, 2)]
                shared = [(e, 0, 1)]
                region = inside + [e]
            else:
                m = len(RINGS[qi])
                shared = []
                for k in range(m):
                    # open spoke from ring vertex k to the centre; adjacent triangles k-1 and k
                    a, b = P[k], P[m]
                    d = (b[0] - a[0]) * (p[0] - a[0]) + (b[1] - a[1]) * (p[1] - a[1])
                    d2 = (a[0] - b[0]) * (p[0] - b[0]) + (a[1] - b[1]) * (p[1] - b[1])
                    shared.append(([neg_lit(orient(a, b, p), "="), neg_lit(d, ">"), neg_lit(d2, ">")], (k - 1) % m, k))
                ins = all(orient(RINGS[qi][k], RINGS[qi][(k + 1) % m], p) * orientation > 0 for k in range(m))
                region = [[]] if ins else []
            if strict and cnt == 1:
                out.append((i, "", []))     # nothing can be wrong at this pixel on the whole path
            elif strict:
                out.append((i, f"painted by {cnt} of the triangles that tile the region around it", region))
            if not strict:
                if cnt == 0:
                    out.append((i, "painted by none of the triangles that tile the region around it", region))
                for e, t1, t2 in shared:
                    if not (paint[t1][i] and paint[t2][i]):
                        out.append((i, "on a shared edge but not painted by both triangles", [e]))
        return out

    def check(path, res):
        if res is None:
            return None
        P, tris, paint = res
        j.sample({"witness": [str(q) for q in path.ctx.witness], "painted": [sum(q) for q in paint]})
        for i, what, negs in violations(P, tris, paint):
            f = path.prove(negs, what)
            if f is not None:
                r = report(path, i, what, f[1], negs)
                if r is not None:
                    return r
        c = path.ctx.witness
        if any(F(float(q)) != q for q in c):
            return None          # the boundary is not where a rounded replay would be
        Pc, tr = geometry(c)
        j.trace([[z != float("inf") for z in render.native(scene(Pc, f)).z] for f in tr] == paint)
        return None

    def concrete(w):
        """the violated statement at a concrete point, on the compiled renderer"""
        w = [F(float(q)) for q in w]
        P, tris = geometry(w)
        if not all(orient(*[P[k] for k in f]) * orientation > 0 for f in tris):
            return None
        paint = [[z != float("inf") for z in render.native(scene(P, f)).z] for f in tris]
        for i, what, negs in violations(P, tris, paint):
            for conj in negs:
                if all((v > 0) - (v < 0) in sg for v, sg in ((sum_const(p), sg) for p, sg in conj)):
                    return i, what
        return None

    def sum_const(p):
        return p.get(0, F(0)) if isinstance(p, dict) else p

    def report(path, i, what, wit, negs):
        cands = [wit]
        for conj in negs:
            cands += path.q.dyadic(path.lits() + list(conj))
        cands.append(path.ctx.witness)
        for w in cands:
            c = concrete(w)
            if c is not None:
                return j.violation(f"{j.name}:{what[:12]}", f"pixel {c[0]} {c[1]}; symbolic vertex at {[float(q) for q in w]}",
                                   dict(points=[[float(x) for x in p] for p in geometry(w)[0]], strict=strict, clockwise=cw, integer_pixel_centers=integer, size=n), True)
        return j.violation(f"{j.name}:{what[:12]}", f"pixel {i} {what}", dict(witness=[str(q) for q in wit]), False)

    def on_cut(path, cut):
        for w in [path.ctx.witness] + path.q.dyadic(path.lits()):
            c = concrete(w)
            if c is not None:
                return j.violation(f"{j.name}:cut", f"{cut}: pixel {c[0]} {c[1]}", dict(witness=[float(q) for q in w]), True)
        if isinstance(cut, Event):
            return j.violation(f"{j.name}:event", str(cut), dict(witness=[str(q) for q in path.ctx.witness]), False)
        return None

    e = j.explorer(["vx", "vy"])
    if e.run(prog, check, on_cut) is False:
        j.incomplete.append(j.name)
