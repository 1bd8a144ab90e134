"""C01: a pixel is painted exactly when its centre lies in a front-facing triangle."""
from fractions import Fraction as F

import render
import sym
from geom import orient, neg_lit, orientation_sign, isinf, close
from render import Scene2
from sym import Ctx

BOUNDS = ("one triangle; one vertex ranges over all of R^2 (quick) and the two others are taken from a list of "
          "concrete positions on, off and far off the grid; grids up to 4x3 (quick) / 6x5 (thorough); both windings, strict and "
          "non-strict edges, both pixel-centre conventions; doubles are exact reals")
ASSUMPTIONS = ["doubles are exact real numbers (rounding of a coordinate lying within an ulp of an edge is outside the claim)",
               "image sides below 32768"]

CONF = [  # (B, C) concrete vertices
    ((F(0), F(0)), (F(3), F(1))),
    ((F(1, 2), F(5, 2)), (F(5, 2), F(1, 2))),
    ((F(1), F(1)), (F(2), F(1))),          # horizontal edge on a pixel row
    ((F(2), F(-1)), (F(2), F(7, 2))),      # vertical edge on a pixel column
    ((F(-7, 2), F(3, 4)), (F(19, 4), F(9, 4))),
    ((F(-20), F(-13)), (F(31), F(17))),
    ((F(5, 4), F(-30)), (F(3, 2), F(40))),
    ((F(100000), F(1)), (F(-100000), F(2))),  # far beyond the 16 bit range
    ((F(1), F(-50000)), (F(2), F(70001))),
    ((F(1, 3), F(-3)), (F(-2), F(7, 2))),  # reaching no further than the first column, last column, last row, first row
    ((F(5, 3), F(-3)), (F(9, 2), F(7, 2))),
    ((F(-3), F(5, 3)), (F(6), F(7, 2))),
    ((F(-3), F(1, 3)), (F(6), F(-1))),
]


def jobs(tier):
    out = []
    for ci, (b, c) in enumerate(CONF):
        for cw in (True, False):
            for strict in (True, False):
                for integer in ((True, False) if tier == "thorough" or ci in (0, 1, 4) else (True,)):
                    sizes = [(3, 3)] if tier == "quick" else [(3, 4), (5, 6), (1, 1)]
                    for (h, w) in sizes:
                        out.append((f"B{ci}_cw{int(cw)}_s{int(strict)}_i{int(integer)}_{h}x{w}",
                                    dict(b=b, c=c, cw=cw, strict=strict, integer=integer, h=h, w=w, slot=ci % 3)))
    return out


def run_job(j, b, c, cw, strict, integer, h, w, slot):
    off = F(0) if integer else F(1, 2)
    bg, col = F(0), F(1)

    def scene(vx):
        pts = [list(b), list(c)]
        pts.insert(slot, [vx[0], vx[1]])
        return Scene2(faces=[[0, 1, 2]], depths=[1, 1, 1], ij=pts, colors=[[col]] * 3, height=h, width=w, clockwise=cw,
                      strict_edge=strict, integer_pixel_centers=integer, background_color=[bg])

    def prog(vx):
        s = scene(vx)
        o = render.ir_forward(s)
        return s, o

    def expected(s, p):
        """closed / open membership of pixel centre p as edge functions oriented inwards"""
        t = s.ij
        sg = 1 if cw else -1
        return [orient(t[k], t[(k + 1) % 3], p) * sg for k in range(3)]

    def check(path, res):
        s, o = res
        j.sample({"path_witness": [str(x) for x in path.ctx.witness], "painted": [i for i, z in enumerate(o.z) if not isinf(z)],
                  "branches": len(path.ctx.lits)})
        front = orientation_sign(s.ij) * (1 if cw else -1) > 0
        bad = None
        for y in range(h):
            for x in range(w):
                i = y * w + x
                painted = not isinf(o.z[i])
                img = o.image[i]
                p = (x + off, y + off)
                neg = []
                if not painted:
                    if not (img == bg):
                        neg.append([])
                    if front:
                        e = expected(s, p)
                        rel = ">" if strict else ">="
                        neg.append([neg_lit(v, rel) for v in e])
                        what = "not painted although the centre is inside"
                    else:
                        continue
                else:
                    if not front:
                        neg.append([])
                    else:
                        neg += [[neg_lit(v, "<")] for v in expected(s, p)]
                        if isinstance(img, sym.Num):
                            neg.append([neg_lit(img - col, "!=")])
                        elif img != col:
                            neg.append([])
                    what = "painted although the centre is outside (or with a wrong value)"
                f = path.prove(neg, what)
                if f is not None and bad is None:
                    bad = (i, what, f[1], painted)
        if bad is not None:
            i, what, wit, painted = bad
            return report(j, s, wit, i, what, painted)
        # trace validation on the native build
        nat = render.native(s.at(path.ctx.witness))
        j.trace([v != float("inf") for v in nat.z] == [not isinf(z) for z in o.z])
        return None

    def report(j, s, wit, i, what, painted):
        c = s.at(wit)
        nat = render.native(c)
        t = c.ij
        p = (i % w + off, i // w + off)
        sg = 1 if cw else -1
        e = [orient([F(float(q)) for q in t[k]], [F(float(q)) for q in t[(k + 1) % 3]], p) * sg for k in range(3)]
        area = sum(orient([F(float(q)) for q in t[0]], [F(float(q)) for q in t[1]], [F(float(q)) for q in t[2]]) for _ in (0,)) * sg
        npaint = nat.z[i] != float("inf")
        inside = area > 0 and all(v > 0 for v in e)
        closed = area > 0 and all(v >= 0 for v in e)
        wrong = (npaint and not closed) or (not npaint and (inside or (closed and not strict))) or (npaint and not close(nat.image[i], col)) or (not npaint and not close(nat.image[i], bg))
        return j.violation(f"pixel{i}:{what[:11]}:strict{int(strict)}", f"pixel {i} {what}; vertices {[[float(q) for q in r] for r in t]}",
                           dict(scene=c.describe(), pixel=i, native_painted=npaint), wrong)

    def on_cut(path, cut):
        s = scene(j_vars)
        # conversions out of range etc.: the path's inputs must still render correctly
        wit = path.q.interior(path.lits()) or path.ctx.witness
        c = s.at(wit)
        nat = render.native(c)
        sg = 1 if cw else -1
        t = c.ij
        for i in range(h * w):
            p = (i % w + off, i // w + off)
            e = [orient(t[k], t[(k + 1) % 3], p) * sg for k in range(3)]
            inside = orient(*t) * sg > 0 and all(v > 0 for v in e)
            outside = orient(*t) * sg <= 0 or any(v < 0 for v in e)
            npaint = nat.z[i] != float("inf")
            if npaint and outside or inside and not npaint:
                return j.violation(f"cut:{cut}", f"{cut}: pixel {i} wrong; vertices {[[float(q) for q in r] for r in t]}", dict(scene=c.describe(), pixel=i), True)
        return None

    j_vars = None
    e = j.explorer(["ax", "ay"])
    j_vars = e.vars
    if e.run(prog, check, on_cut) is False:
        j.incomplete.append(j.name)
