"""C03: the nearest surface wins at every pixel, whatever the drawing order."""
from fractions import Fraction as F

import render
from cmp2d import forward_check
from render import Scene2

BOUNDS = ("two or three overlapping triangles on grids up to 3x3 (quick) / 4x4 (thorough): either all their vertex depths are symbolic (any real, "
          "positive, zero or negative) or one of the triangles is translated by a symbolic (tx,ty) in R^2 with sloped depths; untextured, textured, "
          "perspective-correct; all face orders of the scene")
ASSUMPTIONS = ["doubles are exact real numbers", "exact depth ties are left open, as the property says"]

T1 = [(F(-1, 2), F(-1, 2)), (F(5, 2), F(1, 4)), (F(1, 3), F(9, 4))]
T2 = [(F(3, 4), F(-3, 4)), (F(11, 4), F(7, 4)), (F(-1, 3), F(4, 3))]
T3 = [(F(-4), F(1, 2)), (F(4), F(1, 5)), (F(5, 2), F(5, 2))]
FULL = [(F(-9), F(-7)), (F(20), F(-6)), (F(1), F(23))]
COL = [[F(1), F(0)], [F(0), F(2)], [F(3), F(1)]]


def jobs(tier):
    out = []
    for tex in (0, 1, 2):                     # 0 untextured, 1 first one textured, 2 all textured
        for strict in (True, False):
            out.append((f"depth2_tex{tex}_s{int(strict)}", dict(kind="depth", tris=[T1, T2], tex=tex, strict=strict, persp=False, order=0, n=3)))
    out.append(("depth2_rev", dict(kind="depth", tris=[T2, T1], tex=0, strict=True, persp=False, order=1, n=3)))
    for tex in (0, 2):
        for persp in (False, True):
            for o in (0, 1):
                out.append((f"move_tex{tex}_p{int(persp)}_o{o}", dict(kind="move", tris=[FULL, T2] if persp else [T3, T2], tex=tex, strict=True, persp=persp, order=o, n=2)))
    for o in range(6):
        out.append((f"depth3_o{o}", dict(kind="flat3", tris=[T1, T2, T3], tex=o % 3, strict=True, persp=False, order=o, n=3)))
    if tier == "thorough":
        for o in range(6):
            out.append((f"depth3w_o{o}", dict(kind="flat3", tris=[T1, T2, FULL], tex=(o + 1) % 3, strict=False, persp=False, order=o, n=4)))
        for o in (0, 1):
            out.append((f"depth2p_o{o}", dict(kind="depthp", tris=[T1, T2], tex=2 * o, strict=True, persp=True, order=o, n=2)))
            out.append((f"move3_o{o}", dict(kind="move", tris=[T3, T2], tex=2 * o, strict=True, persp=False, order=o, n=3)))
            out.append((f"move4_o{o}", dict(kind="move", tris=[FULL, T2], tex=2 * o, strict=False, persp=False, order=o, n=4)))
    return out


def run_job(j, kind, tris, tex, strict, persp, order, n):
    nt = len(tris)
    names = {"depth": [f"z{i}" for i in range(3 * nt)], "depthp": ["z0", "z4"], "move": ["tx", "ty"], "flat3": [f"z{i}" for i in range(nt)]}[kind]
    import itertools
    perm = list(itertools.permutations(range(nt)))[order]

    def build(v):
        ij = [list(p) for t in tris for p in t]
        base = [F(2), F(3), F(5), F(7, 2), F(1), F(9, 2), F(4), F(5, 2), F(3)]
        d = base[:3 * nt]
        if kind == "depth":
            d = list(v)
        elif kind == "depthp":
            d[0], d[4] = v
        elif kind == "flat3":
            d = [v[k // 3] + (k % 3) for k in range(3 * nt)]
        else:
            for k in range(3 * nt - 3, 3 * nt):
                ij[k] = [ij[k][0] + v[0], ij[k][1] + v[1]]
        faces = [[3 * k, 3 * k + 1, 3 * k + 2] for k in perm]
        textured = [int(tex == 2 or (tex == 1 and k == 0)) for k in perm]
        return Scene2(faces=faces, faces_uv=[[0, 1, 2]] * nt, uv=[[F(1, 4), F(1, 2)], [F(1, 2), F(1, 3)], [F(1, 3), F(3, 4)]],
                      depths=d, ij=ij, colors=[COL[k // 3] for k in range(3 * nt)], shade=[F(1), F(2), F(3)] * nt, textured=textured, shaded=textured,
                      texture=[[[F(5), F(6)], [F(7), F(8)]], [[F(9), F(4)], [F(3), F(2)]]], nb_colors=2, height=n, width=n, strict_edge=strict,
                      perspective_correct=persp, background_color=[F(-1), F(-2)])

    def pre(v):
        if kind == "depthp":
            return [(x - F(1, 10), ">") for x in v]
        if kind == "flat3":
            return []
        return []
    forward_check(j, names, build, pre)
