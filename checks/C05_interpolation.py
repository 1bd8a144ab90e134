"""C05: colours and depth are interpolated exactly between the vertices."""
from fractions import Fraction as F

from cmp2d import forward_check
from render import Scene2

BOUNDS = ("one untextured triangle; one vertex anywhere in R^2, all vertex depths (positive) and 2-channel colours symbolic; 3x3 grids (quick), up to "
          "4x4 (thorough); with perspective_correct either the position or the depths are symbolic; both pixel-centre conventions; non-strict "
          "scenarios include vertices and edges exactly on pixel centres")
ASSUMPTIONS = ["doubles are exact real numbers"]

CONF = [((F(-1), F(-1, 2)), (F(7, 2), F(1, 3))), ((F(0), F(0)), (F(2), F(1))), ((F(1, 2), F(6)), (F(5, 2), F(-4)))]


def jobs(tier):
    out = []
    for ci in range(len(CONF)):
        for slot in range(3):
            if tier == "quick" and slot != ci:
                continue
            for integer in (True, False):
                for strict in (True, False):
                    out.append((f"lin{ci}_{slot}_i{int(integer)}_s{int(strict)}", dict(ci=ci, slot=slot, integer=integer, strict=strict, mode="lin", n=3 if tier == "quick" else 4)))
                out.append((f"pos{ci}_{slot}_i{int(integer)}", dict(ci=ci, slot=slot, integer=integer, strict=not integer, mode="pos", n=2)))
                out.append((f"dep{ci}_{slot}_i{int(integer)}", dict(ci=ci, slot=slot, integer=integer, strict=integer, mode="dep", n=3)))
    return out


def run_job(j, ci, slot, integer, strict, mode, n):
    b, c = CONF[ci]
    names = [f"c{i}" for i in range(6)]
    if mode != "dep":
        names += ["ax", "ay"]
    if mode != "pos":
        names += ["z0", "z1", "z2"]

    def split(v):
        col = [[v[0], v[1]], [v[2], v[3]], [v[4], v[5]]]
        r = list(v[6:])
        a = (r.pop(0), r.pop(0)) if mode != "dep" else [(F(2, 3), F(11, 4)), (F(0), F(2)), (F(-9), F(1))][ci]
        z = r if mode != "pos" else [F(2), F(3), F(5)]
        return col, a, z

    def build(v):
        col, a, z = split(v)
        ij = [list(b), list(c)]
        ij.insert(slot, list(a))
        return Scene2(faces=[[0, 1, 2]], depths=z, ij=ij, colors=col, nb_colors=2, height=n, width=n, integer_pixel_centers=integer,
                      strict_edge=strict, perspective_correct=mode != "lin", background_color=[F(-1), F(-2)], backface_culling=mode != "dep")

    def pre(v):
        return [(z, ">") for z in split(v)[2]] if mode != "pos" else []
    forward_check(j, names, build, pre)
