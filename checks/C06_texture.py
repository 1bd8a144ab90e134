"""C06: textured pixels are bilinear texture samples times the interpolated shade."""
from fractions import Fraction as F

from cmp2d import forward_check
from render import Scene2

BOUNDS = ("one textured and shaded triangle on grids up to 3x3; symbolic texels and shades, and either all texture coordinates symbolic (any real, "
          "inside, on and outside the texture) or one vertex anywhere in R^2; texture sizes 1x1 to 3x4, 1 or 2 channels; perspective-correct or not")
ASSUMPTIONS = ["doubles are exact real numbers"]

TRI = [(F(-1, 2), F(-1)), (F(7, 3), F(1, 4)), (F(1, 3), F(11, 4))]
SIZES = [(2, 2), (1, 1), (1, 3), (3, 1), (3, 4)]


def jobs(tier):
    out = []
    for si, (h, w) in enumerate(SIZES):
        for persp in (False, True):
            k = 2 if si in (0, 2) else 1
            for part in (0, 1):
                # part 0: first coordinate symbolic, part 1: second one
                out.append((f"uv{h}x{w}_p{int(persp)}_c{part}", dict(mode="uv", th=h, tw=w, persp=persp, nc=k, part=part, n=2)))
            if si in (0, 2, 4):
                out.append((f"pos{h}x{w}_p{int(persp)}", dict(mode="pos", th=h, tw=w, persp=persp, nc=1, part=0, n=2)))
    if tier == "thorough":
        for persp in (False, True):
            out.append((f"both_p{int(persp)}", dict(mode="both", th=2, tw=3, persp=persp, nc=1, part=0, n=2)))
            out.append((f"uv3_p{int(persp)}", dict(mode="uv", th=4, tw=3, persp=persp, nc=2, part=0, n=3)))
            out.append((f"pos3_p{int(persp)}", dict(mode="pos", th=3, tw=4, persp=persp, nc=1, part=0, n=3)))
    return out


def run_job(j, mode, th, tw, persp, nc, part, n):
    nt = th * tw * nc
    names = [f"t{i}" for i in range(nt)] + ["l0", "l1", "l2"] + {"uv": ["u0", "u1", "u2"], "pos": ["ax", "ay"], "both": ["u0", "v0", "u1", "v1", "u2", "v2"]}[mode]

    def build(v):
        tex = [[[v[(y * tw + x) * nc + c] for c in range(nc)] for x in range(tw)] for y in range(th)]
        sh = list(v[nt:nt + 3])
        r = v[nt + 3:]
        ij = [list(p) for p in TRI]
        uv = [[F(-1, 3), F(1, 2)], [F(2, 3), F(9, 4)], [F(5, 2), F(-1, 4)]]
        if mode == "uv":
            for i in range(3):
                uv[i][part] = r[i]
        elif mode == "both":
            uv = [[r[0], r[1]], [r[2], r[3]], [r[4], r[5]]]
        else:
            ij[1] = [r[0], r[1]]
        return Scene2(faces=[[2, 0, 1]], faces_uv=[[1, 2, 0]], depths=[F(2), F(3), F(7, 2)], ij=ij, uv=uv, shade=sh, textured=[1], shaded=[1],
                      texture=tex, nb_colors=nc, height=n, width=n, perspective_correct=persp, background_color=[F(-1)] * nc)
    forward_check(j, names, build)
