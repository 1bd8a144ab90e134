"""C09: image gradients inside triangles are the exact derivatives of the rendering."""
from fractions import Fraction as F

from gradcheck import check_gradients
from render import Scene2

BOUNDS = ("one to three triangles (overlapping, sharing vertices) on 2x2 and 3x3 grids (quick), up to 4x4 (thorough); one vertex of the first triangle anywhere in R^2 or along "
          "a line crossing the screen; symbolic colours, shades, texels and incoming gradient; derivatives with respect to every vertex coordinate, colour, "
          "shade, texture coordinate and texel; both clockwise flags and pixel-centre conventions; paths on which some comparison holds with equality are "
          "left open (the rendering is not differentiable there) except that the gradient must not be NaN")
ASSUMPTIONS = ["doubles are exact real numbers", "derivatives of the executed forward code are computed with dual numbers; replays use finite differences of the compiled renderer"]

TRI = [(F(-1, 2), F(-1)), (F(7, 3), F(1, 4)), (F(1, 3), F(11, 4))]
OTHER = [(F(1, 2), F(-2)), (F(9, 2), F(1)), (F(-1), F(3))]


def jobs(tier):
    o = []
    for cw in (True, False):
        for integer in (True, False):
            o.append((f"flat_cw{int(cw)}_i{int(integer)}", dict(kind="plane", cw=cw, integer=integer, tex=False, n=2, nc=2 if cw else 1, wrt=("ij", "colors"), two=False)))
    o.append(("flat3_line", dict(kind="line", cw=True, integer=True, tex=False, n=3, nc=2, wrt=("ij", "colors"), two=False)))
    o.append(("flat_shared", dict(kind="line", cw=True, integer=True, tex=False, n=3, nc=1, wrt=("ij", "colors"), two="fan")))
    o.append(("flat_two", dict(kind="line", cw=False, integer=True, tex=False, n=3, nc=1, wrt=("ij", "colors"), two="over")))
    o.append(("mix_two", dict(kind="line", cw=True, integer=True, tex=True, n=2, nc=1, wrt=("ij", "colors"), two="over")))
    for wrt in (("ij",), ("shade", "uv"), ("texture",)):
        o.append((f"tex_{wrt[0]}", dict(kind="line", cw=True, integer=wrt[0] == "ij", tex=True, n=2, nc=1, wrt=wrt, two=False)))
        o.append((f"tex2_{wrt[0]}", dict(kind="line", cw=False, integer=False, tex=True, n=2, nc=2, wrt=wrt, two=False)))
        o.append((f"texfan_{wrt[0]}", dict(kind="line", cw=True, integer=True, tex=True, n=2, nc=1, wrt=wrt, two="fan")))
        o.append((f"uvs_{wrt[0]}", dict(kind="uv", cw=True, integer=True, tex=True, n=2, nc=1, wrt=wrt, two=False)))
    if tier == "thorough":
        o.append(("T_flat3", dict(kind="plane", cw=True, integer=True, tex=False, n=3, nc=1, wrt=("ij", "colors"), two=False)))
        o.append(("T_fan", dict(kind="line", cw=True, integer=False, tex=False, n=4, nc=3, wrt=("ij", "colors"), two="fan")))
        for wrt in (("ij",), ("shade", "uv"), ("texture",)):
            o.append((f"T_texplane_{wrt[0]}", dict(kind="plane", cw=True, integer=wrt[0] == "ij", tex=True, n=2, nc=1, wrt=wrt, two=False)))
            o.append((f"T_tex3_{wrt[0]}", dict(kind="line", cw=True, integer=False, tex=True, n=4, nc=2, wrt=wrt, two="fan")))
            o.append((f"T_two_{wrt[0]}", dict(kind="plane", cw=True, integer=True, tex=True, n=2, nc=1, wrt=wrt, two="over")))
    return o


def run_job(j, kind, cw, integer, tex, n, nc, wrt, two):
    names = {"plane": ["ax", "ay"], "line": ["t"], "uv": ["u0", "v1"]}[kind]
    k0 = len(names)
    th, tw = 2, 3
    nv = {False: 3, "fan": 5, "over": 6}[two]
    npar = th * tw * nc + 3 if tex else 3 * nc
    names = names + [f"p{i}" for i in range(npar)] + [f"w{i}" for i in range(n * n * nc)]

    def build(v):
        p, r, w = v[:k0], v[k0:k0 + npar], v[k0 + npar:]
        ij = [list(q) for q in TRI]
        uv = [[F(-1, 3), F(1, 2)], [F(2, 3), F(1, 4)], [F(5, 2), F(4, 3)]]
        if kind == "plane":
            ij[1] = [p[0], p[1]]
        elif kind == "line":
            ij[1] = [ij[1][0] + p[0], ij[1][1] + p[0] * F(2, 7)]
        else:
            uv[0][0], uv[1][1] = p
        faces, depths = [[0, 1, 2]], [F(2), F(3), F(7, 2)]
        if two == "fan":
            ij += [[F(5), F(4)], [F(-3), F(3, 2)]]
            faces += [[1, 3, 2], [2, 4, 0]]
            depths += [F(4), F(1)]
        elif two == "over":
            ij += [list(q) for q in OTHER]
            faces += [[3, 4, 5]]
            depths += [F(2), F(4), F(3)]
        if not cw:
            faces = [[a, c, b] for a, b, c in faces]
        nt = len(faces)
        extra = nv - 3
        tx = [1] * nt if tex and two != "over" else [int(tex)] + [0] * (nt - 1)
        if tex:
            texture = [[[r[(y * tw + x) * nc + c] for c in range(nc)] for x in range(tw)] for y in range(th)]
            shade = r[th * tw * nc:] + [F(2), F(3), F(5)][:extra]
            colors = [[F(5 + 3 * q * q)] * nc for q in range(nv)]
        else:
            texture, shade = None, [F(0)] * nv
            colors = [r[nc * q:nc * q + nc] for q in range(3)] + [[F(7 + 4 * q * q)] * nc for q in range(extra)]
        s = Scene2(faces=faces, faces_uv=[[2, 0, 1], [1, 0, 2], [0, 2, 1]][:nt], depths=depths, ij=ij, uv=uv, shade=shade, colors=colors, texture=texture, textured=tx, shaded=tx,
                   nb_colors=nc, height=n, width=n, clockwise=cw, integer_pixel_centers=integer, background_color=[F(-1)] * nc)
        return s, w, None
    check_gradients(j, names, build, wrt)
