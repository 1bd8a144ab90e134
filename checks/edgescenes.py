"""scenes with flagged edges used by C07, C08, C10 and C11"""
from fractions import Fraction as F

from render import Scene2

BOUNDS = ("one or two triangles whose edges have rational lengths, the first one translated by a symbolic (tx,ty) anywhere in R^2 or by any t in R along a line crossing the screen (colours symbolic too); "
          "the second one fixed in front of, behind or crossing it; or symbolic sigma>0, or symbolic depths; every combination of flags that is listed; both "
          "windings and clockwise flags, pixel-centre conventions, untextured, textured, perspective-correct; grids 2x2 and 3x3 (quick), up to 4x4 (thorough)")
ASSUMPTIONS = ["doubles are exact real numbers", "the triangle shapes are concrete (rational side lengths); positions, sigma, depths and colours are symbolic",
               "pixels exactly on the border of a band or at an exact depth tie are left open"]


def rot(p, c, s):
    return (p[0] * c - p[1] * s, p[0] * s + p[1] * c)


H = [(F(0), F(0)), (F(14, 5), F(0)), (F(1), F(12, 5))]              # sides 14/5, 13/5, 3
SHAPES = {
    "heron": [rot(p, F(3, 5), F(4, 5)) for p in H],                 # no axis aligned edge
    "axis": [(F(0), F(0)), (F(12, 5), F(0)), (F(0), F(9, 5))],      # two axis aligned edges
    "small": [rot((p[0] / 4, p[1] / 4), F(4, 5), F(-3, 5)) for p in H],
    "sliver": [(F(0), F(0)), (F(32, 5), F(24, 5)), (F(-9, 25), F(12, 25))],   # sides 8, 3/5 and an irrational one
}
SECOND = [(q[0] + F(3, 5), q[1] - F(5, 2)) for q in (rot((5 * p[0], 5 * p[1]), F(5, 13), F(12, 13)) for p in H)]


def J(name, **kw):
    d = dict(shape="heron", flags=(1, 1, 1), cw=True, integer=True, tex=False, persp=False, sigma="1", second=None, n=2, mode="move", nc=1, line=0)
    d.update(kw)
    return (name, d)


def jobs(tier):
    o = []
    # translations over the whole plane
    o.append(J("plane_cw1", flags=(0, 1, 0)))
    o.append(J("plane_cw0", flags=(1, 0, 0), cw=False, integer=False))
    o.append(J("plane_tex", flags=(0, 1, 0), tex=True, cw=False))
    o.append(J("plane_axis", shape="axis", flags=(1, 0, 0), sigma="3/2"))
    # translations along lines, each line crossing the whole screen
    for li in range(3):
        for cw in (True, False):
            o.append(J(f"line{li}_cw{int(cw)}", mode="line", line=li, cw=cw, flags=(1, 1, 1), integer=cw != (li == 1), n=3, nc=2 if li == 2 else 1))
            o.append(J(f"line{li}_tex_cw{int(cw)}", mode="line", line=li, cw=cw, flags=((1, 0, 1), (1, 1, 0), (0, 1, 1))[li], tex=True, n=3, integer=li != 1))
        o.append(J(f"line{li}_axis", mode="line", line=li, shape="axis", flags=(1, 1, 1), n=3, sigma="3/2", cw=li != 1))
        o.append(J(f"line{li}_wide", mode="line", line=li, flags=(0, 1, 1), n=3, sigma="3", integer=False))
        o.append(J(f"line{li}_small", mode="line", line=li, shape="small", flags=(1, 0, 1), n=3))
        o.append(J(f"line{li}_persp", mode="line", line=li, flags=(1, 1, 1), persp=True, n=2 + (li == 0), cw=li != 2))
        o.append(J(f"line{li}_persptex", mode="line", line=li, flags=(1, 1, 0), persp=True, tex=True, n=2))
        for sec in ("behind", "front", "cross", "behindflag", "frontflag", "crossflag"):
            o.append(J(f"line{li}_{sec}", mode="line", line=li, flags=(1, 1, 0), second=sec, n=2, cw=li != 0, tex=li == 1))
    o.append(J("none", mode="line", line=0, flags=(0, 0, 0), n=3))
    o.append(J("sigma", mode="sigma", flags=(1, 1, 1), n=3))
    o.append(J("sigma_sliver", mode="sigma", shape="sliver", flags=(1, 0, 0), n=3, integer=False))
    o.append(J("sigmatex", mode="sigma", flags=(0, 1, 1), tex=True, n=3, cw=False))
    o.append(J("depth", mode="depth", flags=(0, 1, 0), second="behindflag", n=3))
    o.append(J("depthtex", mode="depth", flags=(1, 1, 0), second="behindflag", n=2, tex=True, cw=False))
    if tier == "thorough":
        for cw in (True, False):
            for fl in ((0, 0, 1), (1, 1, 0)):
                for tex in (False, True):
                    o.append(J(f"T_cw{int(cw)}_{fl[0]}{fl[1]}{fl[2]}_t{int(tex)}", cw=cw, flags=fl, integer=not cw, tex=tex))
            o.append(J(f"T_three_cw{int(cw)}", cw=cw, flags=(0, 1, 0), n=3, tex=cw))
            o.append(J(f"T_cross_cw{int(cw)}", cw=cw, flags=(1, 0, 0), second="cross", tex=cw))
            o.append(J(f"T_front_cw{int(cw)}", cw=cw, flags=(1, 0, 0), second="frontflag"))
            o.append(J(f"T_persp_cw{int(cw)}", cw=cw, flags=(1, 0, 0), persp=True, tex=not cw))
        for li in range(3):
            o.append(J(f"T_line{li}_five", mode="line", line=li, flags=(1, 1, 1), n=5, sigma="5/2", tex=li == 1))
            o.append(J(f"T_line{li}_sliver", mode="line", line=li, shape="sliver", flags=(1, 0, 0), n=4))
            for sec in ("behindflag", "frontflag", "crossflag"):
                o.append(J(f"T_line{li}_{sec}", mode="line", line=li, flags=(1, 1, 1), second=sec, n=3, cw=li != 0, tex=li == 1))
    return o


LINES = [((F(-5, 3), F(0)), (F(1), F(2, 7))), ((F(1, 3), F(-2)), (F(-1, 5), F(1))), ((F(-3), F(-4)), (F(1), F(11, 10)))]


def sizes(n, nc, **kw):
    return n, n, nc


def scene(shape, flags, cw, integer, tex, persp, sigma, second, n, mode, nc, line):
    base = SHAPES[shape]
    names = {"move": ["tx", "ty"], "line": ["t"], "sigma": ["sigma"], "depth": ["z0", "z1", "z2"]}[mode]
    k0 = len(names)
    names = list(names)
    nsh = 3
    if tex:
        names += [f"t{i}" for i in range(4 * nc)] + [f"l{i}" for i in range(nsh)]
    else:
        names += [f"c{i}" for i in range(3 * nc)]
    names += [f"g{i}" for i in range(nc)]

    def build(v):
        p, r = list(v[:k0]), list(v[k0:])
        nb = r[len(r) - nc:]
        tx, ty = (p[0], p[1]) if mode == "move" else (F(-1, 3), F(-2, 7))
        if mode == "line":
            (bx, by), (dx, dy) = LINES[line]
            tx, ty = bx + dx * p[0], by + dy * p[0]
        ij = [[a + tx, b + ty] for a, b in base]
        depths = [F(2), F(3), F(5, 2)]
        if mode == "depth":
            depths = p
        sg = p[0] if mode == "sigma" else F(sigma)
        face = [0, 1, 2]
        fl = list(flags)
        if not cw:
            # front facing for the other convention; edge k of a face is between its vertices k and k+1
            face = [0, 2, 1]
            fl = [flags[2], flags[1], flags[0]]
        faces, edgeflags, textured = [face], [fl], [int(tex)]
        if tex:
            texture = [[r[0:nc], r[nc:2 * nc]], [r[2 * nc:3 * nc], r[3 * nc:4 * nc]]]
            shade = r[4 * nc:4 * nc + 3]
            colors = [[F(1)] * nc] * 3
        else:
            texture = None
            shade = [F(0)] * 3
            colors = [r[nc * i:nc * i + nc] for i in range(3)]
        if second:
            ij += [list(q) for q in SECOND]
            colors = colors + [[F(11)] * nc, [F(13)] * nc, [F(17)] * nc]
            shade = shade + [F(1), F(2), F(3)]
            dz = {"behind": [9, 10, 9], "front": [1, 1, F(1, 2)], "cross": [1, 4, 3]}[second.replace("flag", "")]
            depths = list(depths) + [F(z) for z in dz]
            faces.append([3, 4, 5] if cw else [3, 5, 4])
            fl2 = [1, 0, 1] if second.endswith("flag") else [0, 0, 0]
            edgeflags.append(fl2)
            textured.append(0)
        return Scene2(faces=faces, faces_uv=[[2, 0, 1] if cw else [2, 1, 0]] * len(faces), depths=depths, ij=ij, colors=colors, shade=shade,
                      uv=[[F(-1, 3), F(1, 2)], [F(2, 3), F(3, 4)], [F(1, 2), F(1, 4)]], textured=textured, shaded=textured, edgeflags=edgeflags,
                      texture=texture, nb_colors=nc, height=n, width=n, clockwise=cw, integer_pixel_centers=integer, sigma=sg,
                      perspective_correct=persp, background_color=nb)

    def pre(v):
        if mode == "sigma":
            return [(v[0], ">")]
        if mode == "depth":
            return [(z, ">") for z in v[:3]]
        return []
    return names, build, pre
