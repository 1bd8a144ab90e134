"""C04: back faces and faces with a vertex behind the camera are never drawn."""
from fractions import Fraction as F

import cmp2d
import render
from cmp2d import forward_check
from geom import close
from render import Scene2
from sym import Num

BOUNDS = ("one triangle with one vertex anywhere in R^2 and a symbolic depth (any sign) for each vertex in turn, the others concrete; and two "
          "triangles where the second is drawn behind; both clockwise flags, culling on and off, untextured and textured, image, antialiased "
          "edges (sigma>0, all flagged) and gradients; 2x2 and 3x3 grids")
ASSUMPTIONS = ["doubles are exact real numbers", "NaN and infinite depths are outside the bound"]

CONF = [((F(-1), F(-1, 2)), (F(5, 2), F(1, 3))), ((F(0), F(0)), (F(0), F(2))), ((F(1, 2), F(5)), (F(3, 2), F(-4)))]


def jobs(tier):
    out = []
    for ci in range(len(CONF)):
        for cw in (True, False):
            for cull in (True, False):
                for tex in (False, True):
                    if tier == "quick" and tex and ci:
                        continue
                    out.append((f"draw{ci}_cw{int(cw)}_c{int(cull)}_t{int(tex)}", dict(kind="draw", ci=ci, cw=cw, cull=cull, tex=tex, zi=ci)))
            for tex in (False, True):
                if tier == "quick" and tex and ci:
                    continue
                for err in (False, True):
                    out.append((f"quiet{ci}_cw{int(cw)}_t{int(tex)}_e{int(err)}", dict(kind="quiet", ci=ci, cw=cw, cull=True, tex=tex, zi=ci, err=err)))
    return out


def run_job(j, kind, ci, cw, cull, tex, zi, err=False):
    b, c = CONF[ci]

    def build(v):
        ij = [list(b), list(c)]
        ij.insert(ci % 3, [v[0], v[1]])
        d = [F(2), F(3), F(5)]
        d[zi] = v[2]
        ij += [[F(-9), F(-9)], [F(30), F(-9)], [F(-9), F(30)]]
        back = [3, 4, 5] if cw else [3, 5, 4]
        return Scene2(faces=[[0, 1, 2], back], depths=d + [9, 9, 9], ij=ij, colors=[[F(1)]] * 3 + [[F(4)]] * 3, shade=[F(1)] * 6,
                      uv=[[F(0), F(0)], [F(1), F(0)], [F(0), F(1)]], faces_uv=[[0, 1, 2], [0, 1, 2]], textured=[int(tex), 0], shaded=[int(tex), 0],
                      texture=[[[F(2)], [F(3)]], [[F(5)], [F(7)]]], height=2, width=2, clockwise=cw, backface_culling=cull,
                      edgeflags=[[1, 1, 1], [0, 0, 0]], sigma=0 if kind == "draw" else F(3, 2))

    names = ["ax", "ay", "z"]
    if kind == "draw":
        forward_check(j, names, build)
        return

    # back-facing or behind: nothing is drawn, no edge is blended, no gradient is produced
    def pre(v):
        return []

    ob = [[[F(3)], [F(2)]], [[F(1)], [F(7)]]] if err else None

    def prog(v):
        s = build(v)
        a = (v[2] < 0) or ((s.ij[1][0] - s.ij[0][0]) * (s.ij[2][1] - s.ij[0][1]) - (s.ij[2][0] - s.ij[0][0]) * (s.ij[1][1] - s.ij[0][1])) * (1 if cw else -1) <= 0
        if not a:
            return None
        o = render.ir_forward(s, ob)
        if err:
            g = render.ir_backward(s, o.image, o.z, obs=ob, err=o.err, err_b=[F(1), F(2), F(3), F(5)])
        else:
            g = render.ir_backward(s, o.image, o.z, image_b=[F(1), F(2), F(3), F(5)])
        return s, o, g

    def grads(g, s):
        out = []
        for v in s.faces[0]:
            out += [g.ij_b[2 * v], g.ij_b[2 * v + 1], g.shade_b[v], g.colors_b[v]]
        return out + list(g.uv_b) + list(g.texture_b)

    def expected(s, o):
        out = [a - 9 for a in o.z] + [a - 4 for a in o.image]
        if err:
            out += [e - (4 - q[0]) ** 2 for e, q in zip(o.err, [q for row in ob for q in row])]
        return out

    def check(path, res):
        if res is None:
            return None
        s, o, g = res
        f = path.prove_zero(expected(s, o) + grads(g, s), "not drawn")
        if f is not None:
            return report(path, s, f[1])
        j.sample({"witness": [str(q) for q in path.ctx.witness]})
        return None

    def report(path, s, wit):
        for w in (wit, path.q.interior(path.lits()), path.ctx.witness):
            if w is None:
                continue
            c = s.at(w)
            n = render.native(c, ob, backward=dict(err_b=[1, 2, 3, 5]) if err else dict(image_b=[1, 2, 3, 5]))
            vals = [float(x) for x in expected(c, n) + grads(n, c)]
            if n.rc or n.rcb or any(not (abs(x) < 1e-9) for x in vals):
                return j.violation(j.name, "a triangle that is back-facing or behind the camera changes the image or the gradients", dict(scene=c.describe()), True)
        return j.violation(j.name, "not drawn", dict(scene=s.at(wit).describe()), False)

    def on_cut(path, cut):
        return report(path, build(e.vars), path.ctx.witness)
    e = j.explorer(names, pre)
    if e.run(prog, check, on_cut) is False:
        j.incomplete.append(j.name)
