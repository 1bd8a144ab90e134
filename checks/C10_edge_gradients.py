"""C10: image gradients through antialiased silhouette edges are exact."""
from fractions import Fraction as F

import edgescenes
from gradcheck import check_gradients

BOUNDS = edgescenes.BOUNDS + ("; symbolic incoming gradient at every pixel and channel; derivatives with respect to every vertex coordinate, colour, shade, texture coordinate and texel; "
                              "paths on which a comparison holds with equality are left open (not differentiable there) except that gradients must be finite")
ASSUMPTIONS = edgescenes.ASSUMPTIONS + ["derivatives of the executed forward code are computed with dual numbers; replays use finite differences of the compiled renderer"]


def jobs(tier, error=False):
    J = edgescenes.J
    o = []
    geo, tx = ("ij", "colors"), ("ij", "shade", "uv", "texture")

    def add(name, wrt=None, **kw):
        n, d = J(name, **kw)
        d["wrt"] = wrt or (tx if kw.get("tex") else geo)
        o.append((n, d))
    for li in range(3):
        for cw in (True, False):
            add(f"line{li}_cw{int(cw)}", mode="line", line=li, cw=cw, flags=(1, 1, 1), integer=cw != (li == 1), n=2, nc=2 if li == 2 else 1)
            add(f"line{li}_tex_cw{int(cw)}", mode="line", line=li, cw=cw, flags=((1, 0, 1), (1, 1, 0), (0, 1, 1))[li], tex=True, n=2, integer=li != 1)
        add(f"line{li}_wide", mode="line", line=li, flags=(0, 1, 1), n=2, sigma="3", integer=False)
        add(f"line{li}_small", mode="line", line=li, shape="small", flags=(1, 0, 1), n=3)
        add(f"line{li}_axis", mode="line", line=li, shape="axis", flags=(1, 1, 1), n=2, sigma="3/2", cw=li != 1, tex=li == 2)
        for sec in ("behindflag", "frontflag", "crossflag"):
            add(f"line{li}_{sec}", mode="line", line=li, flags=(1, 1, 0), second=sec, n=2, cw=li != 0, tex=li == 1)
    add("sigma", mode="sigma", flags=(1, 1, 1), n=2)
    add("sigmatex", mode="sigma", flags=(0, 1, 1), tex=True, n=2, cw=False)
    add("depth", mode="depth", flags=(0, 1, 0), second="behindflag", n=2)
    add("depthtex", mode="depth", flags=(1, 1, 0), second="behindflag", n=2, tex=True, cw=False)
    if tier == "thorough":
        add("T_plane_cw1", flags=(0, 1, 0))
        add("T_plane_cw0", flags=(1, 0, 0), cw=False, integer=False)
        add("T_plane_tex", flags=(0, 1, 0), tex=True, cw=False)
        for li in range(3):
            add(f"T_line{li}_three", mode="line", line=li, flags=(1, 1, 1), n=3)
            add(f"T_line{li}_threetex", mode="line", line=li, flags=(1, 1, 1), n=3, tex=True, cw=False)
            for sec in ("behindflag", "frontflag", "crossflag"):
                add(f"T_line{li}_{sec}", mode="line", line=li, flags=(1, 1, 1), second=sec, n=3, tex=li != 1)
    return o


def run_job(j, wrt, error=False, known=None, **kw):
    names, build0, pre = edgescenes.scene(**kw)
    h, w, nc = edgescenes.sizes(**kw)
    k = len(names)
    m = h * w if error else h * w * nc
    names = list(names) + [f"w{i}" for i in range(m)]
    if error:
        names += [f"o{i}" for i in range(h * w * nc)]

    def build(v):
        s = build0(v[:k])
        return s, list(v[k:k + m]), list(v[k + m:]) if error else None
    check_gradients(j, names, build, wrt, (lambda v: pre(v[:k])) if pre else None, known=known)
