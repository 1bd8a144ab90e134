"""C11: gradients of the antialiased error buffer are exact."""
import C10_edge_gradients as c10
import ref2d
from cmp2d import pixels
from gradcheck import dual_scene, strip, tangent
from sym import Num

BOUNDS = c10.BOUNDS.replace("incoming gradient at every pixel and channel", "error gradient at every pixel, symbolic observations")
ASSUMPTIONS = c10.ASSUMPTIONS
KEY = "error-gradient-row-offset"


def known_offset(path, s, w, obs, grp, i, got, x):
    """KEY when the gradient is exactly the one obtained when the colour of untextured edges at column 0 of every row is treated as a constant"""
    d, idx = dual_scene(s, ("ij", "colors"))
    t = [t for g, k, t in idx if (g, k) == (grp, i)]
    if not t:
        return None
    try:
        r = ref2d.Ref(d, obs3(s, obs), detach=strip)
        e = 0
        for px, py in pixels(s):
            e = e + w[py * s.width + px] * tangent(r.pixel(px, py)[2], t[0])
    except ref2d.Skip:
        return None
    return KEY if path.prove_zero([got - e], "known finding") is None else None


def obs3(s, obs):
    n = s.nb_colors
    return [[obs[(y * s.width + x) * n:(y * s.width + x + 1) * n] for x in range(s.width)] for y in range(s.height)]


def jobs(tier):
    slow = ("line1_tex_cw0", "line2_tex_cw1", "line1_tex_cw1", "line2_tex_cw0", "line2_axis", "line1_behindflag", "line2_cw0")      # thorough only
    return [(n, dict(p, n=2 if "T_" not in n else p["n"])) for n, p in c10.jobs(tier) if tier == "thorough" or n not in slow]


def run_job(j, **kw):
    c10.run_job(j, error=True, known=known_offset, **kw)
