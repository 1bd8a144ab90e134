"""C08: the antialiased error buffer is the blended squared colour difference."""
from cmp2d import forward_check, differs
import edgescenes
import render

BOUNDS = edgescenes.BOUNDS + "; observed image symbolic"
ASSUMPTIONS = edgescenes.ASSUMPTIONS


def jobs(tier):
    return edgescenes.jobs(tier)


def run_job(j, **kw):
    names, build0, pre = edgescenes.scene(**kw)
    names0 = len(names)
    s0 = edgescenes.sizes(**kw)
    h, w, nc = s0
    names = names + [f"o{i}" for i in range(h * w * nc)]

    def build(v):
        s = build0(v[:names0])
        o = v[names0:]
        return s, [[[o[(y * w + x) * nc + c] for c in range(nc)] for x in range(w)] for y in range(h)]

    def plain_image(path, s, ob, o, r):
        # the image itself is rendered without edge blending
        s0 = type(s).__new__(type(s))
        s0.__dict__.update(s.__dict__)
        s0.sigma = 0
        o0 = render.ir_forward(s0)
        ds = [differs(a, b) for a, b in zip(o.image + o.z, o0.image + o0.z)]
        f = path.prove([[]], "image") if True in [d is True for d in ds] else path.prove_zero([d for d in ds if d is not None], "image without blending")
        if f is not None:
            from cmp2d import evo
            c = s.at(f[1])
            c0 = s0.at(f[1])
            a, b = render.native(c, evo(ob, f[1])), render.native(c0)
            return j.violation(j.name + ":image", "the image is blended although the error is antialiased", dict(scene=c.describe()), a.image != b.image or a.z != b.z)
        return None
    forward_check(j, names, build, (lambda v: pre(v[:names0])) if pre else None, extra=plain_image)
