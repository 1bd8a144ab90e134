"""C07: silhouette antialiasing blends exactly a sigma-wide band outside flagged edges."""
from fractions import Fraction as F

from cmp2d import forward_check, differs, pixels
import edgescenes
import render

BOUNDS = edgescenes.BOUNDS
ASSUMPTIONS = edgescenes.ASSUMPTIONS


def jobs(tier):
    return edgescenes.jobs(tier)


def run_job(j, **kw):
    names, build, pre = edgescenes.scene(**kw)

    def unchanged_z(path, s, ob, o, r):
        # the z buffer is the one of the rendering without antialiasing
        s0 = type(s).__new__(type(s))
        s0.__dict__.update(s.__dict__)
        s0.sigma = 0
        o0 = render.ir_forward(s0)
        ds = [differs(a, b) for a, b in zip(o.z, o0.z)]
        f = path.prove([[]], "z") if True in [d is True for d in ds] else path.prove_zero([d for d in ds if d is not None], "z buffer unchanged")
        if f is not None:
            c = s.at(f[1])
            c0 = s0.at(f[1])
            bad = render.native(c).z != render.native(c0).z
            return j.violation(j.name + ":z", "the z buffer is changed by edge antialiasing", dict(scene=c.describe()), bad)
        return None
    forward_check(j, names, build, pre, extra=unchanged_z)
