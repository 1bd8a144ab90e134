"""C18: quaternion rotation, normalisation, cross product and their adjoints."""
import numpy as np

import pysym
from pycheck import arr, check, facts, gradient_entries, pairs

BOUNDS = ("quaternions and vectors with all components symbolic in R (quaternions not unit); one and two vectors, one quaternion or a batch of two; normalisation along the last and "
          "the first axis, 2 and 3 components; incoming gradients symbolic; the inputs of a norm are bounded away from zero only by being non-zero")
ASSUMPTIONS = ["doubles are exact real numbers", "square roots are exact real square roots"]


def jobs(tier):
    o = [("rot_adjoint_n1", dict(kind="rotb", n=1)), ("rot_adjoint_n2", dict(kind="rotb", n=2)), ("rot_matrix", dict(kind="rot", n=2)), ("rot_batch", dict(kind="batch", n=2)),
         ("rot_isometry", dict(kind="iso", n=2)), ("rot_compose", dict(kind="comp", n=1)),
         ("cross", dict(kind="cross", n=2))]
    for sh, ax in (((2,), -1), ((3,), -1), ((2, 3), 1), ((2, 3), -1), ((3, 2), 0), ((1, 4), -1)):
        o.append((f"normalize_{sh}_{ax}", dict(kind="norm", n=0, shape=sh, axis=ax)))
        o.append((f"normalize_adjoint_{sh}_{ax}", dict(kind="normb", n=0, shape=sh, axis=ax)))
    if tier == "thorough":
        o += [("T_rot_adjoint_n3", dict(kind="rotb", n=3)), ("T_cross3", dict(kind="cross", n=4)), ("T_normb_33", dict(kind="normb", n=0, shape=(3, 3), axis=1)),
              ("T_norm_b234", dict(kind="normb", n=0, shape=(2, 2, 3), axis=2)), ("T_norm_b_axis1", dict(kind="normb", n=0, shape=(2, 2, 2), axis=1))]
    return o


def rotation(q):
    """rotation matrix of a quaternion (x, y, z, w) under the formula v + 2 w (u x v) + 2 u x (u x v)"""
    x, y, z, w = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]], dtype=object if pysym.SYM else float)


def unit(p):
    """unit quaternion from free parameters (stereographic: every unit quaternion but one)"""
    n = 1 + p[0] * p[0] + p[1] * p[1] + p[2] * p[2]
    return arr([2 * p[0] / n, 2 * p[1] / n, 2 * p[2] / n, (2 - n) / n])


def run_job(j, kind, n, shape=None, axis=None):
    t = pysym.module("tools")
    if kind in ("rotb", "rot"):
        names = [f"q{i}" for i in range(4)] + [f"v{i}" for i in range(3 * n)] + [f"w{i}" for i in range(3 * n)]

        def fn(v):
            q, p, w = arr(v[:4]), arr(v[4:4 + 3 * n]).reshape(n, 3), arr(v[4 + 3 * n:]).reshape(n, 3)
            if kind == "rot":
                return pairs("qrot", t.qrot(q, p), p.dot(rotation(q).T))

            def back(i, ws):
                a, b = t.qrot_backward(i["q"], i["v"], ws[0])
                return dict(q=a, v=b)
            return gradient_entries(dict(q=q, v=p), ("q", "v"), lambda i: [t.qrot(i["q"], i["v"])], back, [w])
    elif kind == "batch":
        names = [f"q{i}" for i in range(8)] + [f"v{i}" for i in range(6)]

        def fn(v):
            q, p = arr(v[:8]).reshape(2, 4), arr(v[8:]).reshape(2, 3)
            return pairs("qrot batch", t.qrot(q, p), np.stack([p.dot(rotation(q[k]).T) for k in range(2)]))
    elif kind == "iso":
        names = ["a", "b", "c"] + [f"v{i}" for i in range(6)]

        def fn(v):
            q, p = unit(v[:3]), arr(v[3:]).reshape(2, 3)
            r = t.qrot(q, p)
            rn = t.qrot(t.normalize(q), p)
            return (pairs("dot products", r.dot(r.T), p.dot(p.T)) + pairs("normalised quaternion", rn, r)
                    + pairs("orientation", t.qrot(q, np.cross(p[:1], p[1:]) if not pysym.SYM else pysym._cross(p[:1], p[1:])), np.cross(r[:1], r[1:]) if not pysym.SYM else pysym._cross(r[:1], r[1:])))
    elif kind == "comp":
        names = [f"a{i}" for i in range(3)] + [f"b{i}" for i in range(3)] + ["x", "y", "z"]

        def fn(v):
            a, b, p = unit(v[:3]), unit(v[3:6]), arr(v[6:]).reshape(1, 3)
            ab = arr([a[3] * b[0] + b[3] * a[0] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] + b[3] * a[1] + a[2] * b[0] - a[0] * b[2],
                      a[3] * b[2] + b[3] * a[2] + a[0] * b[1] - a[1] * b[0], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]])
            return pairs("composition", t.qrot(a, t.qrot(b, p)), t.qrot(ab, p))
    elif kind == "cross":
        names = [f"x{i}" for i in range(9 * n)]

        def fn(v):
            a = arr(v).reshape(3, n, 3)
            X = pysym._cross if pysym.SYM else np.cross

            def back(i, ws):
                p, q = t.cross_backward(i["u"], i["v"], ws[0])
                return dict(u=p, v=q)
            return gradient_entries(dict(u=a[0], v=a[1]), ("u", "v"), lambda i: [X(i["u"], i["v"])], back, [a[2]])
    else:
        size = int(np.prod(shape))
        names = [f"x{i}" for i in range(size)] + ([f"w{i}" for i in range(size)] if kind == "normb" else [])

        def fn(v):
            x = arr(v[:size]).reshape(shape)
            if kind == "norm":
                r = t.normalize(x, axis=axis)
                m = np.moveaxis(x, axis, -1).reshape(-1, shape[axis])
                k = np.moveaxis(r, axis, -1).reshape(-1, shape[axis])
                e = [] if r.shape == x.shape else [("shape", False, "bool")]
                for a, b in zip(m, k):
                    e += pairs("squared norm", sum(q * q for q in b), 1)
                    e.append(("direction", sum(p * q for p, q in zip(a, b)), ">"))
                    for p in range(len(a)):
                        for q in range(p):
                            e += pairs("parallel", a[p] * b[q], a[q] * b[p])
                return e
            return gradient_entries(dict(x=x), ("x",), lambda i: [t.normalize(i["x"], axis=axis)], lambda i, ws: dict(x=t.normalize_backward(i["x"], ws[0], axis=axis)), [arr(v[size:]).reshape(shape)])
    check(j, names, fn)
