"""C17: camera frames and default cameras."""
import math

import numpy as np

import cams
import pysym
from pycheck import arr, check, facts, pairs

BOUNDS = ("every rotation (stereographic quaternion parameters symbolic), translation or camera centre, intrinsic matrix, distortion, field of view strictly between 0 and 180 degrees (through its "
          "tangent, an independent symbolic value), concrete image sizes; default cameras: two and three vertices with symbolic coordinates in the camera axes that do not all coincide")
ASSUMPTIONS = ["doubles are exact real numbers", "tangent and arctangent are inverse functions of each other and nothing else is known about them"]


def jobs(tier):
    o = [("center", dict(kind="center")), ("matrix", dict(kind="matrix"))]
    for w, h in ((5, 4), (4, 7)):
        o += [(f"perspective_{w}x{h}", dict(kind="persp", w=w, h=h)), (f"perspective_norot_{w}x{h}", dict(kind="persp", w=w, h=h, rot=False)),
              (f"distorted_{w}x{h}", dict(kind="distorted", w=w, h=h)), (f"fov_{w}x{h}", dict(kind="fov", w=w, h=h))]
        for n in (2,) if tier == "quick" else (2, 3):
            o.append((f"default_{w}x{h}_n{n}", dict(kind="default", w=w, h=h, n=n)))
    return o


def angle(v_fov, v_tan):
    """field of view in degrees for the tangent of its half"""
    if pysym.SYM:
        pysym.TANPOOL[:] = [pysym.N(v_tan)]
        return pysym.N(v_fov)
    return 2 * math.degrees(math.atan(v_tan))


def run_job(j, kind, w=5, h=4, rot=True, n=0):
    R = pysym.module("differentiable_renderer")
    if kind in ("center", "matrix"):
        names = cams.names(1, True)

        def fn(v):
            c = cams.Cam(v, 1, True)
            if kind == "center":
                ctr = c.cam.get_center()
                return pairs("camera centre in the camera frame", c.cam.world_to_camera(ctr[None, :]), arr([[0, 0, 0]])) + facts("shape", np.shape(ctr), (3,))
            m = c.cam.camera_to_world_mtx_4x4()
            e = np.vstack((c.cam.extrinsic, arr([[0, 0, 0, 1]])))
            p = np.concatenate((c.q[0], arr([1])))
            return pairs("camera to world", m.dot(e), np.eye(4)) + pairs("world point", m.dot(p)[:3], c.world[0]) + facts("shape", np.shape(m), (4, 4))
        return check(j, names, fn, cams.pre_points(1, True))
    if kind in ("persp", "fov", "distorted"):
        names = ["fov", "T"] + cams.ROT + cams.TR + ["phi", "b"] + cams.DIST

        def fn(v):
            fov = angle(v[0], v[1])
            pysym.ANGLEPOOL[:] = [pysym.N(v[8])] if pysym.SYM else []
            c = arr(v[5:8])
            Q = cams.rotation(v[2:5])
            dist = arr(v[10:15]) if kind in ("fov", "distorted") else None
            cam = R.PerspectiveCamera(w, h, fov, c, Q if rot else None, dist)
            Qm = Q if rot else arr(np.eye(3))
            if kind == "fov":
                e = pairs("distortion", cam.distortion, dist) + facts("size", (cam.width, cam.height), (w, h))
                P = pysym.np_proxy
                T = pysym.N(v[1]) if pysym.SYM else v[1]
                for nm, g, x in (("xfov", cam.xfov, fov), ("yfov", cam.yfov, P.degrees(2 * P.arctan(T * h / w)))):
                    e += [(nm + " upper", (g - x) - 1e-9 * x, "<="), (nm + " lower", (g - x) + 1e-9 * x, ">=")]
                return e
            # the ray at half the field of view in the horizontal plane meets the border, the axis meets the centre
            T = pysym.N(v[1]) if pysym.SYM else v[1]
            rays = arr([[0, 0, 1], [T, 0, 1], [-T, 0, 1], [0, T, 1]])
            if kind == "distorted":
                f = arr([w / 2])[0] / T
                return (pairs("distortion", cam.distortion, dist) + pairs("intrinsic matrix", cam.intrinsic, np.array([[f, 0, w / 2], [0, f, h / 2], [0, 0, 1]], dtype=object))
                        + pairs("centre of projection", cam.get_center(), c) + facts("size", (cam.width, cam.height), (w, h)))
            pts = (rays * 2).dot(Qm) + c
            p, d = cam.project_points(pts)
            return (pairs("centre of projection", cam.get_center(), c) + pairs("projections", p, arr([[w / 2, h / 2], [w, h / 2], [0, h / 2], [w / 2, h / 2 + w / 2]]))
                    + pairs("depths", d, arr([2, 2, 2, 2])) + pairs("rotation", cam.world_to_camera(pts) - cam.world_to_camera(c[None, :]), rays * 2))

        def pre(v):
            return [(v[0], ">"), (180 - v[0], ">"), (v[1], ">"), (v[8], ">")]
        return check(j, names, fn, pre)
    names = ["fov", "T"] + cams.ROT + [f"x{i}" for i in range(3 * n)]

    def fn(v):
        fov = angle(v[0], v[1])
        Q = cams.rotation(v[2:5])
        x = arr(v[5:]).reshape(n, 3)
        cam = R.default_camera(w, h, fov, x.dot(Q), Q)
        p, d = cam.project_points(x.dot(Q))
        tol = 1e-9      # width / height is a rounded float in the code
        e = []
        for i in range(n):
            e += [(f"depth of vertex {i}", d[i], ">"), (f"column of vertex {i}", p[i, 0] + tol, ">="), (f"column of vertex {i} on the right", w + tol - p[i, 0], ">="),
                  (f"row of vertex {i}", p[i, 1] + tol, ">="), (f"row of vertex {i} at the bottom", h + tol - p[i, 1], ">=")]
        return e + facts("size", (cam.width, cam.height), (w, h))

    def pre(v):
        x = v[5:]
        d = (x[0] - x[3]) * (x[0] - x[3]) + (x[1] - x[4]) * (x[1] - x[4])
        return [(v[0], ">"), (180 - v[0], ">"), (v[1], ">"), (d, ">")]
    check(j, names, fn, pre)
