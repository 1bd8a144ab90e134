"""C16: the projection adjoint is the exact derivative of the projection."""
import numpy as np

import cams
import pysym
from pycheck import arr, check, gradient_entries

BOUNDS = ("one and two points in front of the camera (camera-frame coordinates symbolic), every rotation, translation, focal lengths, skew, principal point, distortion coefficients and "
          "incoming gradients of image points and depths symbolic")
ASSUMPTIONS = ["doubles are exact real numbers"]


def jobs(tier):
    o = []
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for d in (False, True):
            for depth in (False, True):
                o.append((f"adjoint_n{n}_{'dist' if d else 'pinhole'}{'_depth' if depth else ''}", dict(n=n, dist=d, depth=depth)))
    return o


def run_job(j, n, dist, depth):
    names = cams.names(n, dist) + [f"w{i}" for i in range((3 if depth else 2) * n)]

    def fn(v):
        c = cams.Cam(v, n, dist)
        w = arr(c.rest[:2 * n]).reshape(n, 2)
        wd = arr(c.rest[2 * n:]) if depth else None

        def fwd(i):
            p, d = c.cam.project_points(i["points"])
            return [p, d] if depth else [p]

        def back(i, ws):
            st = {}
            c.cam.project_points(i["points"], store_backward=st)
            w0 = ws[0].copy()
            g = c.cam.project_points_backward(ws[0], store_backward=st, **(dict(depths_b=ws[1]) if depth else {}))
            return dict(points=g)
        return gradient_entries(dict(points=c.world), ("points",), fwd, back, [w, wd] if depth else [w])
    check(j, names, fn, cams.pre_points(n, dist))
