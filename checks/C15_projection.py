"""C15: the projection follows OpenCV's pinhole and distortion model."""
import numpy as np

import cams
import pysym
from pycheck import arr, check, facts, pairs

BOUNDS = ("one and two points in front of the camera (camera-frame coordinates symbolic), every rotation (stereographic quaternion parameters symbolic), translation, focal lengths, skew, "
          "principal point and the five distortion coefficients symbolic; without and with distortion, distortion as array or list, with and without depths and stored intermediates")
ASSUMPTIONS = ["doubles are exact real numbers"]


def jobs(tier):
    o = []
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for d in (False, True):
            o.append((f"project_n{n}_{'dist' if d else 'pinhole'}", dict(n=n, dist=d)))
    o += [("distortion_list", dict(n=1, dist=True, variant="list")), ("points_only", dict(n=2, dist=True, variant="nodepth")), ("stored", dict(n=1, dist=True, variant="store")),
          ("stored_pinhole", dict(n=2, dist=False, variant="store")), ("zero_distortion", dict(n=1, dist=False, variant="zero")), ("helpers", dict(n=2, dist=False, variant="help")),
          ("behind", dict(n=1, dist=True, variant="behind"))]
    return o


def run_job(j, n, dist, variant=""):
    names = cams.names(n, dist)

    def fn(v):
        c = cams.Cam(v, n, dist, dist_list=variant == "list")
        cam = c.cam
        if variant == "zero":
            cam.distortion = arr([0, 0, 0, 0, 0])
        if variant == "nodepth":
            return pairs("image points", cam.project_points(c.world, return_depths=False), c.expected())
        if variant == "help":
            e = pairs("camera frame", cam.world_to_camera(c.world), c.q)
            return e + pairs("intrinsic", cam.left_mul_intrinsic(c.q[:, :2]), c.expected(np.column_stack((c.q[:, :2], arr([1] * n)))))
        if variant == "store":
            p, d = cam.project_points(c.world, store_backward={})
        else:
            p, d = cam.project_points(c.world)
        return pairs("image points", p, c.expected()) + pairs("depths", d, c.q[:, 2])
    k = 16 if dist else 11
    pre = (lambda v: [(v[k + 3 * i + 2], "<") for i in range(n)]) if variant == "behind" else cams.pre_points(n, dist)
    check(j, names, fn, pre)
