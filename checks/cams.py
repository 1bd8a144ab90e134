"""symbolic cameras"""
import numpy as np

import pysym
from pycheck import arr


def rotation(p):
    """rotation of the unit quaternion with stereographic parameters p (every rotation except a half turn's limit point)"""
    x, y, z = p
    n = 1 + x * x + y * y + z * z
    x, y, z, w = 2 * x / n, 2 * y / n, 2 * z / n, (2 - n) / n
    return arr([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


ROT = ["ra", "rb", "rc"]
TR = ["tx", "ty", "tz"]
K = ["fx", "skew", "cx", "fy", "cy"]
DIST = ["k1", "k2", "p1", "p2", "k3"]


def intrinsic(v):
    return arr([[v[0], v[1], v[2]], [0, v[3], v[4]], [0, 0, 1]])


def names(n, dist=False, points="q"):
    return ROT + TR + K + (DIST if dist else []) + [f"{points}{i}" for i in range(3 * n)]


class Cam:
    """camera and world points built from the symbolic values; the points are given in the camera frame (q) and mapped to the world, which
    reaches every world point"""

    def __init__(self, v, n, dist=False, height=4, width=5, cls=None, dist_list=False):
        R = pysym.module("differentiable_renderer")
        self.R = rotation(v[:3])
        self.t = arr(v[3:6])
        self.K = intrinsic(v[6:11])
        k = 16 if dist else 11
        self.dist = arr(v[11:16]) if dist else None
        self.q = arr(v[k:k + 3 * n]).reshape(n, 3)
        self.rest = v[k + 3 * n:]
        self.world = (self.q - self.t).dot(self.R)
        d = list(self.dist) if dist_list and dist else self.dist
        self.cam = (cls or R.Camera)(extrinsic=np.column_stack((self.R, self.t)), intrinsic=self.K, height=height, width=width, distortion=d)

    def expected(self, q=None):
        """OpenCV model: image points (list) of camera frame points"""
        out = []
        for x, y, z in (self.q if q is None else q):
            x, y = x / z, y / z
            if self.dist is not None:
                k1, k2, p1, p2, k3 = self.dist
                r2 = x * x + y * y
                rad = 1 + r2 * (k1 + r2 * (k2 + r2 * k3))
                x, y = x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x * x), y * rad + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y
            out.append([self.K[0, 0] * x + self.K[0, 1] * y + self.K[0, 2], self.K[1, 1] * y + self.K[1, 2]])
        return np.array(out)


def pre_points(n, dist):
    k = 16 if dist else 11

    def pre(v):
        return [(v[k + 3 * i + 2], ">") for i in range(n)]
    return pre
