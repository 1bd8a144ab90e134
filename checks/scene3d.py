"""3D scenes for the checks of Scene3D; the 2D renderer is replaced by an arbitrary one (symbolic image and gradients)"""
import contextlib

import numpy as np

import cams
import meshes
import pysym
from pycheck import arr


class Renderer:
    """records the scenes handed over; returns the given image, adds the given gradients"""

    def __init__(self, image=None, z=None, grads=None):
        self.calls = []
        self.image, self.z, self.grads = image, z, grads or {}

    def __call__(self, kind, scene, sigma, image, z, image_b, aa, obs, err, err_b):
        self.calls.append(dict(kind=kind, scene=scene, sigma=sigma, image_shape=np.shape(image), z_shape=np.shape(z), image_b=image_b, aa=aa, obs=obs, err=err, err_b=err_b,
                               image_in=np.array(image, copy=True), z_in=np.array(z, copy=True)))
        if kind == "render":
            if self.image is not None and np.shape(self.image) == np.shape(image):
                image[...] = self.image
            else:
                image[...] = pysym.N(0) if pysym.SYM else 0
            if self.z is not None and np.shape(self.z) == np.shape(z):
                z[...] = self.z
            else:
                z[...] = pysym.N(0) if pysym.SYM else 0
        else:
            for k, g in self.grads.items():
                b = getattr(scene, k)
                b[...] = b + g

    @contextlib.contextmanager
    def installed(self):
        old = pysym.INTERCEPT
        pysym.INTERCEPT = self
        try:
            yield self
        finally:
            pysym.INTERCEPT = old


def lit(n, light, ambient):
    """luminosity of normals"""
    out = []
    for r in n:
        d = -meshes.dot(r, light) if light is not None else 0
        out.append((d if d > 0 else 0) + ambient)
    return out


def normals(faces, x, cw, nv):
    """vertex normals by definition"""
    sq = pysym.np_proxy.sqrt
    fn = []
    for f in faces:
        d = meshes.face_cross(f, x)
        if cw:
            d = [-q for q in d]
        l = sq(meshes.dot(d, d))
        fn.append([q / l for q in d])
    out = []
    for i in range(nv):
        inc = [n for n, f in zip(fn, faces) if i in f]
        s = [sum(n[c] for n in inc[1:]) + inc[0][c] for c in range(3)]
        if len(inc) == 1:
            out.append(s)
            continue
        l = sq(meshes.dot(s, s))
        out.append([q / l for q in s])
    return out


def set_normals(M, n):
    """mesh class whose vertex normals are the given array and that records the gradient it receives"""
    class Mesh(M.ColoredTriMesh):
        recorded = None

        def compute_vertex_normals(self):
            pass

        @property
        def vertex_normals(self):
            return n

        def compute_vertex_normals_backward(self, nb):
            self.recorded = nb
    return Mesh


def zeros(*shape):
    return arr(np.zeros(shape))


def nondegenerate(faces, x):
    return [(meshes.dot(c, c), ">") for c in (meshes.face_cross(f, x) for f in faces)]
