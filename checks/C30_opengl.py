"""C30: the OpenGL renderer sends every vertex to the pixel and the colour of the camera model."""
import struct

import numpy as np

import cams
import glsl
import meshes
import pysym
from pycheck import arr, check, facts, pairs
from scene3d import zeros

BOUNDS = ("every camera rotation, translation, focal lengths, principal point (no skew: refused by the code) and distortion symbolic, both pixel centre conventions, two image sizes, clipping distances 0 < near < far "
          "symbolic, or the ones that render() takes from the scene; one or two symbolic points in front of the camera; whole scenes: a tetrahedron with symbolic position, light, ambient and texture coordinates")
ASSUMPTIONS = ["the GPU executes the shaders as written on real numbers and maps clip coordinates to the viewport as OpenGL specifies; single precision rounding is not modelled",
               "no OpenGL context exists here: the calls of the renderer to moderngl are recorded and its shaders are executed by the checker"]


class Uniform:
    value = None
    data = None

    def write(self, b):
        self.data = numbers(b)


class Program(dict):
    def __missing__(self, k):
        self[k] = Uniform()
        return self[k]


def numbers(b):
    return b.values if isinstance(b, pysym.Bytes) else [float(x) for x in struct.unpack(f"{len(b) // 4}f", b)]


class Ctx:
    """records what is handed to OpenGL"""

    def __init__(self):
        self.log = []
        self.size = None

    def program(self, vertex_shader, fragment_shader):
        self.prog = Program()
        self.vs, self.fs = glsl.Shader(vertex_shader), glsl.Shader(fragment_shader)
        return self.prog

    def buffer(self, b):
        return b

    def vertex_array(self, prog, content, *a, **k):
        ctx = self

        class V:
            def render(self, *a, **k):
                ctx.log.append("draw")
        self.content = content
        return V()

    def texture(self, size, components, data):
        self.tex = (size, components, data)
        ctx = self

        class T:
            def use(self, *a, **k):
                ctx.log.append("texture")
        return T()

    def renderbuffer(self, size, *a, **k):
        self.size = size
        return ("color", size)

    def depth_renderbuffer(self, size, *a, **k):
        return ("depth", size)

    def framebuffer(self, color, depth):
        ctx = self

        class B:
            width, height = color[1]

            def use(self):
                ctx.log.append("use")

            def read(self, components=3, alignment=1, **k):
                ctx.log.append("read")
                return bytes(range(self.width * self.height * components))
        self.color, self.depthsize = color, depth
        return B()

    def enable(self, x):
        self.log.append(("enable", x))

    def clear(self, *a, **k):
        self.log.append(("clear",) + a)


def jobs(tier):
    o = []
    for integer in (True, False):
        for dist in (False, True):
            o.append((f"camera_{int(integer)}_{int(dist)}", dict(kind="camera", integer=integer, dist=dist, w=7, h=4)))
        o.append((f"camera_tall_{int(integer)}", dict(kind="camera", integer=integer, dist=False, w=3, h=8)))
        o.append((f"scene_{int(integer)}", dict(kind="scene", integer=integer, w=5, h=4)))
        o.append((f"light_{int(integer)}", dict(kind="light", integer=integer, w=5, h=4)))
    o += [("order", dict(kind="order", integer=True, w=5, h=4)), ("pixels", dict(kind="pixels", integer=True, w=5, h=4))]
    return o


def run_job(j, kind, integer, w, h, dist=False):
    G = pysym.extra("opengl.moderngl")
    M = pysym.module("triangulated_mesh")
    R = pysym.module("differentiable_renderer")
    np_ = 2 if kind == "order" else 1
    M.TriMesh.check_orientation = lambda self: None

    def renderer():
        c = Ctx()
        real, mm = G.moderngl.create_standalone_context, G.Matrix44
        G.moderngl.create_standalone_context = lambda *a, **k: c
        if pysym.SYM:
            G.Matrix44 = pysym.obj
        return c, (real, mm)

    class installed:
        def __enter__(self):
            self.c, self.old = renderer()
            return self.c

        def __exit__(self, *a):
            G.moderngl.create_standalone_context, G.Matrix44 = self.old

    def uniforms(c):
        u = {}
        for name, (q, ty) in list(c.vs.io.items()) + list(c.fs.io.items()):
            if "uniform" in q and name in c.prog:
                x = c.prog[name]
                if x.data is not None:
                    n = int(ty[-1])
                    u[name] = glsl.Mat([glsl.Vec(x.data[i * n:i * n + n]) for i in range(n)]) if "mat" in ty else (glsl.Vec(x.data) if n > 1 else x.data[0])
                elif x.value is not None:
                    u[name] = glsl.Vec(x.value) if isinstance(x.value, (tuple, list, np.ndarray)) else x.value
        return u

    def attributes(c):
        o = {}
        for b, fmt, name in c.content:
            k = int(fmt[0])
            v = numbers(b)
            o[name] = [glsl.Vec(v[i:i + k]) for i in range(0, len(v), k)]
        return o

    def position(g, c, cam, e, what, p, d, near=None, far=None):
        """clip coordinates against the projected pixel (multiplied by the depth: no division)"""
        X, Y, Z, W = g["gl_Position"]
        off = pysym.F(1, 2) if integer else 0
        off = off if pysym.SYM else float(off)
        e += [(f"{what}: w", W, d), (f"{what}: column", (X + W) * w, 2 * (p[0] + off) * W), (f"{what}: row", (Y + W) * h, 2 * (p[1] + off) * W)]
        if near is not None:
            e += [(f"{what}: clip depth", Z * (far - near), (far + near) * W - 2 * far * near)]
        return X, Y, Z, W

    def cam_of(v, n=1):
        K = list(v[6:8]) + list(v[8:10])
        full = list(v[:6]) + [K[0], 0, K[1], K[2], K[3]] + list(v[10:])
        return cams.Cam(full, n, dist, height=h, width=w)
    cam_names = cams.ROT + cams.TR + ["fx", "cx", "fy", "cy"] + (cams.DIST if dist else []) + [f"q{i}" for i in range(3 * np_)]

    if kind in ("camera", "order"):
        names = ["near", "gap"] + cam_names

        def fn(v):
            with installed() as c:
                r = G.OffscreenRenderer()
                k = cam_of(v[2:], np_)
                one = arr(v[:2])
                r.znear, r.zfar, r.integer_pixel_centers = one[0], one[0] + one[1], integer
                r.set_camera(k.cam)
            p, d = k.cam.project_points(k.world)
            e, zs = [], []
            for i in range(np_):
                g = c.vs.run(dict(uniforms(c), in_vert=glsl.Vec(list(k.world[i])), in_norm=glsl.Vec([0, 0, 1]), in_text=glsl.Vec([0, 0])))
                zs.append(position(g, c, k, e, f"point {i}", p[i], d[i], r.znear, r.zfar))
            if kind == "order":      # the farther point has the larger normalized depth
                e.append(("order of the depths", zs[1][2] * zs[0][3] - zs[0][2] * zs[1][3], ">"))
            return e

        def pre(v):
            k = 2 + (15 if dist else 10)
            o = [(v[0], ">"), (v[1], ">")] + [(v[k + 3 * i + 2], ">") for i in range(np_)]
            if kind == "order":
                o.append((v[k + 5] - v[k + 2], ">"))
            return o
        return check(j, names, fn, pre, tol=2e-3)
    # whole scenes
    nv, faces = meshes.MESHES["tetra"]
    F_ = np.array(meshes.rotated(faces), dtype=np.uint32)
    fuv = np.array([[2, 0, 1], [1, 2, 4], [0, 3, 1], [4, 2, 3]], dtype=np.uint32)
    names = [f"l{i}" for i in range(3)] + ["am"] + [f"t{i}" for i in range(3)] + [f"u{i}" for i in range(10)]
    corner = np.array([[0, 0, 4], [1, 0, 5], [0, 1, 6], [0, 0, 9]]) if kind != "pixels" else np.array([[0, 0, 4], [3, 0, 5], [0, 2, 6], [-1, -1, 9]])
    TH, TW = 2, 3
    tex = np.arange(TH * TW * 3).reshape(TH, TW, 3) / 32

    def fn(v):
        v = list(v)
        light, amb, tr, uv = arr(v[:3]), v[3], arr(v[4:7]), arr(v[7:17]).reshape(5, 2)
        texture = tex.copy()
        texture.setflags(write=False)
        nrm = arr([[0, 0, 1], [2, 1, -2], [0, -3, 4], [1, 1, 1]])

        class Mesh(M.ColoredTriMesh):
            @property
            def vertex_normals(self):
                return nrm

        with installed() as c:
            m = Mesh(F_, arr(corner) + tr, uv=uv, faces_uv=fuv, texture=texture, nb_colors=3)
            m.texture = texture
            s = R.Scene3D(integer_pixel_centers=integer)
            s.set_mesh(m)
            s.set_light(light, pysym.N(amb) if pysym.SYM else float(amb))
            s.set_background_color(np.array([.25, .5, .75]))
            r = G.OffscreenRenderer()
            r.set_scene(s)
            cam = R.Camera(extrinsic=np.column_stack((arr(np.eye(3)), -tr)), intrinsic=arr([[5, 0, 2], [0, 6, 1], [0, 0, 1]]), height=h, width=w)
            img = r.render(cam)
        e = facts("image", img, np.arange(w * h * 3).reshape(h, w, 3)) + facts("frame buffer", (c.color[1], c.depthsize[1]), ((w, h), (w, h)))
        e += facts("drawn once", c.log.count("draw"), 1) + facts("cleared before drawing", [q[1:] for q in c.log if q[0] == "clear"], [(.25, .5, .75)])
        e += facts("order of the calls", ("draw" in c.log and "read" in c.log and [q for q in c.log if q in ("use", "draw", "read")] == ["use", "draw", "read"] and c.log.index("texture") < c.log.index("draw")
                                          and ("enable", G.moderngl.DEPTH_TEST) in c.log), True)
        size, comp, data = c.tex
        e += facts("texture size", list(size) + [comp], [TW, TH, 3]) + facts("texture data", np.frombuffer(data, dtype=np.uint8), (tex * 255).astype(np.uint8).ravel())
        at, u = attributes(c), uniforms(c)
        e += facts("vertices drawn", sorted(f"{k} {len(x)}" for k, x in at.items()), sorted(f"{k} {3 * len(faces)}" for k in ("in_vert", "in_norm", "in_text")))
        if not e[-1][1]:
            return e
        p, d = cam.project_points(m.vertices)
        for f in range(len(faces)):
            for q in range(3):
                k, a = int(F_[f][q]), 3 * f + q
                what = f"corner {q} of face {f}"
                g = c.vs.run(dict(u, **{n: x[a] for n, x in at.items()}))
                if kind == "scene" or kind == "pixels":
                    X, Y, Z, W = position(g, c, cam, e, what, p[k], d[k])
                    e += [(f"{what}: not nearer than the clipping plane", Z + W, ">="), (f"{what}: not beyond the clipping plane", W - Z, ">=")]
                    continue
                asked = []

                def texture_(xy):
                    asked.append(xy)
                    return [3, 5, 7, 1]
                o = c.fs.run(dict(u, **{n: g[n] for n in c.fs.io if n in g and n in c.vs.io and "out" in c.vs.io[n][0]}), texture_)
                t = uv[int(fuv[f][q])]
                half = arr([.5])[0]
                e += facts(f"{what}: texture read once", len(asked), 1) + [(f"{what}: texture column", asked[0][0] * TW, t[0] + half), (f"{what}: texture row", asked[0][1] * TH, t[1] + half)]
                n = nrm[k]
                l2 = meshes.dot(n, n)
                # reference: times the length of the normal
                dd = -meshes.dot(n, light)
                ln = pysym.np_proxy.sqrt(l2)
                col = o["f_color"]
                lum = (dd if dd > 0 else 0) + (pysym.N(amb) if pysym.SYM else amb) * ln
                for ch, b in enumerate((3, 5, 7)):
                    e.append((f"{what}: colour {ch}", col[ch] * ln, b * lum))
        return e
    check(j, names, fn, tol=2e-3)
