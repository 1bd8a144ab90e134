"""C24: rendering a 3D scene is projection, shading and 2D rendering of its mesh."""
import itertools

import numpy as np

import cams
import meshes
import pysym
from pycheck import arr, check, facts, pairs
from scene3d import Renderer, lit, nondegenerate, normals, zeros

BOUNDS = ("a single triangle and a pair of triangles (the triangle with symbolic normals through square roots), vertices in front of the camera, camera rotation, translation, intrinsic matrix, distortion, "
          "light, colours or texture, background and depth scale symbolic; clockwise, backface culling, perspective, pixel centre, background kind, antialiasing flags enumerated pairwise; the 2D "
          "renderer is arbitrary: it returns a symbolic image, which must come back unchanged")
ASSUMPTIONS = ["doubles and square roots are exact"]


def jobs(tier):
    o = []
    combos = [  # cw, cull, persp, ipc, bgimage, sigma
        (0, 1, 0, 1, 0, 1), (1, 1, 0, 0, 1, 1), (0, 0, 1, 1, 1, 0), (1, 0, 1, 0, 0, 0), (0, 1, 1, 0, 0, 1), (1, 1, 0, 1, 1, 0)]
    if tier == "thorough":
        combos = list(itertools.product((0, 1), repeat=6))
    for c in combos:
        n = "".join(map(str, c))
        o += [(f"ambient_{n}", dict(kind="ambient", mesh="pair", flags=c)), (f"texture_{n}", dict(kind="texture", mesh="pair", flags=c)), (f"depth_{n}", dict(kind="depth", mesh="pair", flags=c)),
              (f"lit_{n}", dict(kind="lit", mesh="triangle", flags=c)), (f"littexture_{n}", dict(kind="littexture", mesh="triangle", flags=c))]
    o += [("distorted", dict(kind="ambient", mesh="pair", flags=(0, 1, 0, 1, 0, 0), dist=True)), ("gray", dict(kind="ambient", mesh="triangle", flags=(0, 1, 0, 1, 1, 1), nc=1)),
          ("twice", dict(kind="ambient", mesh="triangle", flags=(0, 1, 0, 1, 0, 1), again=True)), ("depth_distorted", dict(kind="depth", mesh="triangle", flags=(1, 1, 0, 1, 1, 0), dist=True)),
          ("nobackground", dict(kind="nobg", mesh="triangle", flags=(0, 1, 0, 1, 0, 0)))]
    return o


H, W = 2, 3


def run_job(j, kind, mesh, flags, dist=False, nc=2, again=False):
    R = pysym.module("differentiable_renderer")
    M = pysym.module("triangulated_mesh")
    cw, cull, persp, ipc, bgi, sig = map(bool, flags)
    nv, faces = meshes.MESHES[mesh]
    faces = meshes.rotated(faces)
    F_ = np.array(faces, dtype=np.uint32)
    if kind == "depth":
        nc = 1
    light = kind.startswith("lit")
    tex = "texture" in kind
    # normals need square roots: the vertices are then given in a fixed camera
    n_im = H * W * nc
    names = (["tx0", "sc", "am"] + ["l0", "l1", "l2"] + [f"a{i}" for i in range(nv * nc)] + [f"bg{i}" for i in range(n_im if bgi else nc)] + [f"im{i}" for i in range(n_im)] + [f"z{i}" for i in range(H * W)]
             + [f"u{i}" for i in range(2 * nv)] + [f"tx{i + 1}" for i in range(4 * nc)])
    k0 = len(names)
    names = names + (cams.names(nv, dist) if not light else [f"q{i}" for i in range(3 * nv)])

    def camera(v):
        v = v[k0:]
        if not light:
            return cams.Cam(v, nv, dist, height=H, width=W)
        return cams.Cam([0, 0, 0, 1, -2, 1, 3, 1, 2, 4, 1] + list(v), nv, False, height=H, width=W)

    def fn(v):
        it = iter(v)

        def take(n):
            return [next(it) for _ in range(n)]
        _, sc, am = take(3)
        l = arr(take(3))
        a = arr(take(nv * nc)).reshape(nv, nc)
        bg = arr(take(n_im)).reshape(H, W, nc) if bgi else arr(take(nc))
        im, z = arr(take(n_im)).reshape(H, W, nc), arr(take(H * W)).reshape(H, W)
        uv, tx = arr(take(2 * nv)).reshape(nv, 2), arr(take(4 * nc)).reshape(2, 2, nc)
        c = camera(v)
        am, sc = (pysym.N(am), pysym.N(sc)) if pysym.SYM else (float(am), float(sc))
        fuv = np.array([[(k + 1) % nv for k in f] for f in faces], dtype=np.uint32)
        m = M.ColoredTriMesh(F_, c.world, clockwise=cw, **(dict(uv=uv, faces_uv=fuv, texture=tx, nb_colors=nc) if tex else dict(colors=a, nb_colors=nc)))
        s = R.Scene3D(sigma=2 if sig else 0, perspective_correct=persp, integer_pixel_centers=ipc)
        s.set_mesh(m)
        s.set_light(l if light else None, am)
        if kind == "nobg":
            from pycheck import attempt
            with Renderer().installed():
                return facts("a scene without background is refused", attempt(lambda: s.render(c.cam))[1] is not None, True)
        if bgi:
            s.set_background_image(bg)
        else:
            s.set_background_color(bg)
        r = Renderer(im, z)
        with r.installed():
            if again:       # nothing of an earlier rendering stays
                s.render(c.cam)
                m.set_vertices(c.world[::-1])
                m.set_vertices_colors(a * 3)
                s.render(c.cam)
                m.set_vertices(c.world)
                m.set_vertices_colors(a)
            if kind == "depth":
                out = s.render_depth(c.cam, depth_scale=sc, backface_culling=cull)
                zb = None
            else:
                out, zb = s.render(c.cam, return_z_buffer=True, backface_culling=cull)
        g = r.calls[-1]["scene"]
        e = pairs("returned image", out, im) + (pairs("returned z buffer", zb, z) if zb is not None else [])
        exp = c.expected()
        e += pairs("projected vertices", g.ij, exp) + pairs("depths", g.depths, c.q[:, 2]) + facts("faces", np.asarray(g.faces), F_)
        e += facts("height", g.height, H) + facts("width", g.width, W) + facts("channels", g.nb_colors, nc) + facts("image shape", r.calls[-1]["image_shape"], (H, W, nc)) + facts("z buffer shape", r.calls[-1]["z_shape"], (H, W))
        e += facts("clockwise", bool(g.clockwise), cw) + facts("backface culling", bool(g.backface_culling), cull) + facts("perspective correction", bool(g.perspective_correct), persp)
        e += facts("integer pixel centers", bool(g.integer_pixel_centers), ipc) + facts("sigma", float(r.calls[-1]["sigma"]), 2.0 if sig else 0.0) + facts("strict edges", bool(g.strict_edge), True)
        e += facts("antialiased error", bool(r.calls[-1]["aa"]), False)
        e += facts("background given once", (g.background_image is None) != (g.background_color is None), True)
        got = g.background_image if bgi else g.background_color
        e += pairs("background", got, bg) if got is not None else facts("background kind", False, True)
        lum = [am] * nv
        if light:
            lum = lit(normals(faces, [list(p) for p in c.world], cw, nv), l, am)
        if kind == "depth":
            e += pairs("colours", g.colors, (c.q[:, 2] * sc)[:, None]) + facts("textured", np.any(g.textured), False)
        elif tex:
            e += facts("textured", np.asarray(g.textured, dtype=bool), [True] * len(faces)) + facts("shaded", np.asarray(g.shaded, dtype=bool), [True] * len(faces))
            e += pairs("texture", g.texture, tx) + pairs("uv", g.uv, uv) + facts("texture faces", np.asarray(g.faces_uv), fuv) + pairs("shade", g.shade, lum)
        else:
            e += facts("textured", np.any(g.textured), False) + pairs("colours", g.colors, [[a[i, k] * lum[i] for k in range(nc)] for i in range(nv)])
        # silhouette edges
        if sig:
            vis = []
            for f in faces:
                u, w = exp[f[1]] - exp[f[0]], exp[f[2]] - exp[f[0]]
                d = u[0] * w[1] - u[1] * w[0]
                vis.append(bool(d > 0) if cw else bool(d < 0))
            fl = [[sum(vis[q] for q, h in enumerate(faces) if f[k] in h and f[(k + 1) % 3] in h) == 1 for k in range(3)] for f in faces]
        else:
            fl = [[False] * 3 for f in faces]
        return e + facts("edge flags", np.asarray(g.edgeflags, dtype=bool), fl)

    def pre(v):
        k = k0 + ((16 if dist else 11) if not light else 0)
        o = [(v[k + 3 * i + 2], ">") for i in range(nv)]
        if light:
            o += nondegenerate(faces, [v[k + 3 * i:k + 3 * i + 3] for i in range(nv)])
        return o
    check(j, names, fn, pre)
