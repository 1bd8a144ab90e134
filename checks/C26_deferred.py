"""C26: deferred rendering returns the per-pixel attributes of the visible surface."""
import itertools

import numpy as np

import cams
import meshes
import pysym
from pycheck import arr, attempt, check, facts, pairs
from scene3d import Renderer, lit, nondegenerate, normals, zeros

BOUNDS = ("a single triangle and a pair of triangles in front of the camera, images of 2x3 pixels; camera-frame vertices, camera rotation, translation, intrinsic matrix, colours, texture coordinates, light, depth "
          "scale symbolic (normals: fixed camera, single triangle); clockwise, backface culling, perspective, pixel centres, textured or not, 1 and 3 colour channels; subsets of the channels: all, "
          "every single one, every single one missing; the per-pixel interpolation and the nearest-face rule of the 2D renderer are C03 and C05")
ASSUMPTIONS = ["doubles and square roots are exact"]
CH = ["color", "depth", "face_id", "barycentric", "normal", "luminosity", "uv", "xyz"]


def jobs(tier):
    o = []
    cams_ = [c for c in CH if c not in ("normal", "luminosity")]
    combos = [(0, 1, 0, 1), (1, 1, 1, 0), (1, 0, 0, 1), (0, 0, 1, 0)] if tier == "quick" else list(itertools.product((0, 1), repeat=4))
    for c in combos:
        n = "".join(map(str, c))
        o += [(f"colors_{n}", dict(mesh="pair", flags=c, ch=cams_)), (f"textured_{n}", dict(mesh="pair", flags=c, ch=cams_, tex=True)),
              (f"normals_{n}", dict(mesh="triangle", flags=c, ch=CH)), (f"normals_textured_{n}", dict(mesh="triangle", flags=c, ch=CH, tex=True))]
    for k in CH:
        for tex in (False, True):
            t = "_tex" if tex else ""
            if k != ("color" if tex else "uv"):
                o.append((f"only_{k}{t}", dict(mesh="triangle", flags=(0, 1, 0, 1), ch=[k], tex=tex)))
            o.append((f"without_{k}{t}", dict(mesh="triangle", flags=(0, 1, 0, 1), ch=[q for q in CH if q != k], tex=tex)))
    o += [("gray", dict(mesh="triangle", flags=(0, 1, 0, 1), ch=CH, nc=1)), ("ambient", dict(mesh="triangle", flags=(0, 1, 0, 1), ch=CH, light=False)),
          ("antialiasing", dict(mesh="triangle", flags=(0, 1, 0, 1), ch=["color"], sigma=1))]
    return o


H, W = 2, 3


def run_job(j, mesh, flags, ch, tex=False, nc=3, light=True, sigma=0):
    R = pysym.module("differentiable_renderer")
    M = pysym.module("triangulated_mesh")
    cw, cull, persp, ipc = map(bool, flags)
    nv, faces = meshes.MESHES[mesh]
    faces = meshes.rotated(faces)
    F_ = np.array(faces, dtype=np.uint32)
    nrm = "normal" in ch or "luminosity" in ch
    light = light and nrm
    names = ["sc", "am", "l0", "l1", "l2"] + [f"a{i}" for i in range(nv * nc)] + [f"u{i}" for i in range(2 * nv)]
    k0 = len(names)
    names = names + (cams.names(nv) if not nrm else [f"q{i}" for i in range(3 * nv)])

    def fn(v):
        c = cams.Cam(v[k0:], nv, height=H, width=W) if not nrm else cams.Cam([0, 0, 0, 1, -2, 1, 3, 1, 2, 4, 1] + list(v[k0:]), nv, height=H, width=W)
        sc, am = (pysym.N(v[0]), pysym.N(v[1])) if pysym.SYM else (float(v[0]), float(v[1]))
        l, a, uv = arr(v[2:5]), arr(v[5:5 + nv * nc]).reshape(nv, nc), arr(v[5 + nv * nc:k0]).reshape(nv, 2)
        fuv = np.array([[(k + 1) % nv for k in f] for f in faces], dtype=np.uint32)
        m = M.ColoredTriMesh(F_, c.world, clockwise=cw, **(dict(uv=uv, faces_uv=fuv, texture=zeros(2, 2, nc), nb_colors=nc) if tex else dict(colors=a, nb_colors=nc)))
        s = R.Scene3D(sigma=sigma, perspective_correct=persp, integer_pixel_centers=ipc)
        s.set_mesh(m)
        s.set_light(l if light else None, am)
        s.set_background_color(zeros(nc))
        opts = {k: k in ch for k in CH}
        if sigma:
            with Renderer().installed():
                return facts("antialiasing is refused", attempt(lambda: s.render_deferred(c.cam, **opts))[1] is not None, True)
        r = Renderer()

        def inter(kind, scene, sigma_, image, z, *rest):
            r(kind, scene, sigma_, image, z, *rest)
            n = image.shape[-1]
            image[...] = arr(np.array([[[100 * k + 10 * y + x for k in range(n)] for x in range(W)] for y in range(H)]))
        old, pysym.INTERCEPT = pysym.INTERCEPT, inter
        try:
            s.render(c.cam, backface_culling=cull)
            out = s.render_deferred(c.cam, depth_scale=sc, backface_culling=cull, **opts)
        finally:
            pysym.INTERCEPT = old
        ref, g = r.calls[-2]["scene"], r.calls[-1]["scene"]
        e = facts("sigma", float(r.calls[-1]["sigma"]), 0.0)
        for k in ("clockwise", "backface_culling", "perspective_correct", "integer_pixel_centers", "strict_edge", "height", "width"):
            e += facts(k, int(getattr(g, k)), int(getattr(ref, k)))
        e += facts("no textured face", bool(np.any(g.textured)), False) + facts("no background colour with an image", g.background_color is None or g.background_image is None, True)
        gf = np.asarray(g.faces).astype(int)
        e += pairs("image points of the faces", np.asarray(g.ij)[gf], np.asarray(ref.ij)[F_]) + pairs("depths of the faces", np.asarray(g.depths).reshape(-1)[gf], np.asarray(ref.depths).reshape(-1)[F_])
        expected = sorted(k for k in ch if k != ("color" if tex else "uv"))
        e += facts("channels", ",".join(sorted(out)), ",".join(expected))
        # what each channel must hold at the corners of each face
        exp = {}
        per_vertex = dict(depth=(c.q[:, 2] * sc)[:, None], xyz=c.world, color=a)
        if nrm:
            n = normals(faces, [list(p) for p in c.world], cw, nv)
            per_vertex.update(normal=np.array(n, dtype=object if pysym.SYM else float), luminosity=np.array(lit(n, l if light else None, am), dtype=object if pysym.SYM else float)[:, None])
        for k, q in per_vertex.items():
            exp[k] = np.asarray(q)[F_]
        exp["uv"] = uv[fuv]
        exp["face_id"] = np.array([[[i]] * 3 for i in range(len(faces))])
        exp["barycentric"] = np.array([np.eye(3)] * len(faces))
        seen = []
        for k in expected:
            if k not in out:
                continue
            o = np.asarray(out[k])
            if o.ndim != 3 or o.shape[:2] != (H, W):
                return e + facts(f"shape of {k}", o.shape, (H, W, exp[k].shape[-1]))
            cols = [int(float(o[0, 0, q].low() if hasattr(o[0, 0, q], 'low') else o[0, 0, q]) // 100) for q in range(o.shape[2])]
            seen += cols
            e += pairs(f"pixels of {k}", o, np.array([[[100 * q + 10 * y + x for q in cols] for x in range(W)] for y in range(H)]))
            e += pairs(f"{k} at the corners of the faces", np.asarray(g.colors)[gf][:, :, cols], exp[k])
            if k == "depth" and g.background_image is not None:
                zmax = c.q[0, 2]
                for q in range(1, nv):
                    zmax = c.q[q, 2] if c.q[q, 2] > zmax else zmax
                e += pairs("background depth", np.asarray(g.background_image)[:, :, cols[0]], np.array([[zmax * sc] * W] * H))
        return e + facts("each channel of the buffer is used once", sorted(seen), list(range(g.nb_colors)))

    def pre(v):
        k = k0 + (0 if nrm else 11)
        return [(v[k + 3 * i + 2], ">") for i in range(nv)] + (nondegenerate(faces, [v[k + 3 * i:k + 3 * i + 3] for i in range(nv)]) if nrm else [])
    check(j, names, fn, pre)
