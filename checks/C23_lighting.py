"""C23: Lambertian vertex lighting and its adjoint."""
import numpy as np

import meshes
import pysym
from pycheck import arr, check, facts, gradient_entries, pairs
from scene3d import Renderer, lit, set_normals, zeros

BOUNDS = ("meshes of 3 and 4 vertices, 1 and 3 colour channels; vertex normals, light direction, ambient light, albedos and incoming colour gradients symbolic (every combination of lit and unlit "
          "vertices; the kink itself excluded for gradients); textured meshes for the luminosity; no directional light")
ASSUMPTIONS = ["doubles are exact real numbers", "vertex normals are independent symbolic values here (C19 relates them to the vertices)"]


def jobs(tier):
    o = []
    for m in ("triangle", "pair") + (("fan3",) if tier == "thorough" else ()):
        for nc in (1, 3):
            for light in (True, False):
                o.append((f"colors_{m}_{nc}_{'light' if light else 'ambient'}", dict(kind="value", mesh=m, nc=nc, light=light)))
                o.append((f"adjoint_{m}_{nc}_{'light' if light else 'ambient'}", dict(kind="grad", mesh=m, nc=nc, light=light)))
    o += [("texture", dict(kind="tex", mesh="pair", nc=3, light=True)), ("texture_ambient", dict(kind="tex", mesh="pair", nc=1, light=False)),
          ("luminosity", dict(kind="lum", mesh="pair", nc=1, light=True)), ("luminosity_after_change", dict(kind="again", mesh="triangle", nc=1, light=True))]
    return o


def run_job(j, kind, mesh, nc, light):
    R = pysym.module("differentiable_renderer")
    M = pysym.module("triangulated_mesh")
    nv, faces = meshes.MESHES[mesh]
    F_ = np.array(faces, dtype=np.uint32)
    names = [f"n{i}{c}" for i in range(nv) for c in "xyz"] + ["lx", "ly", "lz", "ambient"] + [f"a{i}" for i in range(nv * nc)] + [f"w{i}" for i in range(nv * nc)]
    cam = R.Camera(extrinsic=np.column_stack((np.eye(3), [0, 0, 5.0])), intrinsic=np.array([[2.0, 0, 1], [0, 2, 1], [0, 0, 1]]), height=2, width=2)
    verts = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0], [2, 1, 1]][:nv]

    def build(i, tex=None):
        mesh_ = set_normals(M, i["n"])(F_, arr(verts), colors=i["a"] if tex is None else None, nb_colors=nc, **({} if tex is None else dict(uv=zeros(nv, 2), faces_uv=F_, texture=tex)))
        s = R.Scene3D(sigma=0)
        s.set_mesh(mesh_)
        s.set_light(i["l"] if light else None, i["amb"] if np.ndim(i["amb"]) else np.asarray(i["amb"], dtype=object).item())
        s.set_background_color(arr([0] * nc))
        return s

    def split(v):
        k = 3 * nv
        return dict(n=arr(v[:k]).reshape(nv, 3), l=arr(v[k:k + 3]), amb=arr([v[k + 3]]).reshape(()), a=arr(v[k + 4:k + 4 + nv * nc]).reshape(nv, nc)), arr(v[k + 4 + nv * nc:]).reshape(nv, nc)

    def fn(v):
        i, w = split(v)
        amb = i["amb"].item()
        lum = lit(i["n"], i["l"] if light else None, amb)
        if kind == "lum":
            return pairs("luminosity", build(i).compute_vertices_luminosity(), lum)
        r = Renderer(grads=dict(colors_b=w))
        with r.installed():
            if kind == "value":
                build(i).render(cam)
                return pairs("colours", r.calls[-1]["scene"].colors, [[i["a"][p, c] * lum[p] for c in range(nc)] for p in range(nv)])
            if kind == "tex":
                build(i, zeros(2, 2, nc)).render(cam)
                return pairs("shade", r.calls[-1]["scene"].shade, lum) + facts("shaded", np.asarray(r.calls[-1]["scene"].shaded, dtype=bool), [True] * len(faces))
            if kind == "again":
                s = build(dict(i, l=arr([1, 2, 3]), amb=arr([5]).reshape(())))
                s.render(cam)
                s.set_light(i["l"], amb)
                s.mesh.set_vertices_colors(i["a"] * 2)
                s.render(cam)
                return pairs("colours after a change of light", r.calls[-1]["scene"].colors, [[2 * i["a"][p, c] * lum[p] for c in range(nc)] for p in range(nv)])

            def fwd(d):
                build(d).render(cam)
                return [r.calls[-1]["scene"].colors]

            def back(d, ws):
                s = build(d)
                s.render(cam)
                s.render_backward(zeros(2, 2, nc))
                g = dict(a=s.mesh.vertices_colors_b, amb=np.asarray(s.light_ambient_b, dtype=object))
                if light:
                    g["l"], g["n"] = s.light_directional_b, s.mesh.recorded
                return g
            return gradient_entries(i, ("a", "amb") + (("l", "n") if light else ()), fwd, back, [w])

    def pre(v):
        if kind != "grad" or not light:
            return []
        return [(sum(v[3 * i + c] * v[3 * nv + c] for c in range(3)), "!=") for i in range(nv)]
    check(j, names, fn, pre)
