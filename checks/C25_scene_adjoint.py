"""C25: gradients of 3D scenes are the exact derivatives of the rendered image."""
import numpy as np

import cams
import meshes
import pysym
from pycheck import arr, attempt, check, facts, gradient_entries, pairs
from scene3d import Renderer, nondegenerate, zeros

BOUNDS = ("a single triangle and a pair of triangles in front of the camera, 1 to 3 channels; camera-frame vertices, camera rotation, translation, intrinsic matrix, distortion, colours, light, depth scale and "
          "the gradients returned by the 2D renderer symbolic (lit scenes: fixed camera, single triangle); both orientations, sigma zero and positive, scenes rendered before with another camera, "
          "light and mesh; the derivative of the 2D image itself is C09 to C11")
ASSUMPTIONS = ["doubles and square roots are exact", "the 2D renderer returns the exact gradient of its own arrays (C09, C10)"]


def jobs(tier):
    o = []
    for cw in (False, True):
        for nc in (1, 3) if tier == "quick" else (1, 2, 3, 4):
            o.append((f"ambient_{nc}_{int(cw)}", dict(kind="ambient", mesh="pair", nc=nc, cw=cw)))
        o += [(f"lit_{int(cw)}", dict(kind="lit", mesh="triangle", nc=2, cw=cw)), (f"depth_{int(cw)}", dict(kind="depth", mesh="pair", nc=1, cw=cw))]
    o += [("ambient_distorted", dict(kind="ambient", mesh="triangle", nc=1, dist=True)), ("depth_distorted", dict(kind="depth", mesh="triangle", nc=1, dist=True)),
          ("silhouettes", dict(kind="ambient", mesh="triangle", nc=1, sigma=2)), ("depth_silhouettes", dict(kind="depth", mesh="triangle", nc=1, sigma=2)),
          ("again_ambient", dict(kind="ambient", mesh="pair", nc=1, again=True)), ("again_lit", dict(kind="lit", mesh="triangle", nc=1, again=True)), ("again_depth", dict(kind="depth", mesh="pair", nc=1, again=True)),
          ("again_unlit", dict(kind="ambient", mesh="pair", nc=1, again=True, relit=True)), ("again_unlit_depth", dict(kind="depth", mesh="triangle", nc=1, again=True, relit=True)),
          ("perspective", dict(kind="refuse", mesh="triangle", nc=1))]
    if tier == "thorough":
        o += [("ambient_fan", dict(kind="ambient", mesh="fan3", nc=2)), ("depth_fan", dict(kind="depth", mesh="fan3", nc=1)), ("lit_pair", dict(kind="lit", mesh="pair", nc=1)),
              ("ambient_pair_distorted", dict(kind="ambient", mesh="pair", nc=2, dist=True))]
    return o


H, W = 2, 3


def run_job(j, kind, mesh, nc, cw=False, dist=False, sigma=0, again=False, relit=False):
    R = pysym.module("differentiable_renderer")
    M = pysym.module("triangulated_mesh")
    nv, faces = meshes.MESHES[mesh]
    F_ = np.array(meshes.rotated(faces), dtype=np.uint32)
    light = kind == "lit"
    depth = kind == "depth"
    names = [f"l{i}" for i in range(3)] + ["am", "sc"] + [f"a{i}" for i in range(nv * nc)] + [f"wi{i}" for i in range(2 * nv)] + [f"wc{i}" for i in range(nv * nc)]
    k0 = len(names)
    names = names + (cams.names(nv, dist) if not light else [f"q{i}" for i in range(3 * nv)])
    nc_ = 1 if depth else nc
    im = arr(np.arange(H * W * nc_)).reshape(H, W, nc_)
    zb = arr(np.arange(H * W) + 7).reshape(H, W)

    def fn(v):
        it = iter(v)

        def take(n):
            return [next(it) for _ in range(n)]
        i = dict(l=arr(take(3)), amb=arr(take(1)).reshape(()))
        sc = take(1)[0]
        sc = pysym.N(sc) if pysym.SYM else float(sc)
        i["a"], wi, wc = arr(take(nv * nc)).reshape(nv, nc), arr(take(2 * nv)).reshape(nv, 2), arr(take(nv * nc)).reshape(nv, nc)
        c = cams.Cam(v[k0:], nv, dist, height=H, width=W) if not light else cams.Cam([0, 0, 0, 1, -2, 1, 3, 1, 2, 4, 1] + list(v[k0:]), nv, False, height=H, width=W)
        other = cams.Cam([1, 0, 0, 1, 2, 9, 2, 0, 1, 2, 1, 0, 0, 1] + [0, 1, 2, 2, 3, 4, 4, 1, 3, 1, 5, 3, 3, 3, 3][:3 * (nv - 1)], nv, height=H, width=W)
        i["x"] = c.world
        sg = dict(ij_b=wi, colors_b=wc)

        def build(d):
            m = M.ColoredTriMesh(F_, d["x"], clockwise=cw, colors=d["a"], nb_colors=nc)
            s = R.Scene3D(sigma=sigma)
            s.set_mesh(m)
            s.set_light(d["l"] if light else None, np.asarray(d["amb"], dtype=object).item())
            s.set_background_color(arr([0] * (1 if depth else nc)))
            return s

        def ren(s, cam):
            return s.render_depth(cam, depth_scale=sc) if depth else s.render(cam)

        def ren_b(s):
            return s.render_depth_backward(ib) if depth else s.render_backward(ib)
        ib = arr(-np.arange(H * W * nc_)).reshape(H, W, nc_)
        if kind == "refuse":
            s = build(i)
            r = Renderer(im, zb, sg)
            with r.installed():
                s.render(c.cam)
                s.perspective_correct = True
                return facts("gradients with perspective correction are refused", attempt(lambda: s.render_backward(ib))[1] is not None, True)
        used = []

        def fwd(d):
            r = Renderer(im, zb)
            with r.installed():
                ren(build(d), c.cam)
            g = r.calls[-1]["scene"]
            return [g.ij, g.colors]

        def back(d, ws):
            r = Renderer(im, zb, sg)
            used.append(r)
            with r.installed():
                s = build(d)
                if again:
                    s.mesh.set_vertices(other.world)
                    s.mesh.set_vertices_colors(d["a"] * 3)
                    l = s.light_directional
                    if light or relit:
                        s.set_light(d["l"] if relit else arr([3, 1, 2]), 4)
                    ren(s, other.cam)
                    ren_b(s)
                    s.mesh.set_vertices(d["x"])
                    s.mesh.set_vertices_colors(d["a"])
                    s.set_light(l, np.asarray(d["amb"], dtype=object).item())
                ren(s, c.cam)
                ren_b(s)
            g = dict(x=s.mesh._vertices_b)
            if not depth:
                g.update(a=s.mesh.vertices_colors_b, amb=np.asarray(s.light_ambient_b, dtype=object))
            if light:
                g["l"] = s.light_directional_b
            return g
        e = gradient_entries(i, ("x",) + (() if depth else ("a", "amb")) + (("l",) if light else ()), fwd, back, [wi, wc])
        call = used[-1].calls[-1]
        fw = [q for q in used[-1].calls if q["scene"] is call["scene"] and q["kind"] == "render"]
        e += facts("backward follows", call["kind"], "render_b") + facts("one forward rendering", len(fw), 1) + pairs("image gradient handed over", call["image_b"], ib)
        e += pairs("image handed over", call["image_in"], im) + pairs("z buffer handed over", call["z_in"], zb) + facts("sigma", float(call["sigma"]), float(sigma)) + facts("error mode", bool(call["aa"]), False)
        e += pairs("image gradient untouched", ib, -np.arange(H * W * nc_).reshape(H, W, nc_))
        return e

    def pre(v):
        k = k0 + ((16 if dist else 11) if not light else 0)
        o = [(v[k + 3 * i + 2], ">") for i in range(nv)]
        if light:
            o += nondegenerate(meshes.rotated(faces), [v[k + 3 * i:k + 3 * i + 3] for i in range(nv)])
            if mesh == "triangle":      # not on the kink of the lighting
                n = meshes.face_cross(faces[0], [v[k + 3 * i:k + 3 * i + 3] for i in range(nv)])
                o.append((meshes.dot(n, v[:3]), "!="))
        return o
    check(j, names, fn, pre)
