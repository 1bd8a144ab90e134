"""C31: the PyTorch backend computes the same values as the NumPy backend."""
import contextlib
import io
import types

import numpy as np

import cams
import meshes
import pysym
from pycheck import arr, attempt, check, facts, gradient_entries, pairs
from scene3d import Renderer, nondegenerate, zeros

BOUNDS = ("meshes of 1 to 4 faces (also exactly 3 faces, unused vertices, both orientations); camera rotation, translation, intrinsic matrix and distortion, points, quaternions (any norm), normals, light, colours, "
          "reference shapes, images and the 2D renderer's gradients symbolic; PyTorch's own autograd runs on the symbolic numbers; scenes with every flag (sigma, winding, culling, pixel centres, background "
          "kind), colour and depth, one and two renderings before back-propagation, back-propagation repeated; fitter steps along symbolic lines that cross the clamps")
ASSUMPTIONS = ["doubles and square roots are exact", "PyTorch's elementary operations and its autograd formulas are PyTorch's; they are executed on exact numbers",
               "the 2D renderer is arbitrary (C09, C10)", "fitter jobs: vertex normals are replaced by a linear function of the vertices"]


def jobs(tier):
    o = [("project", dict(kind="project", mesh="pair")), ("project_distorted", dict(kind="project", mesh="triangle", opt=1)), ("project_list", dict(kind="project", mesh="triangle", opt=2))]
    for m in ("triangle", "pair", "fan3", "ring3", "tetra", "unused"):
        for cw in (False, True):
            o.append((f"normals_{m}_{int(cw)}", dict(kind="normals", mesh=m, opt=cw)))
    o += [(f"vertex_normals_{m}_{int(cw)}", dict(kind="vnormals", mesh=m, opt=cw)) for m in ("pair", "fan3", "ring3", "tetra") for cw in (False, True)]
    o += [(f"silhouette_{m}_{int(cw)}", dict(kind="silhouette", mesh=m, opt=cw)) for m in ("pair", "fan3", "unused") for cw in (False, True)]
    o += [("normals_gradient", dict(kind="ngrad", mesh="triangle", opt=False)), ("normals_gradient_cw", dict(kind="ngrad", mesh="triangle", opt=True))]
    o += [("rotation", dict(kind="qrot", mesh="triangle"))]
    o += [(f"rigid_{m}_{g}", dict(kind="rigid", mesh=m, opt=g)) for m in ("triangle", "pair", "tetra", "fan3") for g in (False, True)]
    o += [(f"light_{k}_{m}", dict(kind="light", mesh=m, opt=k)) for k in ("both", "ambient", "array", "later") for m in ("triangle", "pair")]
    fl = [(0, 1, 1, 0, 1), (1, 1, 0, 1, 1), (0, 0, 1, 1, 0), (1, 0, 0, 0, 2), (0, 1, 0, 0, 0)] if tier == "quick" else [(a, b, c, d, e) for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1) for e in (0, 1, 2)]
    for f in fl:
        n = "".join(map(str, f))
        o += [(f"scene_{k}_{n}", dict(kind="scene", mesh="pair", opt=(k,) + f)) for k in ("color", "depth")]
    o += [("scene_lit", dict(kind="scene", mesh="triangle", opt=("lit", 1, 1, 1, 0, 1)))]
    o += [(f"gradient_{k}_{h}", dict(kind="grad", mesh="triangle", opt=(k, h))) for k in ("color", "depth") for h in ("once", "two", "again")]
    o += [("gradient_lit", dict(kind="grad", mesh="triangle", opt=("lit", "once")))]
    o += [(f"step_{k}_{w}", dict(kind="step", mesh="triangle", opt=(k, w))) for k in ("depth", "rgb") for w in ("line", "second")]
    o += [(f"frozen_{w}", dict(kind="step", mesh="triangle", opt=("rgb", w))) for w in ("lights", "color")]
    o += [("clip_depth", dict(kind="step", mesh="triangle", opt=("depth", "clip"))), ("module_energy", dict(kind="module", mesh="triangle"))]
    if tier == "thorough":
        o += [(f"gradient_{k}_pair_{h}", dict(kind="grad", mesh="pair", opt=(k, h))) for k in ("color", "depth") for h in ("once", "two")]
        o += [(f"step_{k}_{w}_pair", dict(kind="step", mesh="pair", opt=(k, w))) for k in ("depth", "rgb") for w in ("line", "second")]
        o += [("project_fan", dict(kind="project", mesh="fan3", opt=1)), ("rigid_pyramid", dict(kind="rigid", mesh="pyramid", opt=True)), ("normals_octa", dict(kind="normals", mesh="octa", opt=True))]
    return o


H, W = 2, 2
V0 = [[0, 0, 0], [2, 0, 1], [0, 2, 0], [2, 2, -1], [3, 1, 1]]
B = [[1, 2, -1], [0, 1, 3], [2, -1, 1]]
FIELDS = ("ij", "depths", "colors", "uv", "shade", "texture")


def run_job(j, kind, mesh, opt=None):
    import torch
    import tsym
    torch.set_num_threads(1)
    tsym.load()
    R = pysym.module("differentiable_renderer")
    M = pysym.module("triangulated_mesh")
    E = pysym.module("laplacian_rigid_energy")
    TOOLS = pysym.module("tools")
    FT = pysym.module("mesh_fitter")
    RT = pysym.module("pytorch.differentiable_renderer_pytorch")
    MT = pysym.module("pytorch.triangulated_mesh_pytorch")
    ET = pysym.module("pytorch.laplacian_rigid_energy_pytorch")
    TT = pysym.module("pytorch.mesh_fitter_pytorch")
    nv, faces = meshes.MESHES[mesh]
    faces = meshes.rotated(faces)
    F_ = np.array(faces, dtype=np.uint32 if kind in ("scene", "grad", "step", "module") else np.int64)

    def tn(a, grad=False):
        return tsym.tensor(a, dtype=torch.float64, requires_grad=grad)

    def num(t):
        """numbers of a tensor or array, wherever they come from"""
        t = t.detach().numpy() if isinstance(t, torch.Tensor) else np.asarray(t)
        return t.astype(float) if t.dtype == bool else t

    def same(name, got, exp):
        return pairs(name, num(got), num(exp))

    def taker(v):
        it = iter(v)
        return lambda *s: arr([next(it) for _ in range(int(np.prod(s)))]).reshape(s)

    def quiet(f):
        with contextlib.redirect_stdout(io.StringIO()):
            return f()

    def nopre(v):
        return []

    def nondeg(v):
        return nondegenerate(faces, [v[3 * i:3 * i + 3] for i in range(nv)])

    def mesh_np(x, cw, cls=None, **k):
        return (cls or M.ColoredTriMesh)(F_, x, clockwise=cw, **(k or dict(colors=zeros(nv, 0))))

    def mesh_t(x, cw, cls=None, **k):
        return (cls or MT.ColoredTriMeshPytorch)(F_, x, clockwise=cw, **(k or dict(colors=zeros(nv, 0))))

    unchecked = contextlib.ExitStack()
    old = M.TriMesh.check_orientation          # C21
    M.TriMesh.check_orientation = lambda self: None
    unchecked.callback(lambda: setattr(M.TriMesh, "check_orientation", old))
    with unchecked:
        return globals()["job_" + kind](j, types.SimpleNamespace(**locals()))


def job_project(j, C):
    nv, dist = C.nv, bool(C.opt)

    def fn(v):
        c = cams.Cam(v, nv, dist)
        t = cams.Cam(v, nv, dist, cls=C.RT.CameraPytorch, dist_list=C.opt == 2)
        p, z = c.cam.project_points(c.world)
        tw = C.tn(c.world)
        q, y = t.cam.project_points(tw)
        e = C.same("projected point", q, p) + C.same("depth", y, z) + C.same("projected point alone", t.cam.project_points(tw, return_depths=False), p)
        e += C.same("projected point (backward stored)", t.cam.project_points(tw, store_backward={})[0], p)
        return e + C.same("camera frame", t.cam.world_to_camera(tw), c.cam.world_to_camera(c.world)) + C.same("camera centre", t.cam.get_center(), c.cam.get_center())
    check(j, cams.names(nv, dist), fn, cams.pre_points(nv, dist))


def job_normals(j, C):
    def fn(v):
        x = arr(v).reshape(C.nv, 3)
        n = C.mesh_np(x, C.opt).face_normals
        m = C.mesh_t(x, C.opt)
        m.set_vertices(C.tn(x))
        return C.same("face normal", m.face_normals, n) + facts("clockwise", bool(m.adjacencies.clockwise), C.opt) + facts("vertices", m.adjacencies.nb_vertices, C.nv)
    check(j, [f"x{i}" for i in range(3 * C.nv)], fn, C.nondeg)


def job_vnormals(j, C):
    """on arbitrary face normals"""
    nf = len(C.faces)

    def fn(v):
        n = arr(v).reshape(nf, 3)
        x = arr(V0[:C.nv])
        a = C.mesh_np(x, C.opt).adjacencies.compute_vertex_normals(n)
        b = C.mesh_t(x, C.opt).adjacencies.compute_vertex_normals(C.tn(n))
        return C.same("vertex normal", b, a)

    def pre(v):
        out = []
        for i in range(C.nv):
            s = [sum(v[3 * k + c] for k, f in enumerate(C.faces) if i in f) for c in range(3)]
            out.append((meshes.dot(s, s), ">"))
        return out
    check(j, [f"n{i}" for i in range(3 * nf)], fn, pre)


def job_silhouette(j, C):
    def fn(v):
        p = arr(v).reshape(C.nv, 2)
        x = arr(V0[:C.nv])
        a = C.mesh_np(x, C.opt).edge_on_silhouette(p)
        b = C.mesh_t(x, C.opt).edge_on_silhouette(C.tn(p, True))
        return facts("silhouette flags", np.asarray(b, dtype=bool), np.asarray(a, dtype=bool))
    check(j, [f"p{i}" for i in range(2 * C.nv)], fn)


def job_ngrad(j, C):
    def fn(v):
        t = C.taker(v)
        x, w = t(C.nv, 3), t(C.nv, 3)

        def fwd(d):
            m = C.mesh_np(d["x"], C.opt)
            m.compute_vertex_normals()
            return [m.vertex_normals]

        def back(d, ws):
            m = C.mesh_t(d["x"], C.opt)
            tx = C.tn(d["x"], True)
            m.set_vertices(tx)
            m.compute_vertex_normals()
            (m.vertex_normals * C.tn(ws[0])).sum().backward()
            return dict(x=C.num(tx.grad))
        return gradient_entries(dict(x=x), ("x",), fwd, back, [w])
    check(j, [f"x{i}" for i in range(3 * C.nv)] + [f"w{i}" for i in range(3 * C.nv)], fn, C.nondeg)


def job_qrot(j, C):
    def fn(v):
        t = C.taker(v)
        q, x, w = t(4), t(2, 3), t(2, 3)
        e = C.same("rotated", C.TT.qrot(C.tn(q), C.tn(x)), C.TOOLS.qrot(q, x))

        def back(d, ws):
            a, b = C.tn(d["q"], True), C.tn(d["x"], True)
            (C.TT.qrot(a, b) * C.tn(ws[0])).sum().backward()
            return dict(q=C.num(a.grad), x=C.num(b.grad))
        return e + gradient_entries(dict(q=q, x=x), ("q", "x"), lambda d: [C.TOOLS.qrot(d["q"], d["x"])], back, [w])
    check(j, [f"q{i}" for i in range(4)] + [f"x{i}" for i in range(6)] + [f"w{i}" for i in range(6)], fn)


def job_rigid(j, C):
    def fn(v):
        t = C.taker(v)
        ref, x = t(C.nv, 3), t(C.nv, 3)
        s = arr(V0[:C.nv]) if C.mesh != "pyramid" else ref
        a = C.E.LaplacianRigidEnergy(C.mesh_np(s, False), ref, 3)
        b = C.ET.LaplacianRigidEnergyPytorch(C.mesh_t(s, False), ref, 3)
        en, g, h = a.evaluate(x)
        tx = C.tn(x, C.opt)
        te, tg, th = b.evaluate(tx)
        th = th.to_dense().numpy() if hasattr(th, "to_dense") else th.todense()
        e = C.same("energy", te, en) + C.same("gradient", tg, g) + pairs("hessian", np.asarray(th), np.asarray(h.todense()))
        if C.opt:
            te.backward()
            e += C.same("differentiated energy", tx.grad, g)
        return e
    check(j, [f"r{i}" for i in range(3 * C.nv)] + [f"x{i}" for i in range(3 * C.nv)], fn)


def job_light(j, C):
    """ambient and directional light on arbitrary normals and albedos"""
    nv, nc = C.nv, 2

    def fn(v):
        t = C.taker(v)
        n, a, l, am, w = t(nv, 3), t(nv, nc), t(3), t(1), t(nv, nc)

        def scene(T, d):
            cls, ms = (C.RT.Scene3DPytorch, C.mesh_t) if T else (C.R.Scene3D, C.mesh_np)

            class Mesh(C.MT.ColoredTriMeshPytorch if T else C.M.ColoredTriMesh):
                @property
                def vertex_normals(self):
                    return d["n"]
            m = ms(arr(V0[:nv]), False, cls=Mesh, colors=zeros(nv, nc), nb_colors=nc) if not T else ms(arr(V0[:nv]), False, cls=Mesh, colors=zeros(nv, nc))
            m.set_vertices_colors(d["a"])
            s = cls()
            s.set_mesh(m)
            if C.opt == "later":
                s.set_light(d["l"] * 2, d["am"] * 3)
            s.set_light({"ambient": None}.get(C.opt, l if C.opt == "array" else d["l"]), d["am"])
            return s
        one = lambda q: np.asarray(q, dtype=object).reshape(-1)[0] if pysym.SYM else float(np.reshape(q, -1)[0])
        d = dict(n=n, a=a, l=l, am=am)

        def T(d):
            return {k: C.tn(one(q) if k == "am" else q, True) for k, q in d.items()}
        N = lambda d: dict(d, am=one(d["am"]))
        e = C.same("lit colour", scene(True, T(d))._compute_vertices_colors_with_illumination(), scene(False, N(d))._compute_vertices_colors_with_illumination())

        def back(d, ws):
            td = T(d)
            (scene(True, td)._compute_vertices_colors_with_illumination() * C.tn(ws[0])).sum().backward()
            return {k: C.num(q.grad).reshape(np.shape(d[k])) for k, q in td.items() if q.grad is not None}
        wrt = ("n", "a", "l", "am") if C.opt in ("both", "later") else (("a", "am") if C.opt == "ambient" else ("n", "a", "am"))
        return e + gradient_entries(d, wrt, lambda d: [scene(False, N(d))._compute_vertices_colors_with_illumination()], back, [w])

    def pre(v):     # not on the kink
        l = v[3 * nv + nv * nc:3 * nv + nv * nc + 3]
        return [(meshes.dot(v[3 * i:3 * i + 3], l), "!=") for i in range(nv)] if C.opt != "ambient" else []
    check(j, [f"n{i}" for i in range(3 * nv)] + [f"a{i}" for i in range(nv * nc)] + ["l0", "l1", "l2", "am"] + [f"w{i}" for i in range(nv * nc)], fn, pre)


def job_scene(j, C):
    """the 2D scene handed over and the images that come back"""
    what, cw, cull, ipc, bgi, sig = C.opt
    nv, nc, lit = C.nv, 1 if C.opt[0] == "depth" else 2, what == "lit"
    n_im = H * W * nc
    names = ["am", "sc"] + [f"l{i}" for i in range(3)] + [f"a{i}" for i in range(nv * nc)] + [f"im{i}" for i in range(n_im)] + [f"z{i}" for i in range(H * W)] + [f"bg{i}" for i in range(n_im if bgi else nc)]
    k0 = len(names)
    names += cams.names(nv) if not lit else [f"q{i}" for i in range(3 * nv)]
    full = (lambda v: list(v)) if not lit else (lambda v: [0, 0, 0, 1, -2, 1, 3, 1, 2, 4, 1] + list(v))

    def fn(v):
        t = C.taker(v)
        am, sc = t(1)[0], t(1)[0]
        l, a, im, z, bg = t(3), t(nv, nc), t(H, W, nc), t(H, W), t(H, W, nc) if bgi else t(nc)
        out = []
        for T in (True, False):
            c = cams.Cam(full(v[k0:]), nv, height=H, width=W, cls=C.RT.CameraPytorch if T else None)
            m = (C.mesh_t if T else C.mesh_np)(c.world, bool(cw), **(dict(colors=a) if T else dict(colors=a, nb_colors=nc)))
            if T:
                m.set_vertices(C.tn(c.world, True))
                m.set_vertices_colors(C.tn(a, True))
            s = C.RT.Scene3DPytorch() if T else C.R.Scene3D()
            s.sigma, s.integer_pixel_centers = (0, 1, 3)[sig], bool(ipc)
            s.set_mesh(m)
            if T:
                s.set_light(C.tn(l, True) if lit else None, C.tn(am, True))
            else:
                s.set_light(l if lit else None, am)
            (s.set_background_image if bgi else s.set_background_color)(bg)
            r = Renderer(im, z)
            with r.installed():
                if what == "depth":
                    o = [s.render_depth(c.cam, depth_scale=2, backface_culling=bool(cull))]
                else:
                    o = list(s.render(c.cam, return_z_buffer=True, backface_culling=bool(cull)))
                    o.append(s.render(c.cam, backface_culling=bool(cull)))
            out.append((o, r.calls[-1]))
        (ot, ct), (on, cn) = out
        e = [q for k, (p, r) in enumerate(zip(ot, on)) for q in C.same(("image", "z buffer", "image again")[k], p, r)] + facts("number of results", len(ot), len(on))
        gt, gn = ct["scene"], cn["scene"]
        for k in FIELDS:
            e += C.same(k, getattr(gt, k), getattr(gn, k))
        for k in ("faces", "faces_uv", "edgeflags", "textured", "shaded"):
            e += facts(k, np.asarray(getattr(gt, k)).astype(int), np.asarray(getattr(gn, k)).astype(int))
        for k in ("height", "width", "nb_colors", "clockwise", "backface_culling", "strict_edge", "perspective_correct", "integer_pixel_centers"):
            e += facts(k, int(getattr(gt, k)), int(getattr(gn, k)))
        for k in ("background_image", "background_color"):
            p, q = getattr(gt, k), getattr(gn, k)
            e += facts(k + " given", p is not None, q is not None) + (C.same(k, p, q) if p is not None and q is not None else [])
        for k in ("image_shape", "z_shape"):
            e += facts(k, ct[k], cn[k])
        return e + facts("sigma", float(ct["sigma"]), float(cn["sigma"])) + facts("error mode", bool(ct["aa"]), bool(cn["aa"]))

    def pre(v):
        k = k0 + (0 if lit else 11)
        return [(v[k + 3 * i + 2], ">") for i in range(nv)] + (nondegenerate(C.faces, [v[k + 3 * i:k + 3 * i + 3] for i in range(nv)]) if lit else [])
    check(j, names, fn, pre)


def job_grad(j, C):
    """gradients through the scene; the renderer's gradients are arbitrary, per rendering"""
    what, how = C.opt
    nv, nc, depth, lit = C.nv, 1 if C.opt[0] == "depth" else 2, C.opt[0] == "depth", C.opt[0] == "lit"
    k = 2 if how == "two" else 1
    fixed = lit or k == 2
    names = ["am"] + [f"l{i}" for i in range(3)] + [f"a{i}" for i in range(nv * nc)] + [f"w{i}" for i in range(k * nv * (2 + nc))]
    k0 = len(names)
    names += cams.names(nv) if not fixed else [f"q{i}" for i in range(3 * nv)]
    full = (lambda v: list(v)) if not fixed else (lambda v: [0, 0, 0, 1, -2, 1, 3, 1, 2, 4, 1] + list(v))
    im = arr(np.arange(H * W * nc)).reshape(H, W, nc)
    zb = arr(np.arange(H * W) + 7).reshape(H, W)

    class Each(Renderer):
        """gradients by the vertices of the scene that is back-propagated; notes what it is given"""

        def __init__(self, ws):
            super().__init__(im, zb)
            self.ws = ws
            self.seen = []
            self.bad = []

        def __call__(self, kind, scene, sigma, image, z, image_b, aa, obs, err, err_b):
            if kind == "render":
                super().__call__(kind, scene, sigma, image, z, image_b, aa, obs, err, err_b)
                self.seen.append(np.array(C.num(scene.ij)))
                if len(self.seen) > len(self.ws):
                    self.bad.append("too many renderings")
                return
            ij = C.num(scene.ij)
            ks = [n for n, q in enumerate(self.seen) if q.shape == ij.shape and all(zero(p - r) for p, r in zip(q.flat, ij.flat))]
            if not ks:
                self.bad.append("back-propagation of a scene that was not rendered")
                return
            for q, r in zip(np.asarray(image).flat, im.flat):
                if not zero(q - r):
                    self.bad.append("the image of the forward pass is not the one handed to the backward pass")
                    break
            for q, r in zip(np.asarray(z).flat, zb.flat):
                if not zero(q - r):
                    self.bad.append("z buffer")
                    break
            if float(sigma) != 2:
                self.bad.append(f"backward sigma {sigma}")
            image[...] = image * 5 + 1         # the renderer undoes the antialiasing in place
            w = self.ws[ks[0]]
            f = np.asarray(image_b).flat[0]     # linear in the incoming gradient
            scene.ij_b[...] = scene.ij_b + w["ij_b"] * f
            scene.colors_b[...] = scene.colors_b + w["colors_b"] * f

    def zero(x):
        return not x.v[0] if hasattr(x, "v") else abs(x) < 1e-9

    def fn(v):
        t = C.taker(v)
        d = dict(am=t(1), l=t(3), a=t(nv, nc))
        w = [dict(ij_b=t(nv, 2), colors_b=t(nv, nc)) for _ in range(k)]
        c = cams.Cam(full(v[k0:]), nv, height=H, width=W)
        other = [1, 0, 0, 1, 2, 9, 2, 0, 1, 2, 1]
        d["x"] = c.world
        one = lambda q: np.asarray(q, dtype=object).reshape(-1)[0] if pysym.SYM else float(np.reshape(q, -1)[0])
        bad = []

        def run(T, d, r):
            cm = [cams.Cam(full(v[k0:]), nv, height=H, width=W, cls=C.RT.CameraPytorch if T else None).cam]
            if k == 2:
                cm.append(cams.Cam(other + [0] * (3 * nv), nv, height=H, width=W, cls=C.RT.CameraPytorch if T else None).cam)
            td = {q: C.tn(one(b) if q == "am" else b, True) for q, b in d.items()} if T else dict(d, am=one(d["am"]))
            m = (C.mesh_t if T else C.mesh_np)(c.world, False, **(dict(colors=d["a"]) if T else dict(colors=d["a"], nb_colors=nc)))
            m.set_vertices(td["x"])
            m.set_vertices_colors(td["a"])
            s = C.RT.Scene3DPytorch() if T else C.R.Scene3D()
            s.sigma = 2
            s.set_mesh(m)
            s.set_light(td["l"] if lit else None, td["am"])
            s.set_background_color(zeros(nc))
            with r.installed():
                o = [s.render_depth(q, depth_scale=3) if depth else s.render(q) for q in cm]
                if T:
                    loss = sum(p.sum() for p in o) if how != "two" else o[0].sum() + 2 * o[1].sum()
                    if how == "again":
                        loss.backward(retain_graph=True)
                    loss.backward()
            return td

        def fwd(d):
            r = Renderer(im, zb)
            run(False, d, r)
            return [q for call in r.calls for q in (call["scene"].ij, call["scene"].colors)]

        def back(d, ws):
            r = Each(w)
            td = run(True, d, r)
            bad.extend(r.bad)
            f = 2 if how == "again" else 1      # autograd accumulates
            return {q: C.num(b.grad).reshape(np.shape(d[q])) / f for q, b in td.items() if b.grad is not None}
        ws = [x * n for n, q in enumerate(w, 1) for x in (q["ij_b"], q["colors_b"])]
        e = gradient_entries(d, ("x",) + (() if depth else ("a", "am")) + (("l",) if lit else ()), fwd, back, ws)
        return e + facts("back-propagation is given what was rendered", sorted(set(bad)), [])

    def pre(v):
        n = k0 + (0 if fixed else 11)
        q = [v[n + 3 * i:n + 3 * i + 3] for i in range(nv)]
        o = [(p[2], ">") for p in q]
        if k == 2:
            c = cams.Cam(full(v[k0:]), nv)
            y = cams.Cam([1, 0, 0, 1, 2, 9, 2, 0, 1, 2, 1] + [0] * (3 * nv), nv)
            for p in c.world:
                o.append(((p.dot(y.R.T) + y.t)[2], ">"))
            p = c.world[0].dot(y.R.T) + y.t         # the two renderings differ
            o.append((c.K[0].dot(c.q[0]) * p[2] - y.K[0].dot(p) * c.q[0][2], ">"))
        if lit:
            o += nondegenerate(C.faces, q) + [(meshes.dot(meshes.face_cross(C.faces[0], q), v[1:4]), "!=")]
        return o
    check(j, names, fn, pre)


def job_step(j, C):
    what, how = C.opt
    depth, nv, mesh = what == "depth", C.nv, C.mesh
    nc = 1 if depth else 3
    h, w_ = 1, 2
    rs = np.random.RandomState(5)
    W0, W1 = [dict(ij_b=rs.randint(-9, 10, (nv, 2)), colors_b=rs.randint(-3, 4, (nv, nc))) for _ in range(2)]
    D = rs.randint(-2, 3, (nv, 3))
    names = ["g", "inertia", "damping"] + [f"sp{i}" for i in range(nv * 3)] + [f"st{i}" for i in range(3)] + [f"im{i}" for i in range(2 * nc)] + [f"ob{i}" for i in range(2 * nc)]
    Bm = np.array(B)

    class MN(C.M.ColoredTriMesh):
        def compute_vertex_normals(self):
            self._n = self.vertices.dot(arr(Bm))

        vertex_normals = property(lambda self: self._n)

        def compute_vertex_normals_backward(self, nb):
            self._vertices_b = self._vertices_b + np.asarray(nb).dot(arr(Bm.T))

    class MTt(C.MT.ColoredTriMeshPytorch):
        def compute_vertex_normals(self):
            self._n = self.vertices.mm(C.tn(arr(Bm)))

        vertex_normals = property(lambda self: self._n)

    def make(T, obs, **kw):
        mod, cls = (C.TT, MTt) if T else (C.FT, MN)
        old = mod.ColoredTriMesh
        mod.ColoredTriMesh = cls
        try:
            common = dict(vertices=np.array(V0[:nv], dtype=np.float64), faces=C.F_, euler_init=np.array([0.1, 0.2, 0.3]), translation_init=np.array([0.5, 0.0, 0.25]), cregu=3)
            if depth:
                f = mod.MeshDepthFitter(**common)
                f.set_depth_scale(2)
                f.set_max_depth(8)
                f.set_image(obs[:, :, 0], focal=3)
            else:
                f = mod.MeshRGBFitterWithPose(default_color=arr([1, 2, 3]), default_light_directional=arr([1, -2, 1]), default_light_ambient=arr([2])[0], **common, **kw)
                f.set_background_color(arr([0, 0, 0]))
                f.set_image(obs, focal=3)
        finally:
            mod.ColoredTriMesh = old
        f.scene.sigma = 2
        f.camera = (C.RT.CameraPytorch if T else C.R.Camera)(extrinsic=arr([[1, 0, 0, 1], [0, -1, 0, 0], [0, 0, -1, 9]]), intrinsic=arr([[3, 0, 1], [0, 3, 1], [0, 0, 1]]), height=h, width=w_)
        return f

    def fn(v):
        t = C.taker(v)
        g, ine, dam = t(1)[0], t(1)[0], t(1)[0]
        sv, st = t(nv, 3), t(3)
        im, ob = t(h, w_, nc), t(h, w_, nc)
        x = arr(V0[:nv]) + arr(D)
        wt = dict(ij_b=arr(W0["ij_b"]) * g + arr(W1["ij_b"]), colors_b=arr(W0["colors_b"]) * g + arr(W1["colors_b"]))
        if how in ("lights", "color", "clip"):
            wt = {k: arr(q) for k, q in W1.items()}
        else:
            ine, dam = arr([1])[0] / 2, arr([1])[0] / 4
        if depth and how != "clip":
            im = arr(np.array([1, 3]).reshape(im.shape))
        fz = dict(update_lights=how == "color", update_color=how == "lights") if how in ("lights", "color") else {}
        res = []
        for T in (True, False):
            f = make(T, ob, **fz)
            f.step_factor_vertices, f.step_max_vertices = arr([1])[0] / 4, 7
            f.step_factor_quaternion, f.step_max_quaternion = arr([1])[0] / 8, 3
            f.step_factor_translation, f.step_max_translation = arr([1])[0] / 2, 5

            def setp(f):
                f.vertices = C.tn(x) if T else x
                f.transform_quaternion, f.transform_translation = arr([2, 4, -2, 1]), arr([1, 0, 2])
                if not depth:
                    f.mesh_color, f.light_directional, f.light_ambient = arr([1, 2, 3]), arr([1, -2, 1]), arr([2])[0]
            setp(f)
            r = Renderer(im, zeros(h, w_), wt)
            if how == "second":
                with Renderer(arr(np.full((h, w_, nc), 5)), zeros(h, w_), {k: arr(q) for k, q in W0.items()}).installed():
                    C.quiet(f.step)
                setp(f)
            f.speed_vertices, f.speed_translation, f.speed_quaternion = sv, st, arr([1, -1, 0, 2])
            f.inertia, f.damping = ine, dam
            with r.installed():
                out = C.quiet(f.step)
            p = [("energy", out[0]), ("image", out[1]), ("difference", out[2]), ("vertices", f.vertices), ("quaternion", f.transform_quaternion), ("translation", f.transform_translation),
                 ("vertex speed", f.speed_vertices), ("quaternion speed", f.speed_quaternion), ("translation speed", f.speed_translation)]
            if not depth:
                p += [("colour", f.mesh_color), ("light", f.light_directional), ("ambient light", f.light_ambient), ("colour speed", f.speed_mesh_color), ("light speed", f.speed_light_directional),
                      ("ambient speed", f.speed_light_ambient)]
            res.append(p)
        return [q for (n, a), (_, b) in zip(*res) for q in C.same(n, a, b)]
    check(j, names, fn, lambda v: [])


def job_module(j, C):
    """the energy of the torch.nn module is differentiable and equals data term plus rigidity"""
    nv, nc, h, w_ = C.nv, 1, 1, 2

    def fn(v):
        t = C.taker(v)
        x, ob, wi, wc = t(nv, 3), t(h, w_), t(nv, 2), t(nv, 1)
        torch = C.torch
        f = C.TT.MeshDepthFitterEnergy(vertices=np.array(V0[:nv], dtype=np.float64), faces=C.F_, euler_init=np.array([0.1, 0.2, 0.3]), translation_init=np.array([0.5, 0.0, 0.25]), cregu=3)
        f.set_max_depth(8)
        f.set_depth_scale(2)
        f.set_image(ob, focal=3)
        f.scene.sigma = 2
        f.camera = C.RT.CameraPytorch(extrinsic=arr([[1, 0, 0, 1], [0, -1, 0, 0], [0, 0, -1, 9]]), intrinsic=arr([[3, 0, 1], [0, 3, 1], [0, 0, 1]]), height=h, width=w_)
        px, pq, pt = C.tn(x, True), C.tn(arr([2, 4, -2, 1]), True), C.tn(arr([1, 0, 2]), True)
        f._parameters.update(_vertices=px, quaternion=pq, translation=pt)
        im = arr(np.array([1, 3]).reshape(h, w_, 1))
        with Renderer(im, zeros(h, w_), dict(ij_b=wi, colors_b=wc)).installed():
            loss = C.quiet(f.forward)
            loss.backward()
        A = C.E.LaplacianRigidEnergy(C.mesh_np(arr(V0[:nv]), False), arr(V0[:nv]), 3)
        en, gr, _ = A.evaluate(x)
        sd = sum((im[0, k, 0] - ob[0, k]) * (im[0, k, 0] - ob[0, k]) for k in range(w_))
        e = C.same("energy", loss, np.asarray(sd + en, dtype=object) if pysym.SYM else np.float64(sd + en))
        # the data term moves the vertices without their mean; its gradient comes from the numpy fitter's formulas
        xc = x - np.asarray(x.mean(axis=0) if not pysym.SYM else x.sum(axis=0) / 3)[None]
        st = {}
        qn = arr([2, 4, -2, 1]) / 5
        cam = C.R.Camera(extrinsic=arr([[1, 0, 0, 1], [0, -1, 0, 0], [0, 0, -1, 9]]), intrinsic=arr([[3, 0, 1], [0, 3, 1], [0, 0, 1]]), height=h, width=w_)
        cam.project_points(C.TOOLS.qrot(qn, xc) + arr([1, 0, 2]), store_backward=st)
        vb = cam.project_points_backward(wi, st, depths_b=wc[:, 0] * 2)
        _, xb = C.TOOLS.qrot_backward(qn, xc, vb)
        xb = np.asarray(xb)
        return e + C.same("gradient", px.grad, xb - (xb.sum(axis=0) / 3)[None] + gr) + C.same("translation gradient", pt.grad, np.asarray(vb).sum(axis=0))

    def pre(v):
        q = [sum(v[3 * i + c] for i in range(nv)) / 3 for c in range(3)]
        out = []
        with pysym.symbolic():
            r = C.TOOLS.qrot(arr([2, 4, -2, 1]) / 5, arr([[v[3 * i + c] - q[c] for c in range(3)] for i in range(nv)]))
        return [(7 - p[2], ">") for p in r]
    check(j, [f"x{i}" for i in range(3 * nv)] + ["o0", "o1"] + [f"w{i}" for i in range(3 * nv)], fn, pre)
