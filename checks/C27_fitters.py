"""C27: a fitter step follows the exact energy gradient with clamped steps."""
import contextlib
import io

import numpy as np

import cams
import meshes
import pysym
from pycheck import arr, attempt, check, facts, gradient_entries, pairs
from scene3d import Renderer, zeros

BOUNDS = ("depth fitter, colour fitter and multi-frame colour fitter (two frames) on meshes of 3 and 4 vertices. Gradient jobs: vertices, pose (every rotation, quaternions of every positive norm), colour, light and the "
          "2D renderer's gradients symbolic. Step jobs: images, observations, speeds, inertia and damping symbolic, parameters and gradients on symbolic lines through the parameter and gradient space that cross "
          "every clamp; depth images cross both clipping bounds")
ASSUMPTIONS = ["doubles are exact real numbers", "vertex normals are replaced by a linear function of the vertices (their adjoint is C19)", "the 2D renderer is arbitrary (C09 to C11)"]


def jobs(tier):
    o = []
    for kind in ("depth", "rgb", "multi"):
        o += [(f"gradient_{kind}", dict(kind=kind, what="gradient", mesh="triangle")), (f"step_{kind}", dict(kind=kind, what="step", mesh="pair")), (f"second_{kind}", dict(kind=kind, what="step", mesh="triangle", second=True)),
              (f"step2_{kind}", dict(kind=kind, what="step", mesh="triangle", variant=1)), (f"rigid_{kind}", dict(kind=kind, what="rigid", mesh="pair")),
              (f"update_{kind}", dict(kind=kind, what="frozen", mesh="triangle", variant=2))]
        if tier == "thorough":
            o += [(f"step3_{kind}", dict(kind=kind, what="step", mesh="fan3", variant=2)), (f"gradient_pair_{kind}", dict(kind=kind, what="gradient", mesh="pair"))]
    o += [("clip_depth", dict(kind="depth", what="clip", mesh="triangle"))]
    o += [(f"frozen{n}_" + k, dict(kind=k, what="frozen", mesh="triangle", variant=n)) for k in ("rgb", "multi") for n in (0, 1)]
    return o


H, W = 1, 2
V0 = [[0, 0, 0], [2, 0, 1], [0, 2, 0], [2, 2, -1], [3, 1, 1]]
B = [[1, 2, -1], [0, 1, 3], [2, -1, 1]]


class Seq(Renderer):
    """one image and one gradient per frame, in turn"""

    def __init__(self, images, grads):
        super().__init__()
        self.images, self.gradlist = images, grads

    def __call__(self, kind, scene, *a):
        n = sum(c["kind"] == kind for c in self.calls)
        self.image, self.grads = self.images[n % len(self.images)], self.gradlist[n % len(self.gradlist)]
        return super().__call__(kind, scene, *a)


def clamp(x, t):
    return -t if x < -t else (t if x > t else x)


def run_job(j, kind, what, mesh, second=False, variant=0):
    R = pysym.module("differentiable_renderer")
    M = pysym.module("triangulated_mesh")
    FT = pysym.module("mesh_fitter")
    nv, faces = meshes.MESHES[mesh]
    F_ = np.array(faces, dtype=np.uint32)
    depth, multi = kind == "depth", kind == "multi"
    nf = 2 if multi else 1
    nc = 1 if depth else 3
    Bm = np.array(B)

    class Mesh(M.ColoredTriMesh):
        """normals: a linear function of the vertices"""
        def compute_vertex_normals(self):
            self._n = self.vertices.dot(arr(Bm))

        @property
        def vertex_normals(self):
            return self._n

        def compute_vertex_normals_backward(self, nb):
            self._vertices_b = self._vertices_b + np.asarray(nb).dot(arr(Bm.T))

    @contextlib.contextmanager
    def patched():
        old = FT.ColoredTriMesh
        FT.ColoredTriMesh = Mesh
        try:
            yield
        finally:
            FT.ColoredTriMesh = old

    vref = np.array(V0[:nv], dtype=np.float64)

    def make(obs, sigma=0, **kw):
        e, t = np.array([0.1, 0.2, 0.3]), np.array([0.5, 0.0, 0.25])
        if multi:
            e, t = np.tile(e, (nf, 1)), np.tile(t, (nf, 1))
        common = dict(vertices=vref, faces=F_, euler_init=e, translation_init=t, cregu=3)
        with patched(), contextlib.redirect_stdout(io.StringIO()):
            if depth:
                f = FT.MeshDepthFitter(**common)
                f.set_depth_scale(arr([2])[0])
                f.set_max_depth(8)
                f.set_image(obs[0][:, :, 0], focal=3)
            else:
                cls = FT.MeshRGBFitterWithPoseMultiFrame if multi else FT.MeshRGBFitterWithPose
                f = cls(default_color=arr([1, 2, 3]), default_light_directional=arr([1, -2, 1]), default_light_ambient=arr([2])[0], **common, **kw)
                f.set_background_color(arr([0, 0, 0]))
                if multi:
                    f.set_images(list(obs), focal=3)
                else:
                    f.set_image(obs[0], focal=3)
        f.scene.sigma = sigma
        f.camera = R.Camera(extrinsic=arr([[1, 0, 0, 1], [0, -1, 0, 0], [0, 0, -1, 9]]), intrinsic=arr([[3, 0, 1], [0, 3, 1], [0, 0, 1]]), height=H, width=W)
        return f

    def quiet(fn):
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()

    def setp(f, p):
        f.vertices = p["v"]
        q, t = p["q"], p["t"]
        f.transform_quaternion = q.copy() if multi else q[0].copy()
        f.transform_translation = t.copy() if multi else t[0].copy()
        if not depth:
            f.mesh_color, f.light_directional, f.light_ambient = p["c"], p["l"], p["a"].item()

    def grads(f, r):
        """gradient of the parameters given the images and gradients of the renderer"""
        with r.installed():
            if multi:
                f.clear_gradients()
                for k in range(nf):
                    f.render(idframe=k)
                    f.render_backward(zeros(H, W, nc))
            else:
                f.render()
                f.render_backward(zeros(H, W, nc))
        g = dict(v=f._vertices_b, q=f.transform_quaternion_b if multi else np.asarray(f.transform_quaternion_b)[None], t=f.transform_translation_b if multi else np.asarray(f.transform_translation_b)[None])
        if not depth:
            g.update(c=f.mesh_color_b, l=f.light_directional_b, a=np.asarray(f.light_ambient_b, dtype=object))
        return g

    # ------------------------------------------------------------------------------------------------ gradients
    if what == "gradient":
        names = [f"x{i}{c}" for i in range(nv) for c in "xyz"]
        for k in range(nf):
            names += [f"{c}{k}" for c in ("ra", "rb", "rc", "s", "tx", "ty", "tz")]
        names += ["cr", "cg", "cb", "lx", "ly", "lz", "am"] + [f"w{i}" for i in range(nf * nv * (2 + nc))]

        def fn(v):
            it = iter(v)

            def take(*s):
                return arr([next(it) for _ in range(int(np.prod(s)))]).reshape(s)
            x = take(nv, 3)
            q, t = [], []
            for k in range(nf):
                p, s, tt = take(3), take(1), take(3)
                n = 1 + p[0] * p[0] + p[1] * p[1] + p[2] * p[2]
                q.append([2 * p[0] / n * s[0], 2 * p[1] / n * s[0], 2 * p[2] / n * s[0], (2 - n) / n * s[0]])
                t.append(list(tt))
            q, t = arr(q), arr(t)
            p = dict(v=(x - t[0]).dot(cams.rotation(v[3 * nv:3 * nv + 3])), q=q, t=t, c=take(3), l=take(3), a=take(1).reshape(()))
            w = [dict(ij_b=take(nv, 2), colors_b=take(nv, nc)) for _ in range(nf)]
            im = [arr(np.full((H, W, nc), 1)) for _ in range(nf)]      # within the clipping bounds of the depth
            obs = [arr(np.full((H, W, nc), 3)) for _ in range(nf)]

            def fwd(d):
                f = make(obs)
                setp(f, d)
                r = Seq(im, w)
                with r.installed():
                    for k in range(nf):
                        f.render(idframe=k) if multi else f.render()
                return [a for c in r.calls for a in (c["scene"].ij, c["scene"].colors)]

            def back(d, ws):
                f = make(obs)
                setp(f, d)
                return grads(f, Seq(im, w))
            wrt = ("v", "q", "t") + (() if depth else ("c", "l", "a"))
            return gradient_entries(p, wrt, fwd, back, [a for d in w for a in (d["ij_b"], d["colors_b"])])

        def pre(v):
            o = [(v[3 * nv + 7 * k + 3], ">") for k in range(nf)]
            with_z = []
            for k in range(nf):
                if k == 0:
                    X = [v[3 * i:3 * i + 3] for i in range(nv)]
                else:
                    Rk = cams.rotation(v[3 * nv + 7 * k:3 * nv + 7 * k + 3])
                    R0 = cams.rotation(v[3 * nv:3 * nv + 3])
                    t0, tk = arr(v[3 * nv + 4:3 * nv + 7]), arr(v[3 * nv + 7 * k + 4:3 * nv + 7 * k + 7])
                    X = [list(Rk.dot((arr(v[3 * i:3 * i + 3]) - t0).dot(R0)) + tk) for i in range(nv)]
                with_z.append(X)
                o += [(9 - x[2], ">") for x in X]
            if not depth:       # not on the kink of the lighting
                l = v[3 * nv + 7 * nf + 3:3 * nv + 7 * nf + 6]
                for X in with_z:
                    for x in X:
                        o.append((sum(x[a] * Bm[a][b] * l[b] for a in range(3) for b in range(3)), "!="))
            return o
        if multi:       # the second frame has a concrete rotation and translation relative to which everything else varies
            sub = [i for i, n in enumerate(names) if n in ("ra1", "rb1", "rc1", "s1", "tx1", "ty1", "tz1", "ra0", "rb0", "rc0", "x1x", "x1y", "x1z", "x2x", "x2y", "x2z", "lx", "ly", "lz")]
            val = dict(ra1=1, rb1=0, rc1=0, s1=2, tx1=-1, ty1=2, tz1=3, ra0=1, rb0=1, rc0=-1, x1x=2, x1y=-1, x1z=1, x2x=1, x2y=3, x2z=-2, lx=1, ly=2, lz=-2)
            const = {i: val[names[i]] for i in sub}
            free = [n for i, n in enumerate(names) if i not in const]

            def full(v):
                it = iter(v)
                return [(pysym.N(const[i]) if pysym.SYM else float(const[i])) if i in const else next(it) for i in range(len(names))]
            return check(j, free, lambda v: fn(full(v)), lambda v: [q for q in pre(full(v)) if not (isinstance(q[0], (int, float)) or (hasattr(q[0], "is_const") and q[0].is_const()))])
        return check(j, names, fn, pre)

    # ------------------------------------------------------------------------------------------------ steps
    npar = nv * 3 + nf * 7
    names = ["g", "inertia", "damping"] + [f"sp{i}" for i in range(nv * 3 + 4 + 3 + (0 if depth else 7))] + [f"im{i}" for i in range(nf * H * W * nc)] + [f"ob{i}" for i in range(nf * H * W * nc)]
    rs = np.random.RandomState(17 + variant)
    W0 = [dict(ij_b=rs.randint(-9, 10, (nv, 2)), colors_b=rs.randint(-3, 4, (nv, nc))) for _ in range(nf)]
    W1 = [dict(ij_b=rs.randint(-9, 10, (nv, 2)), colors_b=rs.randint(-3, 4, (nv, nc))) for _ in range(nf)]
    D = rs.randint(-2, 3, (nv, 3))

    def fn(v):
        it = iter(v)

        def take(*s):
            return arr([next(it) for _ in range(int(np.prod(s)))]).reshape(s)
        g, ine, dam = v[:3]
        take(3)
        if pysym.SYM:
            g, ine, dam = pysym.N(g), pysym.N(ine), pysym.N(dam)
        spv, spq, spt = take(nv, 3), take(4), take(3)
        if what != "frozen":      # the update formula for every inertia, damping and quaternion speed is the frozen job
            ine, dam = arr([1])[0] / 2, arr([1])[0] / 4
            spq = arr([1, -1, 0, 2])
        elif multi:
            spq = arr([1, -1, 0, 2])
        spc, spl, spa = (take(3), take(3), take(1)) if not depth else (None, None, None)
        im, ob = take(nf, H, W, nc), take(nf, H, W, nc)
        x = arr(V0[:nv])
        if what == "rigid":
            x = x + arr(D) * g
            w = [dict(ij_b=arr(W0[k]["ij_b"] * 0), colors_b=arr(W0[k]["colors_b"] * 0)) for k in range(nf)]
        elif what in ("clip", "frozen"):
            x = x + arr(D)
            w = [dict(ij_b=arr(W1[k]["ij_b"]), colors_b=arr(W1[k]["colors_b"])) for k in range(nf)]
        else:
            x = x + arr(D)
            w = [dict(ij_b=arr(W0[k]["ij_b"]) * g + arr(W1[k]["ij_b"]), colors_b=arr(W0[k]["colors_b"]) * g + arr(W1[k]["colors_b"])) for k in range(nf)]
        if depth and what != "clip":
            im = arr(np.array([1, 3]).reshape(im.shape))
        p = dict(v=x, q=arr([[2, 4, -2, 1], [1, 1, -1, 1]][:nf]), t=arr([[1, 0, 2], [0, -1, 1]][:nf]), c=arr([1, 2, 3]), l=arr([1, -2, 1]), a=arr([2]).reshape(()))
        fz = dict(update_lights=variant == 1, update_color=variant == 0) if what == "frozen" and variant < 2 else {}
        f = make(ob, sigma=1 if variant else 0, **fz)
        setp(f, p)
        if second:      # an earlier step leaves nothing but the speeds and the parameters behind
            with Seq([arr(np.full((H, W, nc), 5))] * nf, [dict(ij_b=arr(W0[k]["ij_b"]), colors_b=arr(W0[k]["colors_b"])) for k in range(nf)]).installed():
                quiet(f.step)
            setp(f, p)
        f.inertia, f.damping = ine, dam
        # bounds that the steps cross
        f.step_factor_vertices, f.step_max_vertices = arr([1])[0] / 4, 7
        f.step_factor_quaternion, f.step_max_quaternion = arr([1])[0] / 8, 3
        f.step_factor_translation, f.step_max_translation = arr([1])[0] / 2, 5
        f.speed_vertices, f.speed_quaternion, f.speed_translation = spv, spq, spt
        if not depth:
            f.speed_mesh_color, f.speed_light_directional, f.speed_light_ambient = spc, spl, spa[0]
        xc = x - arr([[sum(x[i, c] for i in range(nv)) / nv for c in range(3)]] * nv)
        ref = make(ob)
        setp(ref, dict(p, v=xc))
        G = grads(ref, Seq([arr(np.full((H, W, nc), 1))] * nf, w))
        cd = ref.cdata / arr([nf])[0] if multi else 1
        r = Seq(list(im), w)
        with r.installed():
            energy, image, diff = quiet(f.step)
        # energy and image gradient
        img = im
        if depth:
            img = np.frompyfunc(lambda q: clamp(q - 4, 4) + 4, 1, 1)(np.asarray(im, dtype=object))
        er, gr, _ = ref.rigid_energy.evaluate(xc)
        sq = (np.asarray(img) - np.asarray(ob)) ** 2
        e = pairs("energy", energy, cd * sum(list(sq.reshape(-1))) + er)
        bc = [c for c in r.calls if c["kind"] == "render_b"]
        e += facts("renderings", len([c for c in r.calls if c["kind"] == "render"]), nf) + facts("back-propagations", len(bc), nf)
        for k in range(min(nf, len(bc))):
            ib = 2 * cd * (np.asarray(img)[k] - np.asarray(ob)[k])
            if depth:
                for i in np.ndindex(*ib.shape):
                    if im[(k,) + i] < 0 or im[(k,) + i] > 8:
                        ib[i] = 0
            e += pairs(f"image gradient of frame {k}", bc[k]["image_b"], ib)
            got = np.asarray(diff[k] if multi else diff)
            e += pairs(f"squared difference of frame {k}", got, np.asarray(sq)[k].sum(axis=-1))
            got = np.asarray(image[k] if multi else image)
            e += pairs(f"returned image of frame {k}", got.reshape(H, W, nc), np.asarray(img)[k])

        # parameters
        def upd(sp, step):
            return (1 - dam) * (np.asarray(sp) * ine + (1 - ine) * step)

        def cl(gg, a, t):
            return np.frompyfunc(lambda q: clamp(-q * a, t), 1, 1)(np.asarray(gg, dtype=object))
        gv = np.asarray(G["v"], dtype=object)
        gv = gv - np.array([[sum(gv[i, c] for i in range(nv)) / nv for c in range(3)]] * nv, dtype=object) + np.asarray(gr, dtype=object)
        q4, q8, q2 = arr([1])[0] / 4, arr([1])[0] / 8, arr([1])[0] / 2
        e += pairs("vertices", f.vertices, xc + upd(spv, cl(gv, q4, 7)))
        e += pairs("translation", np.asarray(f.transform_translation).reshape(nf, 3), p["t"] + upd(spt, cl(G["t"], q2, 5)))
        qn = np.asarray(f.transform_quaternion).reshape(nf, 4)
        qe = p["q"] + upd(spq, cl(G["q"], q8, 3))
        for k in range(nf):
            for a in range(4):
                for b in range(a):
                    e += pairs(f"direction of quaternion {k} ({a},{b})", qn[k, a] * qe[k, b], qn[k, b] * qe[k, a])
            e.append((f"orientation of quaternion {k}", sum(qn[k, a] * qe[k, a] for a in range(4)), ">="))
        if not multi:
            e += pairs("norm of the quaternion", sum(q * q for q in qn[0]), 1)
        if not depth:
            k1, k2 = arr([0.0001])[0], arr([0.00001])[0]
            lu, cu = fz.get("update_lights", True), fz.get("update_color", True)
            if lu:
                e += pairs("light", f.light_directional, p["l"] + upd(spl, -np.asarray(G["l"], dtype=object) * k1)) + pairs("ambient", np.asarray(f.light_ambient, dtype=object), 2 + upd(spa[0], -np.asarray(G["a"], dtype=object).item() * k1))
            else:
                e += pairs("light", f.light_directional, p["l"]) + pairs("ambient", np.asarray(f.light_ambient, dtype=object), arr([2])[0])
            e += pairs("colour", f.mesh_color, p["c"] + (upd(spc, -np.asarray(G["c"], dtype=object) * k2) if cu else 0))
        return e

    def pre(v):
        # a quaternion update that does not vanish; the scene stays in front of the camera on the explored line
        o = [(v[0] + 3, ">="), (3 - v[0], ">=")] if what == "rigid" else [(v[0] + 50, ">="), (50 - v[0], ">=")]
        return o + [(v[1], ">="), (1 - v[1], ">="), (v[2], ">="), (1 - v[2], ">=")] + [(v[3 + 3 * nv + i] + (1 if i % 2 else 2), ">=") for i in range(4)] + [((1 if i % 2 else 2) - v[3 + 3 * nv + i], ">=") for i in range(4)]
    check(j, names, fn, pre)
