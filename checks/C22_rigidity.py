"""C22: laplacian rigidity energy."""
import numpy as np

import meshes
import pysym
from pycheck import arr, attempt, check, facts, gradient_entries, pairs

BOUNDS = ("meshes of 1 to 8 faces (open, closed, every vertex used), all vertex positions, reference positions and a translation symbolic; regularisation weights 1/2, 3 and 1000")
ASSUMPTIONS = ["doubles are exact real numbers", "the weight multiplies a scipy sparse matrix and is therefore one of a few constants"]


def jobs(tier):
    o = []
    for m in ("triangle", "pair", "tetra", "fan3", "ring3") + (("pyramid", "octa", "strip4") if tier == "thorough" else ("pyramid",)):
        for c in (0.5, 3, 1000) if m == "pair" or tier == "thorough" else (3,):
            o.append((f"energy_{m}_{c}", dict(kind="energy", mesh=m, cregu=c)))
            if m in ("triangle", "pair", "tetra", "fan3"):
                o.append((f"gradient_{m}_{c}", dict(kind="grad", mesh=m, cregu=c)))
    o += [("components", dict(kind="comp", mesh="pair", cregu=3)), ("reference_kept", dict(kind="ref", mesh="pair", cregu=3))]
    return o


def run_job(j, kind, mesh, cregu):
    M = pysym.module("triangulated_mesh")
    E = pysym.module("laplacian_rigid_energy")
    nv, faces = meshes.MESHES[mesh]
    faces = meshes.rotated(faces)
    names = [f"v{i}{c}" for i in range(nv) for c in "xyz"] + [f"r{i}{c}" for i in range(nv) for c in "xyz"] + ["tx", "ty", "tz"]
    nb = [sorted({k for f in faces if i in f for k in f if k != i}) for i in range(nv)]

    def make(ref, fs=faces, n=nv):
        # the mesh itself is concrete: only its connectivity matters
        v = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [1, -1, 2]] + [[3, k, 0] for k in range(9)]
        m = M.TriMesh(np.array(fs, dtype=np.uint32), arr(v[:n]), compute_adjacencies=False)
        m._adjacencies = M.TriMeshAdjacencies(np.array(fs, dtype=np.uint32), nb_vertices=n)
        return E.LaplacianRigidEnergy(m, ref, cregu)

    def fn(v):
        x, r, t = arr(v[:3 * nv]).reshape(nv, 3), arr(v[3 * nv:6 * nv]).reshape(nv, 3), arr(v[6 * nv:6 * nv + 3])
        if kind == "comp":
            e = []
            for fs, n, ok in (([[0, 1, 2], [3, 4, 5]], 6, False), ([[0, 1, 2], [2, 3, 4]], 5, True), ([[0, 1, 2]], 4, False)):
                e += facts(f"mesh {fs} with {n} vertices is accepted", attempt(lambda: make(arr(np.zeros((n, 3))), fs, n))[1] is None, ok)
            return e
        en = make(r)
        if kind == "ref":           # the reference is copied
            r0 = r.copy()
            r += 1
            return pairs("reference", en.vertices_ref, r0) + pairs("energy at the reference", en.evaluate(r0)[0], 0)
        if kind == "grad":
            return gradient_entries(dict(x=x), ("x",), lambda i: [np.asarray(make(r).evaluate(i["x"])[0], dtype=object)], lambda i, ws: dict(x=make(r).evaluate(i["x"])[1]), [arr(np.ones(()))])
        val, g, h = en.evaluate(x)
        d = x - r
        lap = [[len(nb[i]) * d[i, c] - sum(d[k, c] for k in nb[i]) for c in range(3)] for i in range(nv)]
        sq = sum(q * q for w in lap for q in w)
        H = h.toarray() if hasattr(h, "toarray") else np.asarray(h)
        e = pairs("energy", val, pysym.N(cregu) / 2 * sq if pysym.SYM else cregu / 2 * sq) + facts("shape of the gradient", np.shape(g), (nv, 3)) + facts("shape of the hessian", H.shape, (3 * nv, 3 * nv))
        e += facts("symmetry of the hessian", H, H.T)
        if H.shape == (3 * nv, 3 * nv):
            e += pairs("hessian times displacement", (pysym.obj(H) if pysym.SYM else H).dot(d.reshape(-1)), np.asarray(g).reshape(-1))
        e += pairs("energy at the translated reference", en.evaluate(r + t)[0], 0) + pairs("energy after a translation", en.evaluate(x + t)[0], val)
        e += pairs("gradient at the translated reference", en.evaluate(r + t)[1], np.zeros((nv, 3)))
        return e
    check(j, names, fn)
