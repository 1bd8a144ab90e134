"""C28: Loop subdivision keeps topology, orientation and the affine position of the mesh."""
import numpy as np

import meshes
import pysym
from pycheck import arr, attempt, check, facts, pairs

BOUNDS = ("closed meshes of 4 to 8 faces (tetrahedron, pyramid, octahedron, bipyramid) in both orientations with faces starting anywhere, with and without the clockwise flag, 0 to 2 levels "
          "(thorough: 3), 1 and 3 colour channels or none; every vertex position and colour symbolic")
ASSUMPTIONS = ["the orientation check of the constructor is switched off (C21)", "doubles are exact real numbers"]
MESHES = dict(meshes.MESHES, bipyramid=(5, [[0, 1, 3], [1, 2, 3], [2, 0, 3], [1, 0, 4], [2, 1, 4], [0, 2, 4]]))


def jobs(tier):
    o = []
    for m in ("tetra", "pyramid", "octa", "bipyramid"):
        for cw in (False, True):
            for k in (0, 1) if tier == "quick" else (0, 1, 2):
                o.append((f"{m}_cw{int(cw)}_start{k}", dict(mesh=m, cw=cw, k=k, nc=1 + 2 * k if k < 2 else 2)))
    o += [("flip", dict(mesh="tetra", cw=False, k=1, nc=1, flip=True)), ("uncoloured", dict(mesh="tetra", cw=True, k=1, nc=0)),
          ("levels", dict(mesh="tetra", cw=True, k=1, nc=1, n=2)), ("levels_octa", dict(mesh="octa", cw=False, k=0, nc=1, n=2)), ("none", dict(mesh="tetra", cw=True, k=0, nc=1, n=0)),
          ("textured", dict(mesh="tetra", cw=False, k=0, nc=1, n=-1))]
    o += [("levels3", dict(mesh="tetra", cw=True, k=1, nc=1, n=3))]
    if tier == "thorough":
        o += [("levels4", dict(mesh="tetra", cw=True, k=1, nc=1, n=4)), ("levels3_octa", dict(mesh="octa", cw=False, k=1, nc=1, n=3))]
    return o


def cyc(f):
    f = [int(q) for q in f]
    i = f.index(min(f))
    return tuple(f[i:] + f[:i])


def run_job(j, mesh, cw, k, nc, n=1, flip=False):
    M = pysym.module("triangulated_mesh")
    nv, faces = MESHES[mesh]
    faces = meshes.rotated(meshes.flipped(faces) if flip else faces, k)
    F_ = np.array(faces, dtype=np.uint32)
    names = [f"v{i}{c}" for i in range(nv) for c in "xyz"] + [f"a{i}" for i in range(nv * nc)]
    edges = sorted({tuple(sorted((f[a], f[(a + 1) % 3]))) for f in faces for a in range(3)})
    nb = [{q for e in edges if i in e for q in e} for i in range(nv)]

    M.TriMesh.check_orientation = lambda self: None      # every vertex position: also those of surfaces that intersect themselves

    def fn(v):
        x, a = arr(v[:3 * nv]).reshape(nv, 3), (arr(v[3 * nv:]).reshape(nv, nc) if nc else None)

        def sub(x_, a_, n_=1):
            m = M.ColoredTriMesh(F_, x_, clockwise=cw, **(dict(colors=a_, nb_colors=nc) if nc else dict(nb_colors=3)))
            return M.loop_subdivision(m, n_)
        if n == -1:
            m = M.ColoredTriMesh(F_, x, uv=arr(np.zeros((nv, 2))), faces_uv=F_, texture=arr(np.zeros((2, 2, 1))), nb_colors=1)
            return facts("textured meshes are refused", attempt(lambda: M.loop_subdivision(m, 1))[1] is not None, True)
        s = sub(x, a, n)
        if n != 1:
            t = M.ColoredTriMesh(F_, x, clockwise=cw, colors=a, nb_colors=nc)
            for _ in range(n):
                t = M.loop_subdivision(t, 1)
            return (facts("number of faces", len(s.faces), len(faces) * 4 ** n) + facts("faces", np.asarray(s.faces).astype(int), np.asarray(t.faces).astype(int)) + pairs("vertices", s.vertices, t.vertices)
                    + pairs("colours", s.vertices_colors, t.vertices_colors) + facts("clockwise", bool(s.clockwise), cw) + facts("channels", s.nb_colors, nc))
        nf = np.asarray(s.faces).astype(int)
        e = facts("clockwise", bool(s.clockwise), cw) + facts("shape of the faces", nf.shape, (4 * len(faces), 3)) + facts("shape of the vertices", np.shape(s.vertices), (nv + len(edges), 3))
        e += facts("indices", bool(nf.min() >= 0 and nf.max() < nv + len(edges)), True)
        if not all(q[1] is True for q in e):
            return e
        # the new vertex of each edge is the one next to both ends
        ends = {}
        for f in nf:
            for q in f:
                if q >= nv:
                    ends.setdefault(int(q), set()).update(int(p) for p in f if p < nv)
        mid = {tuple(sorted(p)): q for q, p in ends.items()}
        e += facts("one new vertex per edge", sorted(mid) == edges and len(mid) == len(ends), True)
        if e[-1][1] is not True:
            return e
        exp = []
        for f in faces:
            m = [mid[tuple(sorted((f[q], f[(q + 1) % 3])))] for q in range(3)]
            exp += [(f[0], m[0], m[2]), (f[1], m[1], m[0]), (f[2], m[2], m[1]), tuple(m)]
        e += facts("faces keep the orientation", sorted(map(cyc, nf)) == sorted(map(cyc, exp)), True)
        de = [(int(f[q]), int(f[(q + 1) % 3])) for f in nf for q in range(3)]
        e += facts("closed manifold", len(set(de)) == len(de) and {(b, c) for c, b in de} == set(de), True)
        # affine weights: the response to moving one vertex
        support, near = [], []
        for i in range(nv):
            support.append(nb[i] | {i})
            near.append({i})
        for q in range(nv, nv + len(edges)):
            p = next(z for z, r in mid.items() if r == q)
            support.append(set(p) | {r for f in faces if p[0] in f and p[1] in f for r in f})
            near.append(set(p))
        for what, base, f in [("position", x, lambda z: sub(z, a).vertices)] + ([("colour", a, lambda z: sub(x, z).vertices_colors)] if nc else []):
            r0 = np.asarray(f(base))
            if r0.shape[0] != nv + len(edges):
                return e + facts(f"number of {what}s", r0.shape[0], nv + len(edges))
            lin = r0.copy() if not pysym.SYM else np.asarray(r0, dtype=object)
            tot = [0] * len(r0)
            for i in range(nv):
                b = base.copy()
                for c in range(b.shape[1]):
                    b[i, c] = b[i, c] + 1
                w = np.asarray(f(b)) - r0
                for q in range(len(r0)):
                    for c in range(w.shape[1]):
                        if i not in support[q]:
                            e.append((f"{what} of new vertex {q} moves with vertex {i}", w[q, c], 0))
                        elif i in near[q]:
                            e.append((f"weight of vertex {i} in the {what} of new vertex {q}", w[q, c], ">"))
                        else:
                            e.append((f"weight of vertex {i} in the {what} of new vertex {q}", w[q, c], ">="))
                    tot[q] = tot[q] + w[q, 0]
                lin = lin - w * np.asarray(base)[i][None, :]
            e += pairs(f"sum of the weights of the {what}", np.array(tot, dtype=object), np.array([1] * len(tot), dtype=object)) + pairs(f"{what} beyond the weighted mean", lin, np.zeros(lin.shape, dtype=int).astype(object))
        return e
    check(j, names, fn)
