"""C19: mesh normals and their adjoint."""
import numpy as np

import meshes
import pysym
from pycheck import arr, check, facts, gradient_entries, pairs

BOUNDS = ("meshes of 1 to 8 faces (single triangle, pair, open and closed fans, tetrahedron, pyramid, octahedron), both clockwise flags, every start vertex of the faces; all vertex positions symbolic "
          "(faces not degenerate); vertex normals from symbolic face normals (no vanishing sum); incoming gradients symbolic (face adjoint of the tetrahedron: one face at a time)")
ASSUMPTIONS = ["doubles and square roots are exact"]


def jobs(tier):
    o = []
    for cw in (False, True):
        for m in ("triangle", "pair", "tetra"):
            o += [(f"face_{m}_cw{cw}", dict(kind="face", mesh=m, cw=cw)), ] + [(f"face_adjoint_{m}_cw{cw}" + (f"_{k}" if k is not None else ""), dict(kind="faceb", mesh=m, cw=cw, face=k)) for k in (range(4) if m == "tetra" else [None])]
        for m in ("pair", "fan3") + (("tetra",) if not cw or tier == "thorough" else ()) + (("pyramid", "octa") if tier == "thorough" else ()):
            o += [(f"vertex_{m}_cw{cw}", dict(kind="vert", mesh=m, cw=cw)), (f"vertex_adjoint_{m}_cw{cw}", dict(kind="vertb", mesh=m, cw=cw))]
        o += [(f"trimesh_triangle_cw{cw}", dict(kind="mesh", mesh="triangle", cw=cw)), (f"trimesh_pair_cw{cw}", dict(kind="mesh", mesh="pair", cw=cw)),
              (f"front_{cw}", dict(kind="front", mesh="triangle", cw=cw)), (f"stale_{cw}", dict(kind="stale", mesh="triangle", cw=cw)),
              (f"outward_tetra_{cw}", dict(kind="outward", mesh="tetra", cw=cw))]
    return o


def run_job(j, kind, mesh, cw, face=None):
    M = pysym.module("triangulated_mesh")
    nv, faces = meshes.MESHES[mesh]
    if cw:
        faces = meshes.flipped(faces)
    faces = meshes.rotated(faces)
    nf = len(faces)
    F_ = np.array(faces, dtype=np.uint32)
    sg = -1 if cw else 1
    P = [f"v{i}{c}" for i in range(nv) for c in "xyz"]
    used = sorted({i for f in faces for i in f})

    def verts(v):
        return arr(v[:3 * nv]).reshape(nv, 3)

    def adj():
        return M.TriMeshAdjacencies(F_, clockwise=cw, nb_vertices=nv)

    def pre_nondeg(v):
        x = [v[3 * i:3 * i + 3] for i in range(nv)]
        return [(meshes.dot(c, c), ">") for c in (meshes.face_cross(f, x) for f in faces)]

    def unit_parallel(nm, n, d):
        """n is the unit vector along d"""
        r = pysym.np_proxy.sqrt(meshes.dot(d, d))
        return [(f"{nm}, component {k}", n[k] * r, d[k]) for k in range(3)] + facts(nm, np.shape(n), (3,))
    if kind == "face":
        def fn(v):
            x = verts(v)
            n = adj().compute_face_normals(x)
            e = facts("shape", np.shape(n), (nf, 3))
            for k, f in enumerate(faces):
                e += unit_parallel(f"normal of face {k}", n[k], [sg * q for q in meshes.face_cross(f, x)])
            return e
        return check(j, P, fn, pre_nondeg)
    if kind == "faceb":
        def fn(v):
            w = arr(v[3 * nv:]).reshape(nf, 3) if face is None else arr([v[3 * nv:] if k == face else [0, 0, 0] for k in range(nf)])

            def back(i, ws):
                a = adj()
                a.compute_face_normals(i["v"])
                return dict(v=a.compute_face_normals_backward(ws[0]))
            return gradient_entries(dict(v=verts(v)), ("v",), lambda i: [adj().compute_face_normals(i["v"])], back, [w])
        return check(j, P + [f"w{i}" for i in range(3 * nf if face is None else 3)], fn, pre_nondeg)
    if kind in ("vert", "vertb"):
        names = [f"n{i}" for i in range(3 * nf)] + ([f"w{i}" for i in range(3 * nv)] if kind == "vertb" else [])

        def pre(v):
            n = [v[3 * i:3 * i + 3] for i in range(nf)]
            o = []
            for i in used:
                d = [sum((n[k][c] for k, f in enumerate(faces) if i in f), 0) for c in range(3)]
                o.append((meshes.dot(d, d), ">"))
            return o

        def fn(v):
            n = arr(v[:3 * nf]).reshape(nf, 3)
            if kind == "vert":
                r = adj().compute_vertex_normals(n)
                e = facts("shape", np.shape(r), (nv, 3))
                for i in used:
                    e += unit_parallel(f"normal of vertex {i}", r[i], [sum((n[k, c] for k, f in enumerate(faces) if i in f), 0) for c in range(3)])
                return e
            w = arr(v[3 * nf:]).reshape(nv, 3)

            def back(i, ws):
                a = adj()
                a.compute_vertex_normals(i["n"])
                return dict(n=a.compute_vertex_normals_backward(ws[0]))
            return gradient_entries(dict(n=n), ("n",), lambda i: [adj().compute_vertex_normals(i["n"])], back, [w])
        return check(j, names, fn, pre)
    if kind == "mesh":
        # the mesh class: lazily computed normals, gradients added to the vertex gradients
        small = mesh == "pair"
        names = P + [f"w{i}" for i in range(3 * nv)] + [f"g{i}" for i in range(3 * nv)]
        if small:       # two faces share an edge: the shared vertices are fixed to keep the two square roots tractable
            names = [q for q in names if q not in P[:9]]
        fixed = [1, 0, 0, 0, 2, 0, 0, 0, 3]

        def full(v):
            return (fixed + list(v)) if small else list(v)

        def fn(v):
            v = full(v)
            x, w, g = verts(v), arr(v[3 * nv:6 * nv]).reshape(nv, 3), arr(v[6 * nv:]).reshape(nv, 3)

            def fwd(i):
                return [M.TriMesh(F_, i["v"], clockwise=cw).vertex_normals]

            def back(i, ws):
                m = M.TriMesh(F_, i["v"], clockwise=cw)
                m.compute_vertex_normals()
                m._vertices_b = g.copy()
                m.compute_vertex_normals_backward(ws[0])
                return dict(v=m._vertices_b - g)
            e = gradient_entries(dict(v=x), ("v",), fwd, back, [w])
            m = M.TriMesh(F_, x, clockwise=cw)
            fn_ = m.face_normals
            for k, f in enumerate(faces):
                e += unit_parallel(f"normal of face {k}", fn_[k], [sg * q for q in meshes.face_cross(f, x)])
            return e

        def pre(v):
            return pre_nondeg(full(v))
        return check(j, names, fn, pre)
    if kind == "outward":
        def tetra(v, a=True):
            x = [v[:3]] + [[v[c] + v[3 * i + c] for c in range(3)] for i in range(1, 4)]
            return arr(x) if a else x

        def fn(v):
            x = tetra(v)
            m = M.TriMesh(F_, x, clockwise=cw)
            n = m.face_normals
            e = []
            c = [sum(x[i][k] for i in range(4)) for k in range(3)]
            for k, f in enumerate(faces):
                d = meshes.face_cross(f, x)
                # distance of the face from the centroid along the normal, times 4 and the face's doubled area: 6 times the (positive) volume
                e.append((f"normal of face {k} points away from the centre", meshes.dot(n[k], [4 * x[f[0]][q] - c[q] for q in range(3)]) * pysym.np_proxy.sqrt(meshes.dot(d, d)),
                          sg * meshes.volume6(faces, x)))
            return e

        def pre(v):
            x = [tetra(v, False)[i] for i in range(nv)]
            return [(sg * meshes.volume6(faces, x), ">")]
        return check(j, P, fn, pre)
    if kind == "front":
        # seen from the origin along +z (image rows downwards): the face is front-facing exactly when its normal points to the origin
        def fn(v):
            p = arr(v[:6]).reshape(3, 2)
            z = arr(v[6:9])
            x = np.column_stack((p * z[:, None], z))
            m = M.TriMesh(F_, x, clockwise=cw)
            s = np.asarray(m.adjacencies.edge_on_silhouette(p))
            d = meshes.face_cross(faces[0], x)
            r = meshes.dot(m.face_normals[0], x[faces[0][0]]) * pysym.np_proxy.sqrt(meshes.dot(d, d)) / (z[0] * z[1] * z[2])
            vis = bool(s[0, 0])
            return facts("flags", s, [[vis] * 3]) + [("normal towards the camera", r, "<" if vis else ">=")]

        def pre(v):
            p, z = v[:6], v[6:9]
            x = [[p[2 * i] * z[i], p[2 * i + 1] * z[i], z[i]] for i in range(3)]
            return [(q, ">") for q in z] + pre_nondeg([q for w in x for q in w])
        return check(j, P, fn, pre)
    if kind == "stale":
        # new vertex positions replace the normals
        def fn(v):
            x = verts(v)
            m = M.TriMesh(F_, arr([[0, 0, 0], [1, 0, 0], [0, 1, 0]]), clockwise=cw)
            m.vertex_normals
            m.set_vertices(x)
            e = []
            for k in range(3):
                e += unit_parallel(f"normal of vertex {k}", m.vertex_normals[k], [sg * q for q in meshes.face_cross(faces[0], x)])
            return e + pairs("cleared gradient", m._vertices_b, np.zeros((3, 3)))
        return check(j, P, fn, pre_nondeg)
