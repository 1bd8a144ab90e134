"""C20: an edge is a silhouette edge exactly when one adjacent face is visible."""
import numpy as np

import meshes
import pysym
from pycheck import arr, check, facts

BOUNDS = ("open and closed manifold meshes of 1 to 8 faces with every start vertex of the faces and both orientations, both clockwise flags, all projected vertex positions symbolic (every "
          "combination of visible, invisible and degenerate faces); the visibility test is the sign of the doubled signed area used by the rasteriser (C04)")
ASSUMPTIONS = ["doubles are exact real numbers"]
QUICK = ("triangle", "pair", "fan3", "ring3", "tetra", "strip4", "unused")


def jobs(tier):
    o = []
    for m in QUICK + (("pyramid", "octa") if tier == "thorough" else ("pyramid",)):
        for cw in (False, True):
            for fl in (False, True):
                if len(meshes.MESHES[m][1]) > 3 and fl != cw:
                    continue
                o.append((f"{m}_cw{cw}_{'flipped' if fl else ''}", dict(mesh=m, cw=cw, flip=fl)))
    o.append(("trimesh_open", dict(mesh="pair", cw=False, flip=False, via="mesh")))
    o.append(("trimesh_strip", dict(mesh="strip4", cw=True, flip=True, via="mesh")))
    o.append(("nonmanifold", dict(mesh="pair", cw=False, flip=False, via="bad")))
    return o


def run_job(j, mesh, cw, flip, via="adj"):
    M = pysym.module("triangulated_mesh")
    nv, faces = meshes.MESHES[mesh]
    faces = meshes.rotated(faces)
    if flip:
        faces = meshes.flipped(faces)
    names = [f"p{i}{c}" for i in range(nv) for c in "xy"]

    def fn(v):
        p = arr(v).reshape(nv, 2)
        p = np.vstack((p[:1], p[:1] + p[1:]))      # first vertex and offsets from it: the areas do not depend on the first vertex
        F_ = np.array(faces, dtype=np.uint32)
        if via == "bad":
            try:
                M.TriMesh(np.array(faces + [[1, 2, 0]], dtype=np.uint32), arr(np.zeros((nv, 3)))).edge_on_silhouette(p)
            except Exception:
                return facts("non manifold mesh is rejected", True, True)
            return facts("non manifold mesh is rejected", False, True)
        if via == "mesh":
            s = M.TriMesh(F_, arr(np.zeros((nv, 3))), clockwise=cw).edge_on_silhouette(p)
        else:
            s = M.TriMeshAdjacencies(F_, clockwise=cw, nb_vertices=nv).edge_on_silhouette(p)
        s = np.asarray(s)
        e = facts("shape", s.shape, (len(faces), 3))
        vis = []
        for f in faces:
            u, w = p[f[1]] - p[f[0]], p[f[2]] - p[f[0]]
            c = u[0] * w[1] - u[1] * w[0]
            vis.append(bool(c > 0) if cw else bool(c < 0))
        exp = [[sum(vis[q] for q, g in enumerate(faces) if f[k] in g and f[(k + 1) % 3] in g) == 1 for k in range(3)] for f in faces]
        return e + facts("silhouette flags", s.astype(bool), exp)
    check(j, names, fn, every=20)
