"""C21: mesh topology derived from the face list."""
import itertools

import numpy as np

import meshes
import pysym
from pycheck import arr, attempt, check, facts, pairs

BOUNDS = ("edge identifiers: all integer vertex pairs and vertex counts up to 2^31 (symbolic, 32 bit input, integer overflow modelled; one scenario per weak ordering of the four indices); face lists: vertex indices symbolic, made concrete by "
          "solver-driven case splits: every list of one and two faces over 5 vertices and of three faces over 5 (and four faces over 4 when thorough) vertices whose first face is (0,1,2), without repeated vertices "
          "in a face; orientation: closed meshes of 4 to 8 faces with all vertex positions symbolic, both orientations and clockwise flags")
ASSUMPTIONS = ["doubles are exact real numbers"]


def orderings(n):
    """weak orderings of n values as rank vectors"""
    return sorted(r for r in itertools.product(range(n), repeat=n) if set(r) == set(range(max(r) + 1)))


def jobs(tier):
    o = [(f"ids_{k}", dict(kind="ids", part=k)) for k in range(4)]
    o += [("one_face", dict(kind="faces", nv=5, nf=1)), ("two_faces", dict(kind="faces", nv=5, nf=2))]
    for a, b in itertools.permutations(range(5), 2):
        o.append((f"three_faces_{a}{b}", dict(kind="faces", nv=5, nf=3, second=(a, b))))
    if tier == "thorough":
        for a, b in itertools.permutations(range(4), 2):
            o.append((f"four_faces_{a}{b}", dict(kind="faces", nv=4, nf=4, second=(a, b))))
    for m in ("tetra", "pyramid", "octa"):
        for cw in (False, True):
            for fl in (False, True):
                o.append((f"volume_{m}_cw{cw}_{'flipped' if fl else ''}", dict(kind="vol", mesh=m, cw=cw, flip=fl)))
    for m in ("triangle", "fan3", "strip4"):
        o.append((f"open_{m}", dict(kind="vol", mesh=m, cw=False, flip=True)))
    return o


def dense(m):
    return np.asarray(m.todense() if hasattr(m, "todense") else m).astype(float)


def topology(M, faces, nv, give_nv=True):
    """entries comparing the adjacencies with the definition"""
    a = M.TriMeshAdjacencies(np.array(faces, dtype=np.uint32), **(dict(nb_vertices=nv) if give_nv else {}))
    und = sorted({frozenset((f[k], f[(k + 1) % 3])) for f in faces for k in range(3)}, key=sorted)
    cnt = {e: sum(1 for f in faces for k in range(3) if frozenset((f[k], f[(k + 1) % 3])) == e) for e in und}
    direct = [(f[k], f[(k + 1) % 3]) for f in faces for k in range(3)]
    manifold = all(c <= 2 for c in cnt.values()) and len(set(direct)) == len(direct)
    closed = manifold and all(c == 2 for c in cnt.values())
    e = facts("number of edges", a.nb_edges, len(und)) + facts("is_manifold", bool(a.is_manifold), manifold) + facts("is_closed", bool(a.is_closed), closed)
    ed = np.asarray(a.edges)
    e += facts("edges", sorted(sorted(int(q) for q in r) for r in ed), sorted(sorted(x) for x in und))
    fe = np.asarray(a.faces_edges)
    e += facts("shape of faces_edges", fe.shape, (len(faces), 3))
    if fe.shape == (len(faces), 3) and all(0 <= q < len(ed) for q in fe.flat):
        e += facts("edges of the faces", [[sorted(int(q) for q in ed[int(fe[i, k])]) for k in range(3)] for i in range(len(faces))],
                   [[sorted((f[k], f[(k + 1) % 3])) for k in range(3)] for f in faces])
    ef = np.array([[sum(1 for k in range(3) if frozenset((f[k], f[(k + 1) % 3])) == frozenset(int(q) for q in r)) for f in faces] for r in ed])
    e += facts("edges_faces_ones", dense(a.edges_faces_ones), ef)
    adj = dense(a.adjacency_vertices)
    exp = np.array([[float(i != k and frozenset((i, k)) in cnt) for k in range(nv)] for i in range(nv)])
    used = sorted({i for f in faces for i in f})
    for i in range(nv):             # the diagonal of a vertex without face carries no meaning
        if i not in used:
            adj[i, i] = 0
    e += facts("adjacency", adj, exp)
    e += facts("number of neighbours", np.asarray(a.degree_v_e).ravel()[used], exp.sum(axis=1)[used])
    e += facts("number of faces", np.asarray(a.degree_v_f).ravel(), [sum(i in f for f in faces) for i in range(nv)])
    lap = dense(a.laplacian)
    e += facts("laplacian", lap, np.diag(exp.sum(axis=1)) - exp)
    e += facts("boundary edges", sorted(sorted(int(q) for q in r) for r in np.asarray(a.boundary_edges())), sorted(sorted(x) for x in und if cnt[x] == 1))
    e += facts("hasBoundaries", bool(a.hasBoundaries), any(c == 1 for c in cnt.values()))
    return e


def run_job(j, kind, nv=0, nf=0, second=None, mesh=None, cw=False, flip=False, part=0):
    M = pysym.module("triangulated_mesh")
    if kind == "ids":
        for i, r in enumerate(orderings(4)):
            if i % 4 != part:
                continue
            ids(j, M, r)
        return
    if kind == "faces":
        names = [f"i{k}" for k in range(3 * (nf - 1))] or ["unused"]
        gn = nf > 1

        def pick(x, free):
            """concrete value of a symbolic index"""
            for k in free[:-1]:
                if (x == k if pysym.SYM else abs(float(x) - k) < 1e-9):
                    return k
            return free[-1]

        def fn(v):
            faces = [[0, 1, 2]]
            for q in range(nf - 1):
                f = []
                for k in range(3):
                    f.append(pick(v[3 * q + k], [i for i in range(nv) if i not in f]))
                faces.append(f)
            top = max(i for f in faces for i in f) + 1
            return topology(M, faces, nv if gn else top, gn)

        def pre(v):
            # integers are reached by the case splits of pick(); the values left to the last case are pinned to it by fn itself
            o = []
            for q in range(nf - 1):
                for k in range(3):
                    o += [(v[3 * q + k], ">="), (nv - 1 - v[3 * q + k], ">=")]
            if second is not None:
                o += [(v[0] - second[0], "="), (v[1] - second[1], "=")]
            return o
        return check(j, names, fn, pre, every=200)
    nv, faces = meshes.MESHES[mesh]
    faces = meshes.rotated(faces)
    if flip:
        faces = meshes.flipped(faces)
    F_ = np.array(faces, dtype=np.uint32)
    closed = mesh in ("tetra", "pyramid", "octa")
    sg = -1 if cw else 1

    def fn(v):
        x = arr(v).reshape(nv, 3)
        x = np.vstack((x[:1], x[:1] + x[1:]))
        vol = sg * meshes.volume6(faces, x)
        m, ex = attempt(lambda: M.TriMesh(F_, x, clockwise=cw))
        if not closed:
            if ex is not None:
                return facts("open mesh is accepted", False, True)
            return facts("the volume of an open mesh is refused", attempt(m.compute_volume)[1] is not None, True)
        if ex is not None:
            return [("volume of a rejected mesh", vol, "<")]
        return [("volume of an accepted mesh", vol, ">="), ("volume", 6 * m.compute_volume(), vol)]
    check(j, [f"v{i}{c}" for i in range(nv) for c in "xyz"], fn)


def ids(j, M, r):
    """edge identifiers for one weak ordering of the vertex indices a, b, c, d"""
    names = ["a", "b", "c", "d", "n"]

    def pre(v):
        o = [(v[4] - x - 1, ">=") for x in v[:4]] + [(x, ">=") for x in v[:4]] + [(2 ** 31 - v[4], ">="), (v[4] - 3, ">=")]
        for p, q in itertools.combinations(range(4), 2):
            d = r[q] - r[p]
            o.append((v[q] - v[p], "=") if d == 0 else (v[q] - v[p] - 1, ">=") if d > 0 else (v[p] - v[q] - 1, ">="))
        return o

    def fn(v):
        if not hasattr(M.TriMeshAdjacencies, "id_edge") or not hasattr(M.TriMeshAdjacencies([[0, 1, 2]]), "nb_vertices"):
            return facts("edge identifiers are computed elsewhere", True, True)
        a = M.TriMeshAdjacencies([[0, 1, 2]])
        out = []
        proper = r[0] != r[1] and r[2] != r[3]
        if pysym.SYM:
            a.nb_vertices = v[4]
            try:
                i, inc = a.id_edge(pysym.ints(v[:4], 32).reshape(2, 2))
            except pysym.Overflow:
                return [("edge identifiers of a mesh with many vertices overflow", False, "bool")]
        else:
            n = a.nb_vertices = int(round(v[4]))
            e = np.array([int(round(x)) for x in v[:4]], dtype=np.uint32).reshape(2, 2)
            i, inc = a.id_edge(e)
            for k in range(2):          # another edge with the same identifier
                for q in (divmod(int(i[k]), n), divmod(int(i[k]), n)[::-1]):
                    if max(q) < n and set(q) != set(int(t) for t in e[k]) and q[0] != q[1]:
                        k2 = a.id_edge(np.array([q], dtype=np.uint32))[0][0]
                        out.append((f"edges {e[k].tolist()} and {list(q)} of a mesh with {n} vertices share an identifier", bool(k2 != i[k]), "bool"))
        if proper:
            same = {r[0], r[1]} == {r[2], r[3]}
            out += facts("identifiers agree", bool(i[0] == i[1]), same) + facts("direction", [bool(q) for q in inc], [r[0] < r[1], r[2] < r[3]])
        return out or facts("nothing to compare", True, True)
    check(j, names, fn, pre)
