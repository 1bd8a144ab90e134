"""C34: the MeshLab project describes the same cameras, images and mesh."""
import os
import tempfile
from xml.dom import minidom

import numpy as np

import cams
import pysym
from pycheck import arr, check, facts, pairs

BOUNDS = ("one and two cameras without distortion and with square pixels: every rotation (stereographic quaternion parameters), translation, focal length and principal point symbolic; image sizes 3x5 and 6x2; "
          "two symbolic world points in front of each camera; projects written in the working directory and elsewhere")
ASSUMPTIONS = ["MeshLab's (VCG) camera: p = RotationMatrix (world + TranslationVector), looking along -z with y up, pixels = FocalMm / PixelSizeMm * p / -pz from CenterPx, ViewportPx is width then height",
               "the vertical origin of CenterPx is taken as written by the library (row of the principal point)", "doubles are exact real numbers and print exactly"]
PTS = 2


def jobs(tier):
    o = [("one_3x5", dict(n=1, h=3, w=5)), ("one_6x2", dict(n=1, h=6, w=2, here=True)), ("two", dict(n=2, h=4, w=3)), ("named", dict(n=1, h=2, w=2, obj_name="part.obj"))]
    if tier == "thorough":
        o += [("three", dict(n=3, h=5, w=4))]
    return o


def run_job(j, n, h, w, here=False, obj_name=None):
    X = pysym.module("meshlab_io")
    M = pysym.module("triangulated_mesh")
    R = pysym.module("differentiable_renderer")
    per = len(cams.ROT + cams.TR) + 3 + 3 * PTS
    names = [f"{q}_{i}" for i in range(n) for q in cams.ROT + cams.TR + ["f", "cx", "cy"] + [f"q{k}" for k in range(3 * PTS)]]

    def fn(v):
        C = []
        for i in range(n):
            p = v[i * per:(i + 1) * per]
            C.append(cams.Cam(list(p[:6]) + [p[6], 0, p[7], p[6], p[8]] + list(p[9:]), PTS, height=h + i, width=w + 2 * i))
        images = [(np.arange((h + i) * (w + 2 * i) * 3).reshape(h + i, w + 2 * i, 3) * 7 + i) % 251 * 1.0 for i in range(n)]
        verts = np.array([[0, 0, .5], [1, 0, 0], [0, 2, 0], [0, 0, -3]])
        faces = np.array([[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]], dtype=np.uint32)
        M.TriMesh.check_orientation = lambda self: None
        mesh = M.ColoredTriMesh(faces, arr(verts), nb_colors=3, colors=arr(np.zeros((4, 3))))
        T = pysym.Text([pysym.N(0)] * 100 if pysym.SYM else ())
        old = os.getcwd()
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d + "/project")
            os.makedirs(d + "/work")
            os.chdir(d + ("/project" if here else "/work"))
            try:
                f = "scene.mlp" if here else d + "/project/scene.mlp"
                with T.installed(X):
                    X.export_meshlab(f, mesh, [c.cam for c in C], images, **({"obj_name": obj_name} if obj_name else {}))
            finally:
                os.chdir(old)
            doc = minidom.parse(d + "/project/scene.mlp")
            from imageio.v3 import imread
            rasters = doc.getElementsByTagName("MLRaster")
            e = facts("number of rasters", len(rasters), n)
            if len(rasters) != n:
                return e
            seen = []
            for i, r in enumerate(rasters):
                name = r.getElementsByTagName("Plane")[0].getAttribute("fileName")
                p = os.path.join(d, "project", name)
                e += facts(f"image {i} written next to the project", os.path.isfile(p), True)
                seen.append(name)
                if os.path.isfile(p):
                    e += facts(f"image {i}", np.asarray(imread(p)), images[i].astype(np.uint8))
            e += facts("distinct images", len(set(seen)), n)
            m = doc.getElementsByTagName("MLMesh")
            e += facts("one mesh", len(m), 1)
            p = os.path.join(d, "project", m[0].getAttribute("filename"))
            e += facts("mesh file next to the project", os.path.isfile(p), True) + facts("mesh name", m[0].getAttribute("filename"), obj_name or "mesh.obj")
            if os.path.isfile(p):
                O = pysym.module("obj")
                with T.installed(O):
                    f2, v2 = O.read_obj(p)
                e += facts("faces", np.asarray(f2).astype(int), faces) + pairs("vertices", v2, arr(verts))
            e += facts("mesh matrix", [float(q) for q in doc.getElementsByTagName("MLMatrix")[0].firstChild.data.split()], np.eye(4).ravel())

        def num(node, key):
            out = []
            for t in node.getAttribute(key).split():
                s = T.get(t) if pysym.SYM else None
                out.append(s if s is not None else (pysym.N(float(t)) if pysym.SYM else float(t)))
            return out
        for i, r in enumerate(rasters):
            cam = r.getElementsByTagName("VCGCamera")[0]
            rot, tr, foc, px, ctr, vp = [num(cam, q) for q in ("RotationMatrix", "TranslationVector", "FocalMm", "PixelSizeMm", "CenterPx", "ViewportPx")]
            e += facts("fields", (len(rot), len(tr), len(foc), len(px), len(ctr), len(vp)), (16, 4, 1, 2, 2, 2))
            if not e[-1][1]:
                return e
            c = C[i]
            e += pairs(f"viewport of camera {i}", arr(vp), arr([w + 2 * i, h + i])) + pairs(f"principal point of camera {i}", arr(ctr), arr([c.K[0, 2], c.K[1, 2]]))
            e += pairs(f"last row of the rotation of camera {i}", arr(rot[12:] + rot[3:12:4]), arr([0, 0, 0, 1, 0, 0, 0])) + pairs(f"translation of camera {i}, homogeneous", tr[3], 1 if not pysym.SYM else pysym.N(1))
            e += facts("distortion", [float(q) for q in cam.getAttribute("LensDistortion").split()], [0, 0])
            Rm = arr(rot).reshape(4, 4)[:3, :3]
            pts, depth = c.cam.project_points(c.world)
            for k in range(PTS):
                q = Rm.dot(c.world[k] + arr(tr[:3]))
                e += [(f"distance of point {k} along the axis of camera {i}", -q[2], depth[k])]
                # times the depth: no division
                e += [(f"column of point {k} of camera {i}", foc[0] * q[0], (pts[k, 0] - ctr[0]) * px[0] * depth[k]), (f"row of point {k} of camera {i}", -foc[0] * q[1], (pts[k, 1] - ctr[1]) * px[1] * depth[k])]
        return e

    def pre(v):
        o = []
        for i in range(n):
            p = v[i * per:(i + 1) * per]
            o += [(p[6], ">")] + [(p[9 + 3 * k + 2], ">") for k in range(PTS)]
        return o
    check(j, names, fn, pre)
