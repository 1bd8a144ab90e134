"""C29: OBJ files round-trip."""
import itertools
import os
import random
import tempfile

import numpy as np

import pysym
from pycheck import arr, check, facts, pairs

BOUNDS = ("files of 3 to 6 vertex records and 1 to 4 triangles whose text mixes every supported form: index forms v, v/t, v//n, v/t/n, positive and relative indices, spaces and tabs, comments, blank lines, "
          "vn, vt, vp, g, o, s, usemtl, mtllib and unknown records, faces between the vertices, continued lines, with and without a final newline; coordinates are symbolic reals, indices symbolic "
          "values of either sign within the file; saved meshes of 3 to 5 vertices with symbolic coordinates (every rounding to the printed decimals) and symbolic indices")
ASSUMPTIONS = ["converting a numeral to a number (float, int) and printing a number with d decimals (correctly rounded) are Python's; here a numeral stands for an arbitrary number",
               "the layouts of the files are enumerated, the numbers in them are not"]


def jobs(tier):
    o = [(f"read_{k}", dict(kind="read", seed=k)) for k in range(40 if tier == "quick" else 400)]
    o += [(f"save_{n}_{m}", dict(kind="save", n=n, m=m)) for n in (3, 4, 5) for m in (1, 2, 3)]
    o += [(f"save_small_{n}", dict(kind="save", n=n, m=2, ints=True)) for n in (3, 4)]
    return o


NOISE = ["# v 1 2 3", "", "vn 0.5 0.25 1", "vt 0.5 0.75", "vt 0.1 0.2 0.3", "vp 0.3 0.4", "g group", "o object", "s off", "usemtl m", "mtllib f.mtl", "#", "   ", "l 1 2", "#f 1 2 3"]


def layout(seed):
    """list of records; a face is ('f', forms, continuation)"""
    r = random.Random(seed)
    nv, nf = r.randint(3, 5), r.randint(1, 3)
    o = [("n", q) for q in r.sample(NOISE, r.randint(0, 4))]
    first = r.randint(3, nv)
    rest = [("v",)] * (nv - first) + [("f",)] * (nf - 1)
    r.shuffle(rest)
    for k in [("v",)] * first + [("f",)] + rest:
        if r.random() < .4:
            o.append(("n", r.choice(NOISE)))
        if k[0] == "v":
            o.append(("v", r.choice(["v {} {} {}", "v  {} {}  {}", "v {} {} {} ", "v {}\t{} {}", "v \\\n{} {} {}", "v {} {} \\\n{}"] if r.random() < .5 else ["v {} {} {}"])))
        else:
            forms = r.choice([["{}"] * 3, ["{}/5"] * 3, ["{}//7"] * 3, ["{}/5/7"] * 3, ["{}", "{}/4", "{}//3"], ["{}/-1/-1"] * 3, ["{}//-2"] * 3])
            o.append(("f", r.choice(["f {} {} {}", "f  {} {} {}", "f {} {} {} ", "f {} \\\n{} {}"] if r.random() < .5 else ["f {} {} {}"]), forms))
    if r.random() < .4:
        o.append(("n", r.choice(NOISE)))
    return o, r.random() < .8


def run_job(j, kind, seed=0, n=3, m=1, ints=False):
    O = pysym.module("obj")
    if kind == "read":
        lay, newline = layout(seed)
        nv, nf = sum(q[0] == "v" for q in lay), sum(q[0] == "f" for q in lay)
        names = [f"x{i}" for i in range(3 * nv)] + [f"i{k}" for k in range(3 * nf)]
        total, bounds = 0, []
        for q in lay:
            if q[0] == "v":
                total += 1
            elif q[0] == "f":
                bounds += [total] * 3

        def fn(v):
            x = arr(v[:3 * nv]).reshape(nv, 3)
            idx = list(v[3 * nv:])
            if pysym.SYM:
                idx = [pysym.N(q) for q in idx]
            else:
                idx = [int(round(q)) or 1 for q in idx]
            T = pysym.Text()
            put = T.put if pysym.SYM else (lambda q: repr(float(q)) if not isinstance(q, int) else str(q))
            txt, a, b, ef = [], 0, 0, []
            for q in lay:
                if q[0] == "n":
                    txt.append(q[1])
                elif q[0] == "v":
                    txt.append(q[1].format(*[put(z) for z in x[a]]))
                    a += 1
                else:
                    f3 = idx[b:b + 3]
                    txt.append(q[1].format(*[w.format(put(z)) for w, z in zip(q[2], f3)]))
                    ef.append([z - 1 if z > 0 else a + z for z in f3])
                    b += 3
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "mesh.obj")
                with open(p, "w") as fid:
                    fid.write("\n".join(txt) + ("\n" if newline else ""))
                with T.installed(O):
                    faces, vertices = O.read_obj(p)
            vertices = np.asarray(vertices)
            if pysym.SYM and vertices.dtype != object:     # parsed by other means: a numeral is its symbol
                vertices = np.frompyfunc(lambda z: T.get(str(int(z))) if z == int(z) and T.get(str(int(z))) is not None else z, 1, 1)(vertices)
            return pairs("vertices", vertices, x) + pairs("faces", faces, np.array(ef, dtype=object))

        def pre(v):
            o = []
            for k, t in enumerate(bounds):
                o += [(v[3 * nv + k] * v[3 * nv + k] - 1, ">="), (v[3 * nv + k] - t, "<="), (v[3 * nv + k] + t, ">=")]
            return o
        return check(j, names, fn, pre)
    names = [f"x{i}" for i in range(3 * n)] + [f"i{k}" for k in range(3 * m)] + [f"e{k}" for k in range(3 * n)]

    def fn(v):
        x = arr(v[:3 * n]).reshape(n, 3)
        if pysym.SYM:
            idx = np.array([pysym.N(q) for q in v[3 * n:3 * n + 3 * m]], dtype=object).reshape(m, 3).view(type(x))
        else:
            idx = np.array([int(round(q)) for q in v[3 * n:3 * n + 3 * m]], dtype=np.uint32 if m != 2 else np.int64).reshape(m, 3)
        if ints:
            idx = np.array([[(a + b) % n for b in range(3)] for a in range(m)], dtype=np.uint32)
        T = pysym.Text([pysym.N(q) for q in v[3 * n + 3 * m:]] if pysym.SYM else ())
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "mesh.obj")
            with T.installed(O):
                O.save_obj(p, x, idx)
                faces, vertices = O.read_obj(p)
        e = facts("number of vertices", np.shape(vertices), (n, 3)) + pairs("faces", faces, idx)
        if np.shape(vertices) == (n, 3):
            for i in np.ndindex(n, 3):
                dlt = np.asarray(vertices)[i] - x[i]
                slack = 0 if pysym.SYM else 1e-9 * abs(x[i])
                e += [(f"vertex {i} read back", 5e-7 - dlt + slack if not pysym.SYM else -dlt + pysym.F(1, 2000000), ">="), (f"vertex {i} read back", 5e-7 + dlt + slack if not pysym.SYM else dlt + pysym.F(1, 2000000), ">=")]
        return e

    def pre(v):
        o = []
        for k in range(3 * m):
            o += [(v[3 * n + k], ">="), (v[3 * n + k] - (n - 1), "<=")]
        for k in range(3 * n):
            o += [(v[3 * n + 3 * m + k] + 1, ">="), (v[3 * n + 3 * m + k] - 1, "<=")]
        return o
    check(j, names, fn, pre, tol=1e-9)
