"""The Cython bridge and the validation in front of it: symbolic scenes, specification, replay on the compiled bridge (C14, C33)."""
import ctypes
import importlib.machinery
import importlib.util
import os
import pickle
import signal
import struct
import sys
import time
import types

import numpy as np
import paths  # noqa: F401  (makes the solvers importable)
import z3

import build
import cyx
import pysym
from cyx import A, B, I, NP, R, Ptr, zb, zi
from sym import Unsupported

U32, F64, BO = np.dtype(np.uint32), np.dtype(np.float64), np.dtype(bool)
SCENE = {"faces": (2, U32), "faces_uv": (2, U32), "depths": (1, F64), "uv": (2, F64), "ij": (2, F64), "shade": (1, F64), "colors": (2, F64), "edgeflags": (2, BO), "textured": (1, BO),
         "shaded": (1, BO), "texture": (3, F64), "background_image": (3, F64), "background_color": (1, F64)}
GRAD = {"uv_b": (2, F64), "ij_b": (2, F64), "shade_b": (1, F64), "colors_b": (2, F64), "texture_b": (3, F64)}
ARGS = {"image": (3, F64), "z_buffer": (2, F64), "image_b": (3, F64), "obs": (3, F64), "err_buffer": (2, F64), "err_buffer_b": (2, F64)}
FLAGS = ("clockwise", "backface_culling", "strict_edge", "perspective_correct", "integer_pixel_centers")
INTS = ("nb_triangles", "nb_vertices", "nb_uv", "height", "width", "nb_colors", "texture_height", "texture_width")
CT = {"faces": "unsigned int", "faces_uv": "unsigned int", "edgeflags": "bool", "textured": "bool", "shaded": "bool"}
CTYPES = {"unsigned int": (ctypes.c_uint32, "iu", 4), "double": (ctypes.c_double, "f", 8), "bool": (ctypes.c_uint8, "bu", 1)}


class Scenario:
    """entry 'forward' / 'backward'; error: antialias_error; via 'python' / 'direct'; bg 'image' / 'color' / 'both' / 'none'; texture: number of
    dimensions of the texture (2: the empty placeholder); change: {array: dict(ndim=, dtype=, contig=, none=)}"""

    def __init__(self, backward, error, via, bg, texture=3, change=None):
        self.backward, self.error, self.via, self.bg, self.texture = backward, error, via, bg, texture
        self.change = change or {}

    def arrays(self):
        out = dict(SCENE)
        if self.backward:
            out.update(GRAD)
        used = ["image", "z_buffer"] + (["obs", "err_buffer"] if self.error else []) + (["err_buffer_b"] if self.error and self.backward else []) + (["image_b"] if self.backward and not self.error else [])
        for k in used:
            out[k] = ARGS[k]
        if self.texture == 2:
            out["texture"] = (2, F64)
            if "texture_b" in out:
                out["texture_b"] = (2, F64)
        if self.bg in ("image", "none"):
            del out["background_color"]
        if self.bg in ("color", "none"):
            del out["background_image"]
        return out

    def describe(self):
        c = ", ".join(f"{k}: {', '.join(f'{a}={b}' for a, b in v.items())}" for k, v in self.change.items())
        return f"{'backward' if self.backward else 'forward'}{' (error)' if self.error else ''} via {self.via}, background {self.bg}{', ' + c if c else ''}"


class Inputs:
    """symbolic inputs of a scenario"""

    def __init__(self, sc):
        self.sc, self.base, self.dims, self.arrays = sc, [], [], {}
        for n, (nd, dt) in sc.arrays().items():
            c = sc.change.get(n, {})
            if c.get("none"):
                self.arrays[n] = None
                continue
            nd, dt = c.get("ndim", nd), np.dtype(c.get("dtype", dt))
            ext = []
            for i in range(nd):
                z = z3.Int(f"{n}.shape{i}")
                self.base.append(z3.And(z >= 0, z < 2 ** 31))
                self.dims.append(z)
                ext.append(I(z))
            a = A.var(n, ext, dt, c.get("contig", True))
            self.arrays[n] = a
            if not a.contig:        # every other element of the last axis: arrays with a single element are contiguous all the same
                self.base += [zi(x) >= (2 if i == nd - 1 else 1) for i, x in enumerate(ext)]
            if dt.kind in "iu":
                k = z3.Int("k")
                ii = np.iinfo(dt)
                self.base.append(z3.ForAll([k], z3.And(a.at(k) >= int(ii.min), a.at(k) <= int(ii.max))))
        self.height, self.width = z3.Int("scene.height"), z3.Int("scene.width")
        self.base += [z3.And(z >= 0, z < 2 ** 31) for z in (self.height, self.width)]
        self.dims += [self.height, self.width]
        self.flags = {f: z3.Bool("scene." + f) for f in FLAGS}
        self.sigma = z3.Real("sigma")
        self.base.append(self.sigma >= 0)

    def scene(self):
        s = types.SimpleNamespace(height=I(self.height), width=I(self.width), **{f: B(z) for f, z in self.flags.items()})
        for n in list(SCENE) + list(GRAD):
            a = self.arrays.get(n)
            setattr(s, n, A(a.shape, a.dtype, a.buf, a.idx, a.contig) if isinstance(a, A) else None)
        im = self.arrays.get("image")
        s.nb_colors = im.shape[2] if isinstance(im, A) and im.ndim > 2 else 1
        return s

    def args(self):
        out = {}
        for n in ARGS:
            a = self.arrays.get(n)
            out[n] = A(a.shape, a.dtype, a.buf, a.idx, a.contig) if isinstance(a, A) else None
        return out

    # ------------------------------------------------------------ specification
    def pieces(self):
        """[(what is wrong otherwise, z3 condition)]; arrays with another number of dimensions make it False"""
        sc, a = self.sc, self.arrays
        out = []
        nd = {n: q[0] for n, q in sc.arrays().items()}

        def ok(n):
            return isinstance(a.get(n), A) and a[n].ndim == nd[n] and (n not in ARGS or (a[n].dtype == F64 and a[n].contig))

        def ext(n, i):
            return zi(a[n].shape[i]) if isinstance(a.get(n), A) and a[n].ndim > i else z3.Int(f"missing.{n}.{i}")
        H, W, C, nt, nv, nuv = ext("image", 0), ext("image", 1), ext("image", 2), ext("faces", 0), ext("depths", 0), ext("uv", 0)

        def shape(n, *want):
            if n in nd:
                out.append((f"shape or type of {n}", z3.And([zi(x) == w for x, w in zip(a[n].shape, want)] + [z3.BoolVal(len(a[n].shape) == len(want))]) if ok(n) else z3.BoolVal(False)))
        shape("image", H, W, C)
        shape("z_buffer", H, W)
        out.append(("height and width of the scene and the image", z3.And(self.height == H, self.width == W)))
        shape("faces", nt, z3.IntVal(3))
        shape("faces_uv", nt, z3.IntVal(3))
        # a column of depths is the same as a list of depths (render_deferred passes one)
        out.append(("shape or type of depths", z3.And(z3.BoolVal(isinstance(a.get("depths"), A) and a["depths"].ndim >= 1), zi(a["depths"].size) == nv) if isinstance(a.get("depths"), A) else z3.BoolVal(False)))
        shape("uv", nuv, z3.IntVal(2))
        shape("ij", nv, z3.IntVal(2))
        shape("shade", nv)
        shape("colors", nv, C)
        shape("edgeflags", nt, z3.IntVal(3))
        shape("textured", nt)
        shape("shaded", nt)
        if sc.bg == "image":
            shape("background_image", H, W, C)
        elif sc.bg == "color":
            shape("background_color", C)
        else:
            out.append(("one background", z3.BoolVal(False)))
        for n in ("image_b", "obs"):
            shape(n, H, W, C)
        for n in ("err_buffer", "err_buffer_b"):
            shape(n, H, W)
        k = z3.Int("k")

        def indices(n, bound):
            f = a.get(n)
            if isinstance(f, A):
                v = cyx.conv(f.at(k), f.dtype, U32) if f.dtype == BO else f.at(k)
                out.append((f"values of {n}", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(f.size)), z3.And(v >= 0, v < bound)))))
        indices("faces", nv)
        indices("faces_uv", nuv)
        t = a.get("texture")
        if not isinstance(t, A):
            out.append(("texture given", z3.BoolVal(False)))
        else:
            full = z3.And(zi(t.shape[0]) > 0, zi(t.shape[1]) > 0, zi(t.shape[2]) == C) if t.ndim == 3 else z3.BoolVal(False)
            f = a["textured"]
            none = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(f.size)), z3.Not(f.at(k)))) if isinstance(f, A) and f.dtype == BO else z3.BoolVal(True)
            out.append(("texture", z3.Or(full, z3.And(zi(t.size) == 0, none))))
            if t.ndim < 2:
                out.append(("dimensions of the texture", z3.BoolVal(False)))
        if sc.backward:
            shape("uv_b", nuv, z3.IntVal(2))
            shape("ij_b", nv, z3.IntVal(2))
            shape("shade_b", nv)
            shape("colors_b", nv, C)
            tb = a.get("texture_b")
            if not isinstance(tb, A):
                out.append(("texture gradient given", zi(t.size) == 0 if isinstance(t, A) else z3.BoolVal(False)))
            elif isinstance(t, A):
                out.append(("shape of texture_b", z3.Or(zi(t.size) == 0, cyx.same_shape(tb.shape, t.shape))))
        return out

    def canonical(self):
        """the types the documentation asks for: such scenes must be accepted when all the pieces hold"""
        return all(set(c) <= {"ndim"} or (set(c) <= {"contig"} and n in SCENE) for n, c in self.sc.change.items())


def interp_module(onc):
    return cyx.Interp(os.path.join(build.REPO, "deodr", "differentiable_renderer_cython.pyx"), onc)


def run(inp, j):
    """yields (ctx, outcome, calls, scene, args) of every path"""
    sc = inp.sc
    pysym.load()
    mod = pysym.module("differentiable_renderer")
    state = {}

    def on_call(ext, a):
        names = ["scene", "image", "z_buffer"] + (["image_b"] if ext.name == "renderScene_B" else []) + ["sigma", "error", "obs", "err_buffer"] + (["err_buffer_b"] if ext.name == "renderScene_B" else [])
        if ext.name not in ("renderScene", "renderScene_B"):
            raise Unsupported(f"C++ function {ext.name}")
        d = dict(zip(names, a))
        d["name"], d["catches"] = ext.name, ext.catches
        s = d["scene"] if isinstance(d["scene"], cyx.Struct) else d["scene"].x
        live = [x.buf for x in itp.live()] + [x.buf for x in list(vars(state["scene"]).values()) + list(state["args"].values()) if isinstance(x, A)]
        # what the pointers read now, and whether the memory is still owned
        d["fields"] = {k: v for k, v in s.fields.items()}
        d["frozen"] = {k: (v.a.copy() if isinstance(v, Ptr) and v.a is not None else None) for k, v in s.fields.items()}
        d["frozen"].update({k: (v.a.copy() if isinstance(v, Ptr) and v.a is not None else None) for k, v in d.items() if k in ARGS})
        d["owned"] = {k: any(v.a.buf is b for b in live) for k, v in list(s.fields.items()) + [(q, d[q]) for q in ARGS if q in d] if isinstance(v, Ptr) and v.a is not None}
        state["calls"].append(d)
        if ext.name == "renderScene_B":
            for g in GRAD:      # the renderer adds its gradients in place
                p = s.fields.get(g)
                if isinstance(p, Ptr) and p.a is not None:
                    f = z3.Function(f"written.{g}", z3.IntSort(), z3.RealSort())
                    p.a.buf.fn = lambda k, f=f: f(k)
        return None
    itp = interp_module(on_call)
    cy = types.SimpleNamespace(renderSceneCpp=itp.globals["renderSceneCpp"], renderSceneBCpp=itp.globals["renderSceneBCpp"])

    def prog():
        inp2 = Inputs(sc)
        state.update(calls=[], scene=inp2.scene(), args=inp2.args(), before=inp2.arrays)
        s, ar = state["scene"], state["args"]
        sg = R(inp.sigma)
        if sc.via == "direct":
            if not sc.backward:
                a = (s, sg, ar["image"], ar["z_buffer"]) + ((True, ar["obs"], ar["err_buffer"]) if sc.error else ())
                return cy.renderSceneCpp(*a)
            a = (s, sg, ar["image"], ar["z_buffer"], ar["image_b"]) + ((True, ar["obs"], ar["err_buffer"], ar["err_buffer_b"]) if sc.error else ())
            return cy.renderSceneBCpp(*a)
        g = mod.__dict__
        old = {k: g.get(k) for k in ("np", "differentiable_renderer_cython", "len", "isinstance")}
        g.update(np=NP(), differentiable_renderer_cython=cy, len=itp.length)
        try:
            if not sc.backward:
                return mod.renderScene(s, sg, ar["image"], ar["z_buffer"], *((True, ar["obs"], ar["err_buffer"]) if sc.error else ()))
            return mod.renderSceneB(s, sg, ar["image"], ar["z_buffer"], ar["image_b"], *((True, ar["obs"], ar["err_buffer"], ar["err_buffer_b"]) if sc.error else ()))
        except (AssertionError, ValueError, TypeError, IndexError, KeyError, AttributeError, RuntimeError) as e:
            if isinstance(e, Unsupported):
                raise
            raise cyx.PyExc(type(e).__name__, str(e))
        except BaseException as e:
            if type(e) is BaseException:
                raise cyx.PyExc("BaseException", str(e))
            raise
        finally:
            for k, v in old.items():
                if v is None:
                    g.pop(k, None)
                else:
                    g[k] = v
    for ctx, out in cyx.explore(inp.base, prog, j.stats, j.deadline):
        yield ctx, out, state.get("calls"), state.get("scene"), state
    j.functions |= {"pyx:" + n for n in itp.used} | ({"renderSceneB" if sc.backward else "renderScene"} if sc.via == "python" else set())


# ---------------------------------------------------------------------- models
def model_of(ctx, inp, extra, small=True):
    """a model of the path and the extra conditions, with small extents when there is one"""
    for cap in (4, 9, 60) if small else ():
        r = ctx.check(*extra, *[d <= cap for d in inp.dims])
        if r == z3.sat:
            return ctx.s.model()
    return None


def distinct(inp):
    """conditions giving every real array different contents"""
    out = []
    k = z3.Int("k")
    for i, (n, a) in enumerate(sorted(inp.arrays.items())):
        if isinstance(a, A) and a.dtype.kind == "f":
            out.append(z3.ForAll([k], a.at(k) == z3.ToReal(k) + 1000 * (i + 1)))
    return out


def concrete(inp, m, filled=False):
    """numpy inputs of a model"""
    out = {}
    for i, (n, a) in enumerate(sorted(inp.arrays.items())):
        if a is None:
            out[n] = None
            continue
        shp = tuple(m.eval(zi(s), model_completion=True).as_long() for s in a.shape)
        if int(np.prod(shp, dtype=np.float64)) > 10 ** 6:
            return None
        vals = []
        for k in range(int(np.prod(shp))):
            v = m.eval(a.at(z3.IntVal(k)), model_completion=True)
            if filled and a.dtype.kind == "f":
                vals.append(k + 1000 * (i + 1))
            elif z3.is_bool(v):
                vals.append(z3.is_true(v))
            elif z3.is_int(v):
                vals.append(v.as_long())
            else:
                vals.append(float(v.as_fraction()) if z3.is_rational_value(v) else 0.0)
        x = np.array(vals, dtype=a.dtype).reshape(shp)
        if not a.contig:
            big = np.zeros(shp[:-1] + (2 * shp[-1] + 2,), dtype=a.dtype)
            big[..., 1:1 + 2 * shp[-1]:2] = x
            x = big[..., 1:1 + 2 * shp[-1]:2]
        out[n] = x
    g = lambda z: m.eval(z, model_completion=True)
    out["height"], out["width"] = g(inp.height).as_long(), g(inp.width).as_long()
    for f, z in inp.flags.items():
        out[f] = z3.is_true(g(z))
    s = g(inp.sigma)
    out["sigma"] = float(s.as_fraction()) if z3.is_rational_value(s) else 1.0
    return out


_mod = {}


def native():
    if not _mod:
        p = build.bridge_path()
        ld = importlib.machinery.ExtensionFileLoader("vbridge", p)
        m = importlib.util.module_from_spec(importlib.util.spec_from_loader("vbridge", ld))
        ld.exec_module(m)
        _mod["m"] = m
        c = ctypes.CDLL(p)
        for n in list(SCENE) + list(GRAD):
            getattr(c, "vf_p_" + n).restype = ctypes.c_void_p
            getattr(c, "vf_p_" + n).argtypes = [ctypes.c_void_p]
        for n in INTS + FLAGS:
            getattr(c, "vf_i_" + n).restype = ctypes.c_long
            getattr(c, "vf_i_" + n).argtypes = [ctypes.c_void_p]
        _mod["c"] = c
    return _mod["m"], _mod["c"]


def _child(sc, x, throw):
    """runs the compiled bridge; returns what happened"""
    m, c = native()
    rec = []
    scn = types.SimpleNamespace(height=x["height"], width=x["width"], nb_colors=x["image"].shape[2] if x.get("image") is not None and x["image"].ndim > 2 else 1, **{f: x[f] for f in FLAGS})
    for n in list(SCENE) + list(GRAD):
        setattr(scn, n, x.get(n))
    sizes = {n: int(a.size) for n, a in x.items() if isinstance(a, np.ndarray)}

    def read(p, ct, n):
        if not p:
            return None
        return np.ctypeslib.as_array(ctypes.cast(p, ctypes.POINTER(CTYPES[ct][0])), (max(n, 1),))[:n].copy()

    def hook(which, s, im, z, imb, sigma, aa, obs, err, errb):
        d = dict(which=which, sigma=sigma, error=aa)
        for n in list(SCENE) + (list(GRAD) if which else []):
            d[n] = read(getattr(c, "vf_p_" + n)(s), CT.get(n, "double"), sizes.get(n, 0)) if n in sizes else None
        for n in INTS + FLAGS:
            d[n] = getattr(c, "vf_i_" + n)(s)
        for n, p in (("image", im), ("z_buffer", z), ("image_b", imb), ("obs", obs), ("err_buffer", err), ("err_buffer_b", errb)):
            d[n] = read(p, "double", sizes[n]) if n in sizes and isinstance(x.get(n), np.ndarray) else (None if p else "null")
            if isinstance(x.get(n), np.ndarray):
                d["same " + n] = p == x[n].ctypes.data
        if which:
            for i, n in enumerate(GRAD):
                p = getattr(c, "vf_p_" + n)(s)
                if n in sizes and p:
                    w = np.ctypeslib.as_array(ctypes.cast(p, ctypes.POINTER(ctypes.c_double)), (max(sizes[n], 1),))[:sizes[n]]
                    w += 0.5 * np.arange(sizes[n]) + 7 * (i + 1)
        rec.append(d)
        return 1 if throw else 0
    H = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, *[ctypes.c_void_p] * 4, ctypes.c_double, ctypes.c_int, *[ctypes.c_void_p] * 3)
    cb = H(hook)
    c.vf_set_hook(cb)
    out = ["return"]
    try:
        if sc.via == "direct":
            if not sc.backward:
                m.renderSceneCpp(scn, x["sigma"], x["image"], x["z_buffer"], *((True, x["obs"], x["err_buffer"]) if sc.error else ()))
            else:
                m.renderSceneBCpp(scn, x["sigma"], x["image"], x["z_buffer"], x.get("image_b"), *((True, x["obs"], x["err_buffer"], x["err_buffer_b"]) if sc.error else ()))
        else:
            mod = pysym.module("differentiable_renderer")
            g = mod.__dict__
            old = {k: g.get(k) for k in ("np", "differentiable_renderer_cython")}
            g.update(np=np, differentiable_renderer_cython=m)
            try:
                if not sc.backward:
                    mod.renderScene(scn, x["sigma"], x["image"], x["z_buffer"], *((True, x["obs"], x["err_buffer"]) if sc.error else ()))
                else:
                    mod.renderSceneB(scn, x["sigma"], x["image"], x["z_buffer"], x.get("image_b"), *((True, x["obs"], x["err_buffer"], x["err_buffer_b"]) if sc.error else ()))
            finally:
                g.update(old)
    except BaseException as e:
        out = ["raise", type(e).__name__]
    after = {n: getattr(scn, n) for n in list(SCENE) + list(GRAD)} if out[0] == "return" else {}
    return out, rec, {n: (np.array(v) if isinstance(v, np.ndarray) else v) for n, v in after.items()}


def replay(sc, x, throw=False):
    """(outcome, recorded calls, scene afterwards) of the compiled bridge, in a process of its own"""
    native()
    pysym.load()
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            d = pickle.dumps(_child(sc, x, throw))
            with os.fdopen(w, "wb") as f:
                f.write(d)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ["crash", signal.Signals(os.WTERMSIG(st)).name], [], {}
    if st:
        return ["crash", "exit"], [], {}
    return pickle.loads(d)


# ---------------------------------------------------------------------- concrete specification
def concrete_pieces(sc, x):
    """what is wrong with concrete inputs (names as in Inputs.pieces)"""
    nd = {n: q[0] for n, q in sc.arrays().items()}
    out = []
    if x.get("image") is None or x["image"].ndim != 3 or x["image"].dtype != F64:
        return ["image"]
    H, W, C = x["image"].shape
    a = lambda n: x.get(n)
    nt = a("faces").shape[0] if a("faces") is not None and a("faces").ndim else -1
    nv = a("depths").shape[0] if a("depths") is not None and a("depths").ndim else -1
    nuv = a("uv").shape[0] if a("uv") is not None and a("uv").ndim else -1
    want = dict(z_buffer=(H, W), faces=(nt, 3), faces_uv=(nt, 3), depths=(nv,), uv=(nuv, 2), ij=(nv, 2), shade=(nv,), colors=(nv, C), edgeflags=(nt, 3), textured=(nt,), shaded=(nt,), image_b=(H, W, C), obs=(H, W, C),
                err_buffer=(H, W), err_buffer_b=(H, W), uv_b=(nuv, 2), ij_b=(nv, 2), shade_b=(nv,), colors_b=(nv, C), background_image=(H, W, C), background_color=(C,))
    if a("depths") is not None and a("depths").size == nv:
        want["depths"] = a("depths").shape
    for n in nd:
        if n in want and (a(n) is None or a(n).shape != want[n] or n in ARGS and (a(n).dtype != F64 or not a(n).flags.c_contiguous)):
            out.append(n)
    if (x["height"], x["width"]) != (H, W):
        out.append("height and width")
    if sc.bg not in ("image", "color"):
        out.append("background")
    for n, b in (("faces", nv), ("faces_uv", nuv)):
        if a(n) is not None and a(n).size and not (np.all(a(n) >= 0) and np.all(a(n) < b)):
            out.append("values of " + n)
    t = a("texture")
    if t is None or t.ndim < 2:
        out.append("texture")
    elif t.size == 0:
        if np.any(a("textured")):
            out.append("no texture")
    elif t.ndim != 3 or t.shape[2] != C:
        out.append("texture")
    if sc.backward and (t is None or t.size and (a("texture_b") is None or a("texture_b").shape != t.shape)):
        out.append("texture_b")
    return out


def concrete_faults(sc, x, out, rec, after):
    """what the compiled bridge did wrong with valid inputs"""
    f = []
    if out[0] != "return" or len(rec) != 1:
        return [f"outcome {out}, {len(rec)} calls"]
    d = rec[0]
    if d["which"] != int(sc.backward):
        f.append("another function")
    for n in list(SCENE) + (list(GRAD) if sc.backward else []):
        if isinstance(x.get(n), np.ndarray):
            want = x[n].astype({"unsigned int": np.uint32, "bool": bool, "double": np.float64}[CT.get(n, "double")]).ravel()
            got = d[n]
            if got is None:
                f.append(f"{n} is not handed over")
            elif not np.array_equal(got.astype(bool) if CT.get(n) == "bool" else got, want):
                f.append(f"{n} is {got[:8].tolist()} instead of {want[:8].tolist()}")
        elif n.startswith("background"):
            if d[n] is not None:
                f.append(f"{n} is set")
    t = x["texture"]
    want = dict(nb_triangles=x["faces"].shape[0], nb_vertices=x["depths"].shape[0], nb_uv=x["uv"].shape[0], height=x["height"], width=x["width"], nb_colors=x["image"].shape[2], texture_height=t.shape[0], texture_width=t.shape[1])
    for n in FLAGS:
        want[n] = int(x[n])
    for n, v in want.items():
        if d[n] != v:
            f.append(f"{n} is {d[n]} instead of {v}")
    if d["sigma"] != x["sigma"]:
        f.append(f"sigma is {d['sigma']} instead of {x['sigma']}")
    if d["error"] != int(sc.error):
        f.append("antialias_error")
    for n in ARGS:
        if n in sc.arrays() and not d.get("same " + n):
            f.append(f"{n} is not the caller's array")
    for n in SCENE:
        got = after.get(n)
        if isinstance(x.get(n), np.ndarray) and not (isinstance(got, np.ndarray) and got.shape == x[n].shape and got.dtype == x[n].dtype and np.array_equal(got, x[n])):
            f.append(f"{n} is changed")
    for i, n in enumerate(GRAD):
        if sc.backward:
            want = (x[n].astype(np.float64).ravel() + 0.5 * np.arange(x[n].size) + 7 * (i + 1)).reshape(x[n].shape)
            if not isinstance(after.get(n), np.ndarray) or after[n].shape != want.shape or not np.allclose(after[n], want):
                f.append(f"gradient {n} is not what the renderer computed")
    return f
