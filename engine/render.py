"""2D scenes: symbolic execution of renderScene/renderScene_B (IR) and native execution (ctypes)."""
import ctypes
from fractions import Fraction

import build
import irexec
import sym
from irexec import NULL, new_array, read_array


class Scene2:
    """plain description of a 2D scene; numbers may be symbolic"""

    def __init__(self, **kw):
        d = dict(faces=[], faces_uv=None, depths=[], uv=None, ij=[], shade=None, colors=None, edgeflags=None,
                 textured=None, shaded=None, clockwise=True, backface_culling=True, height=4, width=4, nb_colors=1,
                 texture=None, texture_height=1, texture_width=1, background_image=None, background_color=None,
                 strict_edge=True, perspective_correct=False, integer_pixel_centers=True, sigma=0)
        d.update(kw)
        self.__dict__.update(d)
        nt, nv = len(self.faces), len(self.ij)
        if self.faces_uv is None:
            self.faces_uv = [[0, 0, 0]] * nt
        if self.uv is None:
            self.uv = [[0, 0]]
        if self.shade is None:
            self.shade = [0] * nv
        if self.colors is None:
            self.colors = [[0] * self.nb_colors for _ in range(nv)]
        if self.edgeflags is None:
            self.edgeflags = [[0, 0, 0]] * nt
        if self.textured is None:
            self.textured = [0] * nt
        if self.shaded is None:
            self.shaded = [0] * nt
        if self.texture is None:
            self.texture = [[[0] * self.nb_colors for _ in range(self.texture_width)] for _ in range(self.texture_height)]
        else:
            self.texture_height = len(self.texture)
            self.texture_width = len(self.texture[0])
        if self.background_image is None and self.background_color is None:
            self.background_color = [0] * self.nb_colors

    def at(self, w):
        """the scene with every symbolic value replaced by its value at the point w"""
        def ev(x):
            if isinstance(x, (list, tuple)):
                return [ev(y) for y in x]
            if isinstance(x, sym.Num):
                return sym.value_at(x, w)
            return x
        s = Scene2.__new__(Scene2)
        s.__dict__.update({k: ev(v) for k, v in self.__dict__.items()})
        return s

    def describe(self):
        def f(x):
            if isinstance(x, (list, tuple)):
                return [f(y) for y in x]
            if isinstance(x, (Fraction,)):
                return float(x)
            if isinstance(x, (int, float, bool, str)) or x is None:
                return x
            return repr(x)
        return {k: f(v) for k, v in self.__dict__.items()}


def flat(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += flat(y)
        return out
    return [x]


def _args(s, grads=None):
    nt, nv = len(s.faces), len(s.ij)
    g = grads or {}
    A = {}
    A["faces"] = new_array("faces", flat(s.faces), 4)
    A["faces_uv"] = new_array("faces_uv", flat(s.faces_uv), 4)
    A["depths"] = new_array("depths", flat(s.depths), 8)
    A["uv"] = new_array("uv", flat(s.uv), 8)
    A["ij"] = new_array("ij", flat(s.ij), 8)
    A["shade"] = new_array("shade", flat(s.shade), 8)
    A["colors"] = new_array("colors", flat(s.colors), 8)
    A["edgeflags"] = new_array("edgeflags", [int(bool(x)) for x in flat(s.edgeflags)], 1)
    A["textured"] = new_array("textured", [int(bool(x)) for x in flat(s.textured)], 1)
    A["shaded"] = new_array("shaded", [int(bool(x)) for x in flat(s.shaded)], 1)
    A["texture"] = new_array("texture", flat(s.texture), 8)
    A["background_image"] = NULL if s.background_image is None else new_array("background_image", flat(s.background_image), 8)
    A["background_color"] = NULL if s.background_color is None else new_array("background_color", flat(s.background_color), 8)
    for k in ("uv", "ij", "shade", "colors", "texture"):
        if grads is None:
            A[k + "_b"] = NULL
        else:
            A[k + "_b"] = new_array(k + "_b", flat(g.get(k + "_b")) if g.get(k + "_b") is not None else [0] * len(flat(getattr(s, k))), 8)
    order = ["faces", "faces_uv", "depths", "uv", "ij", "shade", "colors", "edgeflags", "textured", "shaded"]
    L = [A[k] for k in order]
    L += [nt, nv, int(s.clockwise), int(s.backface_culling), len(s.uv), s.height, s.width, s.nb_colors, A["texture"],
          s.texture_height, s.texture_width, A["background_image"], A["background_color"], A["uv_b"], A["ij_b"],
          A["shade_b"], A["colors_b"], A["texture_b"], int(s.strict_edge), int(s.perspective_correct), int(s.integer_pixel_centers)]
    return A, L


class Out:
    pass


def ir_forward(s, obs=None):
    """execute renderScene symbolically; obs given => antialias the error"""
    P = irexec.load_program()
    irexec.reset_machine()
    n = s.height * s.width
    A, L = _args(s)
    image = (irexec.Obj("image", n * s.nb_colors * 8), 0)
    zb = (irexec.Obj("z_buffer", n * 8), 0)
    err = (irexec.Obj("err_buffer", n * 8), 0) if obs is not None else NULL
    ob = new_array("obs", flat(obs), 8) if obs is not None else NULL
    P.fn("vf_render")(*L, image, zb, s.sigma, int(obs is not None), ob, err)
    o = Out()
    o.image = read_array(image, n * s.nb_colors, 8)
    o.z = read_array(zb, n, 8)
    o.err = read_array(err, n, 8) if obs is not None else None
    o.A, o.p_image, o.p_z, o.p_err, o.p_obs = A, image, zb, err, ob
    return o


def ir_backward(s, image, z, image_b=None, obs=None, err=None, err_b=None, grads=None):
    P = irexec.load_program()
    irexec.reset_machine()
    n = s.height * s.width
    A, L = _args(s, grads or {})
    o = Out()
    pi = new_array("image", list(image), 8)
    pz = new_array("z_buffer", list(z), 8)
    pib = new_array("image_b", flat(image_b), 8) if image_b is not None else NULL
    ob = new_array("obs", flat(obs), 8) if obs is not None else NULL
    pe = new_array("err_buffer", flat(err), 8) if err is not None else NULL
    peb = new_array("err_buffer_b", flat(err_b), 8) if err_b is not None else NULL
    P.fn("vf_render_B")(*L, pi, pz, pib, s.sigma, int(obs is not None), ob, pe, peb)
    for k in ("uv", "ij", "shade", "colors", "texture"):
        m = len(flat(getattr(s, k)))
        setattr(o, k + "_b", read_array(A[k + "_b"], m, 8))
    o.z = read_array(pz, n, 8)
    o.image = read_array(pi, n * s.nb_colors, 8)
    o.image_b = read_array(pib, n * s.nb_colors, 8) if image_b is not None else None
    o.err = read_array(pe, n, 8) if err is not None else None
    o.err_b = read_array(peb, n, 8) if err_b is not None else None
    o.A = A
    return o


# ------------------------------------------------------------------------------------------------ native
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(build.native_path())
    return _lib


def _f(x):
    if isinstance(x, sym.Num):
        raise TypeError("symbolic value in a native run")
    return float(x)


def native(s, obs=None, backward=None, grads=None, buffers=None):
    """run the compiled renderer. backward: dict with image_b or err_b to run renderScene_B as well."""
    L = lib()
    n = s.height * s.width
    D, U, B = ctypes.c_double, ctypes.c_uint, ctypes.c_bool

    def d(x):
        f = [_f(y) for y in flat(x)]
        return (D * len(f))(*f)
    keep = []

    def u(x):
        f = flat(x)
        return (U * len(f))(*f)

    def b(x):
        f = flat(x)
        return (B * len(f))(*[bool(y) for y in f])
    g = grads or {}
    gb = {}
    for k in ("uv", "ij", "shade", "colors", "texture"):
        v = g.get(k + "_b")
        gb[k] = d(v) if v is not None else (D * len(flat(getattr(s, k))))()
    args = [u(s.faces), u(s.faces_uv), d(s.depths), d(s.uv), d(s.ij), d(s.shade), d(s.colors), b(s.edgeflags), b(s.textured), b(s.shaded),
            len(s.faces), len(s.ij), int(s.clockwise), int(s.backface_culling), len(s.uv), s.height, s.width, s.nb_colors, d(s.texture),
            s.texture_height, s.texture_width, d(s.background_image) if s.background_image is not None else None,
            d(s.background_color) if s.background_color is not None else None,
            gb["uv"], gb["ij"], gb["shade"], gb["colors"], gb["texture"], int(s.strict_edge), int(s.perspective_correct), int(s.integer_pixel_centers)]
    before = [list(a) if a is not None and not isinstance(a, int) else None for a in args]
    image = (D * (n * s.nb_colors))()
    z = (D * n)()
    err = (D * n)() if obs is not None else None
    ob = d(obs) if obs is not None else None
    o = Out()
    o.rc = L.vf_render(*args, image, z, D(float(s.sigma)), int(obs is not None), ob, err)
    o.image, o.z = list(image), list(z)
    o.err = list(err) if err is not None else None
    if buffers is not None:
        image, z = d(buffers["image"]), d(buffers["z"])
        err = d(buffers["err"]) if buffers["err"] is not None else None
    if backward is not None:
        ib = d(backward["image_b"]) if backward.get("image_b") is not None else None
        eb = d(backward["err_b"]) if backward.get("err_b") is not None else None
        o.rcb = L.vf_render_B(*args, image, z, ib, D(float(s.sigma)), int(obs is not None), ob, err, eb)
        for k in gb:
            setattr(o, k + "_b", list(gb[k]))
        o.image_after, o.z_after = list(image), list(z)
        o.image_b_after, o.err_after, o.err_b_after = [list(q) if q is not None else None for q in (ib, err, eb)]
    inputs = dict(enumerate(["faces", "faces_uv", "depths", "uv", "ij", "shade", "colors", "edgeflags", "textured", "shaded"]))
    inputs.update({18: "texture", 21: "background_image", 22: "background_color"})
    o.changed = [nm for i, nm in inputs.items() if before[i] is not None and list(args[i]) != before[i]]
    return o
