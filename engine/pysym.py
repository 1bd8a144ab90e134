"""Symbolic execution of deodr's Python modules: the real functions run on numpy object arrays whose entries are
sym.Num; the names `np`, `scipy`, `sparse`... that the modules use are replaced by proxies that produce object arrays and
that give object arrays the operations numpy only has for floats.  The C++ renderer is reached through a stub of
the Cython module that executes its LLVM IR (symbolic mode) or the compiled renderer (concrete mode)."""
import builtins
import contextlib
import importlib
import math
import sys
import types
import warnings
from fractions import Fraction as F

import numpy as np
import scipy
import scipy.sparse

import build
import render
import sym
from sym import Num, Unsupported

warnings.filterwarnings("ignore")
SYM = False          # symbolic mode


def isobj(a):
    return isinstance(a, np.ndarray) and np.ndarray.dtype.__get__(a) == object


def issym(a):
    return isinstance(a, (Num, F, sym.SInt)) or isobj(a) or (isinstance(a, (list, tuple)) and any(issym(x) for x in a))


def N(x):
    """exact constant"""
    if isinstance(x, Num):
        return x
    if isinstance(x, np.ndarray) and x.size == 1 and isobj(x):
        return N(x.reshape(-1).tolist()[0])
    return Num(sym.lift(x if isinstance(x, (int, F)) else F(float(x))))


_toN = np.frompyfunc(N, 1, 1)


class SymArray(np.ndarray):
    """object array that looks like an array of doubles and for which a conversion to a floating point type changes nothing"""

    @property
    def dtype(self):
        d = np.ndarray.dtype.__get__(self)
        return np.dtype(np.float64) if d == object else d

    def astype(self, dtype, *a, **k):
        if SYM and isobj(self) and _isfloat(dtype):
            return self.copy()
        return super().astype(dtype, *a, **k)


    def tobytes(self, order="C"):
        return Bytes(np.asarray(self, dtype=object).reshape(-1, order=order if order in "CF" else "C").tolist()) if isobj(self) else super().tobytes(order)


class Bytes:
    """content of an array of symbolic numbers"""

    def __init__(self, values):
        self.values = values


class Overflow(Exception):
    """an integer operation leaves the range of its type"""


class IntArray(SymArray):
    """symbolic integers of a fixed unsigned width"""
    bits = 64

    @property
    def dtype(self):
        d = np.ndarray.dtype.__get__(self)
        return np.dtype(f"uint{self.bits}" if self.bits % 8 == 0 else f"int{self.bits + 1}") if d == object else d

    def __array_finalize__(self, o):
        self.bits = getattr(o, "bits", 64)

    def astype(self, dtype, *a, **k):
        r = self.copy()
        if np.issubdtype(np.dtype(dtype), np.integer):
            r.bits = np.dtype(dtype).itemsize * 8 - (np.dtype(dtype).kind == "i")
            r.check()
        return r

    def check(self):
        for x in self.flat:
            if x >= 2 ** self.bits or x < 0:
                raise Overflow()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        bits = max(x.bits for x in inputs if isinstance(x, IntArray))
        raw = [x.view(np.ndarray) if isinstance(x, np.ndarray) else x for x in inputs]
        r = getattr(ufunc, method)(*raw, **kw)
        if isobj(r):
            if r.size and isinstance(r.flat[0], (bool, np.bool_)):
                return r.astype(bool)
            r = r.view(IntArray)
            r.bits = bits
            r.check()
        return r


def ints(x, bits):
    a = np.asarray(_toN(np.asarray(x, dtype=object)), dtype=object).view(IntArray)
    a.bits = bits
    return a


def obj(x):
    """object array of exact numbers"""
    a = np.asarray(x, dtype=object)
    a = np.asarray(_toN(a), dtype=object) if a.size else a.astype(object)
    return a.view(SymArray)


def tofloat(a):
    """float array of an object array of constants (for scipy)"""
    def c(x):
        if isinstance(x, Num):
            if not x.is_const():
                raise Unsupported("symbolic value in a sparse matrix or another numeric-only place")
            x = x.v[0].get(0, 0)
        return float(x)
    return np.frompyfunc(c, 1, 1)(np.asarray(a, dtype=object)).astype(np.float64)


def elementwise(fn):
    return np.frompyfunc(fn, 1, 1)


def _sqrt(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, Num):
        return x.sqrt()
    return N(sym.fsqrt(F(x) if not isinstance(x, F) else x))


# trigonometry of a symbolic angle: its tangent is an independent variable taken from a pool that the check declares (the check
# relates the two); two angles are the same when their expressions agree up to floating point rounding of the constants
TAN = []
TANPOOL = []
ANGLEPOOL = []


def _close(a, b):
    if a.v[1] != b.v[1] or set(a.v[0]) != set(b.v[0]):
        return False
    return all(abs(a.v[0][k] - b.v[0][k]) <= abs(a.v[0][k]) * F(1, 10**12) for k in a.v[0])


def _tan(x):
    x = N(x)
    if x.is_const():
        return N(math.tan(float(x.v[0].get(0, 0))))
    for a, v in TAN:
        if _close(a, x):
            return v
    n = sum(any(v is q for q in TANPOOL) for _, v in TAN)
    if n >= len(TANPOOL):
        raise Unsupported("tan of one more argument than the check declared")
    TAN.append((x, TANPOOL[n]))
    return TANPOOL[n]


def _arctan(y):
    y = N(y)
    for a, v in TAN:
        d = y - v
        if _close(y, v) or d.is_const() and d.v[0].get(0, 0) == 0:
            return a
    n = sum(any(a is q for q in ANGLEPOOL) for a, _ in TAN)
    if n >= len(ANGLEPOOL):
        raise Unsupported("arctan of a value that is not a known tangent")
    TAN.append((ANGLEPOOL[n], y))
    return ANGLEPOOL[n]


def _cos(x):            # angles in ]-pi/2, pi/2[
    return 1 / (1 + _tan(x) * _tan(x)).sqrt()


def _sin(x):
    return _tan(x) * _cos(x)


def _maximum(a, b):
    return np.frompyfunc(lambda p, q: p if p >= q else q, 2, 1)(a, b)


def _minimum(a, b):
    return np.frompyfunc(lambda p, q: p if p <= q else q, 2, 1)(a, b)


def _det(m):
    m = np.asarray(m, dtype=object)
    if m.ndim > 2:
        out = np.empty(m.shape[:-2], dtype=object)
        for i in np.ndindex(*m.shape[:-2]):
            out[i] = _det(m[i])
        return out
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    s = 0
    for k in range(n):
        sub = np.delete(np.delete(m, 0, 0), k, 1)
        s = s + (-1) ** k * m[0, k] * _det(sub)
    return s


def _inv(m):
    m = np.asarray(m, dtype=object)
    n = m.shape[0]
    d = _det(m)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for k in range(n):
            out[k, i] = (-1) ** (i + k) * _det(np.delete(np.delete(m, i, 0), k, 1)) / d
    return out


def _norm(x, ord=None, axis=None, keepdims=False):
    x = np.asarray(x, dtype=object)
    return elementwise(_sqrt)(np.sum(x * x, axis=axis, keepdims=keepdims)) if axis is not None else _sqrt(np.sum(x * x))


def _dense(mat):
    return mat.toarray()


def _isfloat(dtype):
    return dtype is None or (dtype is not object and np.issubdtype(np.dtype(dtype), np.floating))


def _alloc(value):
    def f(shape, dtype=None, *a, **k):
        if not _isfloat(dtype):
            return {0: np.zeros, 1: np.ones, None: np.zeros}[value](shape, dtype, *a, **k)
        out = np.empty(shape, dtype=object)
        out[...] = N(0 if value is None else value)
        return out.view(SymArray)
    return f


def _like(value):
    def f(a, dtype=None, *ar, **k):
        return _alloc(value)(np.shape(a), dtype if dtype is not None else (None if issym(a) else np.asarray(a).dtype))
    return f


def _full(shape, v, dtype=None, *a, **k):
    if dtype is None and not isinstance(v, (float, Num, F)) and not issym(v) or not _isfloat(dtype):
        return np.full(shape, v, dtype, *a, **k)
    out = np.empty(shape, dtype=object)
    out[...] = N(v)
    return out.view(SymArray)


def _eye(n, m=None, *a, **k):
    return obj(np.eye(n, m, *a, **{q: w for q, w in k.items() if q != "dtype"}))


def _array(x, dtype=None, *a, **k):
    if not _isfloat(dtype):
        return np.array(x, dtype, *a, **k)
    r = np.array(x, *a, **k)
    if isobj(r) or np.issubdtype(r.dtype, np.floating) or (dtype is not None):
        return obj(r)
    return r


def _asarray(x, dtype=None, *a, **k):
    if isobj(x):
        return x
    return _array(x, dtype, *a, **k)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(obj(a), obj(b))
    return all(abs(p - q) <= N(atol) + N(rtol) * abs(q) for p, q in zip(a.flat, b.flat))


def _mean(a, axis=None, *ar, **k):
    a = np.asarray(a)
    n = a.size if axis is None else a.shape[axis]
    return np.sum(a, axis=axis) / N(n)


def _clip(a, lo, hi, *ar, **k):
    if lo is not None:
        a = _maximum(a, lo)
    if hi is not None:
        a = _minimum(a, hi)
    return a


def _cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = np.asarray(a), np.asarray(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = np.moveaxis(a, axisa, -1), np.moveaxis(b, axisb, -1)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported("cross of 2d and 3d vectors")
    c = [a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2], a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]]
    return np.moveaxis(np.stack(c, axis=-1), -1, axisc)


def _einsum(sub, *ops, **k):
    if not _any_sym(ops):
        return np.einsum(sub, *ops, **k)
    return np.einsum(sub, *[np.asarray(o, dtype=object) for o in ops]).view(SymArray) if "->" not in sub or sub.split("->")[1].strip() else np.einsum(sub, *[np.asarray(o, dtype=object) for o in ops])


def _keep(fn):
    def f(*a, **k):
        r = fn(*a, **k)
        if isinstance(r, IntArray):
            return r
        return r.view(SymArray) if isobj(r) else r
    return f


def _any_sym(args):
    return any(issym(a) for a in args)


def _sparse_dot(m, x):
    d = m.toarray()
    r = obj(np.zeros((d.shape[0],) + x.shape[1:]))
    for i, k in zip(*np.nonzero(d)):
        r[i] = r[i] + x[k] * N(d[i, k])
    return r


class Proxy:
    def __init__(self, real, over):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, name):
        real = getattr(self._real, name)
        if not SYM:
            return real
        o = self._over.get(name)
        if o is not None:
            return o
        return real


def _when_sym(alt, real):
    def f(*a, **k):
        return alt(*a, **k) if _any_sym(a) else real(*a, **k)
    return f


def _isfinite(a):
    return np.ones(np.shape(a), dtype=bool)


_linalg = Proxy(np.linalg, {"norm": _when_sym(_norm, np.linalg.norm), "det": _when_sym(_det, np.linalg.det), "inv": _when_sym(_inv, np.linalg.inv)})
_np_over = {
    "zeros": _alloc(0), "ones": _alloc(1), "empty": _alloc(None), "full": _full, "eye": _eye, "identity": lambda n, dtype=None: _eye(n),
    "zeros_like": _like(0), "ones_like": _like(1), "empty_like": _like(None),
    "array": _array, "asarray": _asarray, "asanyarray": _asarray, "ascontiguousarray": _asarray, "linalg": _linalg,
    "sqrt": _when_sym(lambda x: elementwise(_sqrt)(x), np.sqrt), "tan": _when_sym(lambda x: elementwise(_tan)(x), np.tan),
    "arctan": _when_sym(lambda x: elementwise(_arctan)(x), np.arctan), "cos": _when_sym(lambda x: elementwise(_cos)(x), np.cos), "sin": _when_sym(lambda x: elementwise(_sin)(x), np.sin),
    "column_stack": _keep(np.column_stack), "stack": _keep(np.stack), "vstack": _keep(np.vstack), "hstack": _keep(np.hstack), "dstack": _keep(np.dstack), "concatenate": _keep(np.concatenate),
    "tile": _keep(np.tile), "repeat": _keep(np.repeat), "where": _keep(np.where), "hypot": _when_sym(lambda a, b: elementwise(_sqrt)(a * a + b * b), np.hypot), "einsum": _einsum,
    "degrees": _when_sym(lambda x: x * N(180 / np.pi), np.degrees), "rad2deg": _when_sym(lambda x: x * N(180 / np.pi), np.rad2deg),
    "maximum": _when_sym(_maximum, np.maximum), "minimum": _when_sym(_minimum, np.minimum), "fmax": _when_sym(_maximum, np.fmax), "fmin": _when_sym(_minimum, np.fmin),
    "allclose": _when_sym(_allclose, np.allclose), "mean": _when_sym(_mean, np.mean), "clip": _when_sym(_clip, np.clip),
    "cross": _when_sym(_cross, np.cross), "isfinite": _when_sym(_isfinite, np.isfinite),
    "isnan": _when_sym(lambda a: np.zeros(np.shape(a), dtype=bool), np.isnan),
    "square": _when_sym(lambda x: x * x, np.square), "float64": lambda x=0: N(x) if not isinstance(x, np.ndarray) else obj(x),
    "abs": _when_sym(lambda x: elementwise(abs)(x), np.abs), "radians": _when_sym(lambda x: x * N(np.pi / 180), np.radians),
    "deg2rad": _when_sym(lambda x: x * N(np.pi / 180), np.deg2rad),
}
# np.float64 / np.double are used both as dtypes and as converters
for _k in ("float64",):
    _np_over.pop(_k)
np_proxy = Proxy(np, _np_over)


def _sp(fn):
    def conv(x):
        if isobj(x):
            return tofloat(x)
        if isinstance(x, (list, tuple)):
            return type(x)(conv(y) for y in x)
        if isinstance(x, Num):
            return float(tofloat(x))
        return x

    def f(*a, **k):
        return fn(*[conv(x) for x in a], **{q: conv(w) for q, w in k.items()})
    return f


_sparse_over = {k: _sp(getattr(scipy.sparse, k)) for k in ("coo_matrix", "csr_matrix", "csc_matrix", "diags", "eye", "kron", "coo_array", "csr_array", "csc_array", "identity", "spdiags") if hasattr(scipy.sparse, k)}
sparse_proxy = Proxy(scipy.sparse, _sparse_over)
scipy_proxy = Proxy(scipy, {"sparse": sparse_proxy})
linalg_proxy = _linalg


def _patch_scipy():
    classes = set()
    for k in ("coo", "csr", "csc", "dia", "bsr", "lil", "dok"):
        for sfx in ("matrix", "array"):
            c = getattr(scipy.sparse, f"{k}_{sfx}", None)
            if c is not None:
                for b in c.__mro__:
                    if "_matmul_vector" in b.__dict__ or "_matmul_multivector" in b.__dict__:
                        classes.add(b)
    for c in classes:
        for name in ("_matmul_vector", "_matmul_multivector"):
            if name in c.__dict__:
                def mk(old):
                    def f(self, other):
                        if isobj(other):
                            return _sparse_dot(self, other)
                        return old(self, other)
                    return f
                setattr(c, name, mk(c.__dict__[name]))
    # Num * sparse matrix with a constant factor
    base = scipy.sparse._base._spbase
    old = base._mul_scalar if hasattr(base, "_mul_scalar") else None
    for c in {scipy.sparse._data._data_matrix, base}:
        if "_mul_scalar" in c.__dict__:
            def mk2(old):
                def f(self, other):
                    if isinstance(other, (Num, F)):
                        other = float(tofloat(other))
                    return old(self, other)
                return f
            c._mul_scalar = mk2(c.__dict__["_mul_scalar"])


_patch_scipy()


def _float(x=0):
    if isinstance(x, np.ndarray) and x.size == 1 and isobj(x):
        x = x.reshape(-1)[0]
    return x if SYM and isinstance(x, (Num, F)) else builtins.float(x)


class Text:
    """text made of symbolic numbers: each is written as a numeral of its own and read back (float, int) as its symbol.
    Printing with p decimals gives a value within half a unit of the last decimal, the deviation being one of the given symbols"""

    def __init__(self, eps=()):
        self.by_numeral, self.numeral, self.eps, self.k = {}, {}, list(eps), 0

    def put(self, x):
        """numeral of a value"""
        key = x if not isinstance(x, Num) else (frozenset(x.v[0].items()), x.v[1])
        if key not in self.numeral:
            self.k += 1
            t = str(7000001 + 13 * self.k)
            self.numeral[key] = t
            self.by_numeral[t] = x
        return self.numeral[key]

    def get(self, t):
        t = t.strip()
        sign = 1
        if t[:1] in "+-" and t[1:]:
            sign = -1 if t[0] == "-" else 1
            t = t[1:]
        if t in self.by_numeral:
            return self.by_numeral[t] if sign > 0 else -self.by_numeral[t]
        b = t.split(".")[0]     # a numeral printed with decimals
        if "." in t and b in self.by_numeral and not t.split(".")[1].strip("0"):
            return self.by_numeral[b] if sign > 0 else -self.by_numeral[b]
        return None

    def __call__(self, x, spec):
        if isinstance(x, Num) and x.is_const():
            v = x.low()
            return format(int(v) if v == int(v) and not spec else float(v), spec)
        d = spec.rstrip("fFeEgGd")
        if not spec or spec[-1] == "d" or spec in ("r", "s"):
            return self.put(x)
        if spec[-1] not in "fF":
            raise Unsupported(f"format {spec} of a symbolic value")
        p = int(d.split(".")[1]) if "." in d else 6
        if not self.eps:
            raise Unsupported("more printed values than declared")
        return self.put(x + self.eps.pop(0) * F(1, 2 * 10 ** p))

    def float(self, x=0):
        if isinstance(x, str) and SYM:
            v = self.get(x)
            return N(v) if v is not None else N(builtins.float(x))
        return _float(x)

    def int(self, x=0, *a):
        if isinstance(x, str) and SYM:
            v = self.get(x)
            if v is not None:
                return v
        if SYM and isinstance(x, Num):
            return x
        return builtins.int(x, *a)

    @contextlib.contextmanager
    def installed(self, *mods):
        old = sym.TEXT
        sym.TEXT = self if SYM else None
        for m in mods:
            m.float, m.int = self.float, self.int
        try:
            yield self
        finally:
            sym.TEXT = old
            for m in mods:
                m.float = _float
                del m.int


def _round(x, *a):
    return builtins.round(x, *a)


# ------------------------------------------------------------------------------------------------ cython stub
CALLS = []          # every call of the renderer: (name, scene, arguments) for checks that look at what is handed over
INTERCEPT = None    # a check may replace the renderer altogether


def L(x):
    return [v.low() if isinstance(v, Num) else v for v in np.asarray(x).reshape(-1).tolist()]


def scene2(scene):
    nt, nv = scene.faces.shape[0], scene.depths.shape[0]

    def rows(a, n):
        q = L(a)
        return [q[i * n:(i + 1) * n] for i in range(len(q) // n)] if n else []
    nc = int(scene.colors.shape[1])
    s = render.Scene2(faces=[[int(v) for v in f] for f in rows(scene.faces, 3)], faces_uv=[[int(v) for v in f] for f in rows(scene.faces_uv, 3)], depths=L(scene.depths), ij=rows(scene.ij, 2),
                      uv=rows(scene.uv, 2), shade=[int(v) if isinstance(v, (bool, np.bool_)) else v for v in L(scene.shade)], colors=rows(scene.colors, nc), edgeflags=[[bool(v) for v in r] for r in rows(scene.edgeflags, 3)],
                      textured=[bool(v) for v in L(scene.textured)], shaded=[bool(v) for v in L(scene.shaded)], clockwise=bool(scene.clockwise),
                      backface_culling=bool(scene.backface_culling), height=int(scene.height), width=int(scene.width), nb_colors=nc,
                      background_image=None if scene.background_image is None else L(scene.background_image),
                      background_color=None if scene.background_color is None else L(scene.background_color),
                      strict_edge=bool(scene.strict_edge), perspective_correct=bool(scene.perspective_correct), integer_pixel_centers=bool(scene.integer_pixel_centers))
    t = scene.texture
    if t.size:
        q = L(t)
        h, w, c = t.shape
        s.texture = [[q[(y * w + x) * c:(y * w + x + 1) * c] for x in range(w)] for y in range(h)]
        s.texture_height, s.texture_width = h, w
    return s


def _put(dst, values):
    f = [N(v) if SYM and not (isinstance(v, float) and (v != v or abs(v) == math.inf)) else v for v in values]
    if isobj(dst):
        tmp = np.empty(len(f), dtype=object)
        for i, v in enumerate(f):
            tmp[i] = v
    else:
        tmp = np.array([float(v) for v in f])
    dst[...] = tmp.reshape(dst.shape)


class RendererThrow(Exception):
    pass


def _renderSceneCpp(scene, sigma, image, z_buffer, antialiase_error=0, obs=None, err_buffer=None, check_valid=1):
    CALLS.append(("render", scene, dict(sigma=sigma, antialiase_error=antialiase_error, obs=obs)))
    if INTERCEPT is not None:
        return INTERCEPT("render", scene, sigma, image, z_buffer, None, antialiase_error, obs, err_buffer, None)
    s = scene2(scene)
    s.sigma = sigma.low() if isinstance(sigma, Num) else sigma
    ob = L(obs) if antialiase_error else None
    if SYM:
        keep = sym.KEEP
        sym.KEEP = False
        try:
            o = render.ir_forward(s, ob)
        finally:
            sym.KEEP = keep
    else:
        o = render.native(s, ob)
        if o.rc:
            raise RendererThrow()
    _put(image, o.image)
    _put(z_buffer, o.z)
    if antialiase_error:
        _put(err_buffer, o.err)


def _renderSceneBCpp(scene, sigma, image, z_buffer, image_b=None, antialiase_error=0, obs=None, err_buffer=None, err_buffer_b=None, check_valid=1):
    CALLS.append(("render_b", scene, dict(sigma=sigma, antialiase_error=antialiase_error, obs=obs, image_b=image_b, err_buffer_b=err_buffer_b)))
    if INTERCEPT is not None:
        return INTERCEPT("render_b", scene, sigma, image, z_buffer, image_b, antialiase_error, obs, err_buffer, err_buffer_b)
    s = scene2(scene)
    s.sigma = sigma.low() if isinstance(sigma, Num) else sigma
    grads = {}
    for k in ("uv", "ij", "shade", "colors", "texture"):
        v = getattr(scene, k + "_b")
        if v is not None and v.size:
            grads[k + "_b"] = L(v)
    if SYM:
        keep = sym.KEEP
        sym.KEEP = False
        try:
            strip = lambda q: [Num(v.v).low() if isinstance(v, Num) else v for v in L(q)]
            for k in ("ij", "colors", "uv", "shade", "depths"):
                setattr(s, k, _strip(getattr(s, k)))
            if antialiase_error:
                o = render.ir_backward(s, strip(image), strip(z_buffer), obs=L(obs), err=strip(err_buffer), err_b=L(err_buffer_b), grads=grads)
            else:
                o = render.ir_backward(s, strip(image), strip(z_buffer), image_b=L(image_b), grads=grads)
        finally:
            sym.KEEP = keep
        _put(image, o.image)
        for dst, val in ((image_b, o.image_b), (err_buffer, o.err), (err_buffer_b, o.err_b)):
            if dst is not None and val is not None:
                _put(dst, val)
    else:
        o = native_backward(s, image, z_buffer, image_b, obs if antialiase_error else None, err_buffer, err_buffer_b, grads)
    for k in grads:
        _put(getattr(scene, k), getattr(o, k))


def _strip(x):
    if isinstance(x, list):
        return [_strip(y) for y in x]
    return Num(x.v).low() if isinstance(x, Num) and x.t else x


def native_backward(s, image, z_buffer, image_b, obs, err_buffer, err_buffer_b, grads):
    o = render.native(s, L(obs) if obs is not None else None, backward=dict(err_b=L(err_buffer_b)) if obs is not None else dict(image_b=L(image_b)), grads=grads,
                      buffers=dict(image=L(image), z=L(z_buffer), err=L(err_buffer) if obs is not None else None))
    if o.rcb:
        raise RendererThrow()
    _put(image, o.image_after)
    for dst, val in ((image_b, o.image_b_after), (err_buffer, o.err_after), (err_buffer_b, o.err_b_after)):
        if dst is not None and val is not None:
            _put(dst, val)
    return o


def load():
    """import deodr from /repo with the renderer replaced, and put the proxies in its modules"""
    if "deodr.triangulated_mesh" in sys.modules and getattr(sys.modules["deodr.triangulated_mesh"], "_vf", False):
        return sys.modules["deodr"]
    if build.REPO not in sys.path:
        sys.path.insert(0, build.REPO)
    stub = types.ModuleType("deodr.differentiable_renderer_cython")
    stub.renderSceneCpp = lambda *a, **k: _renderSceneCpp(*a, **k)
    stub.renderSceneBCpp = lambda *a, **k: _renderSceneBCpp(*a, **k)
    sys.modules["deodr.differentiable_renderer_cython"] = stub
    d = importlib.import_module("deodr")
    if not d.__file__.startswith(build.REPO + "/"):
        raise RuntimeError("deodr was not imported from " + build.REPO)
    for m in ("differentiable_renderer", "triangulated_mesh", "laplacian_rigid_energy", "tools", "mesh_fitter", "obj", "meshlab_io"):
        importlib.import_module("deodr." + m)
    patch_modules()
    return d


def extra(name):
    """another module of the package, with the proxies in it"""
    load()
    m = importlib.import_module("deodr." + name)
    if not getattr(m, "_vf", False):
        patch_modules()
    return m


def patch_modules():
    swap = {id(np): np_proxy, id(scipy): scipy_proxy, id(scipy.sparse): sparse_proxy, id(np.linalg): linalg_proxy}
    for name, m in list(sys.modules.items()):
        if name == "deodr" or name.startswith("deodr.") and not name.startswith("deodr.differentiable_renderer_cython"):
            if m is None or getattr(m, "_vf", False) is True:
                continue
            for k, v in list(vars(m).items()):
                if id(v) in swap:
                    setattr(m, k, swap[id(v)])
                    continue
                if callable(v):
                    for real, over in ((np, np_proxy), (np.linalg, linalg_proxy), (scipy.sparse, sparse_proxy)):
                        for on in over._over:
                            if getattr(real, on, None) is v:
                                setattr(m, k, _late(over, on))
            m.float = _float
            m._vf = True


def _late(over, name):
    def f(*a, **k):
        return getattr(over, name)(*a, **k)
    return f


def module(name):
    load()
    return sys.modules["deodr." + name]


@contextlib.contextmanager
def symbolic():
    global SYM
    a, b = SYM, sym.KEEP
    SYM, sym.KEEP = True, True
    TAN.clear()
    try:
        yield
    finally:
        SYM, sym.KEEP = a, b


@contextlib.contextmanager
def concrete():
    global SYM
    a, b = SYM, sym.KEEP
    SYM, sym.KEEP = False, False
    try:
        yield
    finally:
        SYM, sym.KEEP = a, b
