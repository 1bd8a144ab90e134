"""Symbolic execution of the Cython bridge.  The .pyx source is parsed with Cython's own parser and its syntax tree is interpreted on arrays whose shapes
and contents are z3 variables: an array has a fixed number of dimensions and element type, symbolic extents and an uninterpreted content function of the
C-order index.  Conditions on symbolic values fork (re-execution); the calls into the C++ renderer are recorded."""
import builtins
import time
import types

import numpy as np
import paths  # noqa: F401  (makes the solvers importable)
import z3

from sym import Unsupported


class PyExc(Exception):
    """an exception of the interpreted program"""

    def __init__(self, name, text=""):
        super().__init__(f"{name}: {text}")
        self.name = name


class Crash(Exception):
    """the interpreted program leaves defined behaviour (reads attributes of None as an array, ...)"""


# ------------------------------------------------------------------ paths
class Ctx:
    def __init__(self, base, stats, prefix):
        self.s = z3.Solver()
        self.s.set("timeout", 20000)
        self.s.add(*base)
        self.stats, self.prefix, self.taken, self.alts = stats, prefix, [], []
        self.lits = []
        self.n = 0

    def check(self, *extra):
        t = time.time()
        r = self.s.check(*extra)
        self.stats.add("queries")
        self.stats.add("solver_s", time.time() - t)
        return r

    def assume(self, c):
        self.lits.append(c)
        self.s.add(c)

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if len(self.taken) < len(self.prefix):
            d = self.prefix[len(self.taken)]
        else:
            a, b = self.check(c), self.check(z3.Not(c))
            for x in (a, b):
                if x == z3.unknown:
                    self.stats.add("inconclusive_branches")
            if a == z3.unsat and b == z3.unsat:
                raise Dead()
            d = a != z3.unsat
            if d and b != z3.unsat:
                self.alts.append(self.taken + [False])
        self.taken.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def fresh(self, what, sort):
        self.n += 1
        return z3.Const(f"{what}!{self.n}", sort)


class Dead(Exception):
    pass


CTX = None


def explore(base, prog, stats, deadline, limit=4000):
    """yields (ctx, outcome) of every path of prog"""
    global CTX
    todo = [[]]
    while todo:
        if time.time() > deadline or limit <= 0:
            yield None, None
            return
        limit -= 1
        CTX = Ctx(base, stats, todo.pop())
        try:
            try:
                out = ("return", prog())
            except PyExc as e:
                out = ("raise", e.name, str(e))
            except Crash as e:
                out = ("crash", str(e))
            stats.add("paths")
            todo += CTX.alts
            yield CTX, out
        except Dead:
            todo += CTX.alts


# ------------------------------------------------------------------ scalars
def zi(x):
    """z3 integer"""
    if isinstance(x, I):
        return x.z
    if isinstance(x, B):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return z3.IntVal(int(x))
    raise Unsupported(f"{type(x).__name__} as an integer")


def zb(x):
    if isinstance(x, B):
        return x.z
    if isinstance(x, I):
        return x.z != 0
    if isinstance(x, R):
        return x.z != 0
    if isinstance(x, A):
        raise Unsupported("truth value of an array")
    return z3.BoolVal(bool(x))


def number(x):
    """z3 number, integer or real"""
    if isinstance(x, R):
        return x.z
    if isinstance(x, float):
        return z3.RealVal(repr(x)) if x == x and abs(x) != float("inf") else bad()
    return zi(x)


def bad():
    raise Unsupported("not a finite number")


def wrapn(z):
    return I(z) if z.is_int() else R(z)


def arith(op, a, b):
    if isinstance(a, A) or isinstance(b, A):
        return NotImplemented
    if not all(isinstance(x, (I, R, B, int, float, np.integer, np.bool_)) for x in (a, b)):
        return NotImplemented
    x, y = number(a), number(b)
    return wrapn({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op]())


def compare(op, a, b):
    if isinstance(b, A):
        return NotImplemented
    if not isinstance(b, (I, R, B, int, float, np.integer, np.bool_)):
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    x, y = number(a), number(b)
    return B({"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]())


class _Num:
    __hash__ = object.__hash__
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    def __add__(self, o): return arith("+", self, o)
    def __radd__(self, o): return arith("+", o, self)
    def __sub__(self, o): return arith("-", self, o)
    def __rsub__(self, o): return arith("-", o, self)
    def __mul__(self, o): return arith("*", self, o)
    def __rmul__(self, o): return arith("*", o, self)
    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return compare("!=", self, o)
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare(">", self, o)
    def __ge__(self, o): return compare(">=", self, o)
    def __bool__(self): return CTX.decide(self.z != 0)

    def __repr__(self):
        return f"<{self.z}>"

    def __format__(self, spec):
        return repr(self)


class I(_Num):
    def __index__(self):
        raise Unsupported("a symbolic integer where a plain one is needed")

    def __int__(self):
        raise Unsupported("int() of a symbolic integer")

    def __neg__(self):
        return I(-self.z)


class R(_Num):
    def __float__(self):
        raise Unsupported("float() of a symbolic number")

    def __neg__(self):
        return R(-self.z)


class B:
    __hash__ = object.__hash__
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CTX.decide(self.z)

    def __and__(self, o): return B(z3.And(self.z, zb(o)))
    __rand__ = __and__
    def __or__(self, o): return B(z3.Or(self.z, zb(o)))
    __ror__ = __or__
    def __xor__(self, o): return B(z3.Xor(self.z, zb(o)))
    __rxor__ = __xor__
    def __invert__(self): return B(z3.Not(self.z))      # numpy booleans
    def __eq__(self, o): return B(self.z == zb(o)) if isinstance(o, (B, bool, np.bool_)) else compare("==", self, o)
    def __ne__(self, o): return B(self.z != zb(o)) if isinstance(o, (B, bool, np.bool_)) else compare("!=", self, o)
    def __add__(self, o): return arith("+", self, o)
    __radd__ = __add__
    def all(self): return self
    any = item = all

    def __repr__(self):
        return f"<{self.z}>"


# ------------------------------------------------------------------ arrays
def kind(dt):
    return {"f": "r", "b": "b"}.get(dt.kind, "i") if dt.kind in "fiub" else bad_dtype(dt)


def bad_dtype(dt):
    raise Unsupported(f"element type {dt}")


SORT = {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}


class Buf:
    """memory of an array: content function of the linear index"""

    def __init__(self, fn, k):
        self.fn, self.k = fn, k


def conv(z, a, b):
    """element conversion between element types"""
    ka, kb = kind(a), kind(b)
    if kb == "b":
        return z if ka == "b" else z != 0
    if ka == "b":
        z = z3.If(z, z3.IntVal(1), z3.IntVal(0))
        ka = "i"
        return z if kb == "i" else z3.ToReal(z)
    if kb == "r":
        return z if ka == "r" else z3.ToReal(z)
    if ka == "r":
        z = z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))
        a = np.dtype(np.int64)
    lo, hi = int(np.iinfo(b).min), int(np.iinfo(b).max)
    la, ha = int(np.iinfo(a).min), int(np.iinfo(a).max)
    if lo <= la and ha <= hi:
        return z
    return (z - lo) % (hi - lo + 1) + lo


def size_of(shape):
    n = 1
    for s in shape:
        n = n * s
    return n


def same_shape(a, b):
    """z3: equal shapes"""
    if len(a) != len(b):
        return z3.BoolVal(False)
    return z3.And([zi(x) == zi(y) for x, y in zip(a, b)])


class A:
    """array; at(k) is element k in C order"""
    __hash__ = object.__hash__
    __array_priority__ = 1000

    def __init__(self, shape, dtype, buf, idx=None, contig=True):
        self.shape, self.dtype, self.buf, self.idx, self.contig = tuple(shape), np.dtype(dtype), buf, idx, contig

    @staticmethod
    def new(shape, dtype, fn, contig=True):
        return A(shape, dtype, Buf(fn, kind(np.dtype(dtype))), None, contig)

    @staticmethod
    def var(name, shape, dtype, contig=True):
        f = z3.Function(name, z3.IntSort(), SORT[kind(np.dtype(dtype))])
        return A.new(shape, dtype, lambda k: f(k), contig)

    def at(self, k):
        return self.buf.fn(k if self.idx is None else self.idx(k))

    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: size_of(s.shape))

    @property
    def T(self):
        if self.ndim < 2:
            return self
        if self.ndim != 2:
            raise Unsupported("transposed 3D array")
        n, m = zi(self.shape[0]), zi(self.shape[1])
        old = self.idx or (lambda k: k)
        return A(self.shape[::-1], self.dtype, self.buf, lambda k: old((k % n) * m + k / n), False)

    def transpose(self, *a):
        if a:
            raise Unsupported("transpose with axes")
        return self.T

    @property
    def data(self):
        return Ptr(self, "char")

    @property
    def flags(self):
        return types.SimpleNamespace(c_contiguous=self.contig, C_CONTIGUOUS=self.contig)

    def copy(self, order="C"):
        if order not in ("C", "K", "A"):
            raise Unsupported("Fortran order")
        fn, ix = self.buf.fn, self.idx
        return A.new(self.shape, self.dtype, (lambda k: fn(k)) if ix is None else (lambda k: fn(ix(k))), True)

    def flatten(self, order="C"):
        if order != "C":
            if order in ("K", "A") and self.contig:
                pass
            elif self.ndim == 2 and order == "F":
                return self.T.flatten()
            elif self.ndim > 1:
                raise Unsupported(f"flatten(order={order})")
        c = self.copy()
        c.shape = (self.size,)
        return c

    def ravel(self, order="C"):
        return self.reshape(-1) if self.contig and order in ("C", "K", "A") else self.flatten(order)

    def reshape(self, *s, order="C"):
        if order != "C":
            raise Unsupported("reshape order")
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = list(s)
        if any(isinstance(x, int) and x == -1 for x in s):
            if len(s) == 1:
                s = [self.size]
            else:
                k = [isinstance(x, int) and x == -1 for x in s].index(True)
                rest = size_of(s[:k] + s[k + 1:])
                q = I(CTX.fresh("extent", z3.IntSort()))
                total = self.size
                if not B(z3.And(zi(rest) > 0, zi(total) % zi(rest) == 0)):
                    raise PyExc("ValueError", "cannot reshape")
                CTX.assume(z3.And(q.z >= 0, q.z * zi(rest) == zi(total)))
                s[k] = q
        if not B(zi(size_of(s)) == zi(self.size)):
            raise PyExc("ValueError", "cannot reshape")
        base = self if self.contig else self.copy()
        return A(s, base.dtype, base.buf, base.idx, True)

    def astype(self, dtype, order="K", copy=True, **k):
        d = np.dtype(dtype)
        if d == self.dtype and not copy:
            return self
        fn, ix, a = self.buf.fn, self.idx, self.dtype
        return A.new(self.shape, d, lambda k: conv(fn(k if ix is None else ix(k)), a, d), self.contig)

    def view(self, dtype=None):
        if dtype is None:
            return A(self.shape, self.dtype, self.buf, self.idx, self.contig)
        d = np.dtype(dtype)
        if {d, self.dtype} <= {np.dtype(bool), np.dtype(np.uint8)}:
            fn, a = self.buf.fn, self.dtype
            return A(self.shape, d, Buf(lambda k: conv(fn(k), a, d), kind(d)), self.idx, self.contig)
        raise Unsupported("view of another element type")

    def tolist(self):
        raise Unsupported("tolist")

    # elementwise
    def _el(self, o, f, dt):
        if isinstance(o, A):
            if not B(same_shape(self.shape, o.shape)):
                if len(self.shape) != len(o.shape):
                    raise Unsupported("broadcasting")
                raise PyExc("ValueError", "operands could not be broadcast together")
            return A.new(self.shape, dt, lambda k: f(self.at(k), o.at(k)))
        if not isinstance(o, (I, R, B, int, float, np.integer, np.bool_, np.floating)):
            raise Unsupported(f"array operation with {type(o).__name__}")
        z = zb(o) if kind(self.dtype) == "b" and isinstance(o, (B, bool, np.bool_)) else number(float(o) if isinstance(o, np.floating) else o)
        c = self.copy()
        return A.new(self.shape, dt, lambda k: f(c.at(k), z))

    def _n(self, z):
        return z3.If(z, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(z) else z

    def __lt__(self, o): return self._el(o, lambda a, b: self._n(a) < self._n(b), bool)
    def __le__(self, o): return self._el(o, lambda a, b: self._n(a) <= self._n(b), bool)
    def __gt__(self, o): return self._el(o, lambda a, b: self._n(a) > self._n(b), bool)
    def __ge__(self, o): return self._el(o, lambda a, b: self._n(a) >= self._n(b), bool)

    def __eq__(self, o):
        if o is None:
            raise Unsupported("array == None")
        return self._el(o, lambda a, b: a == b if z3.is_bool(a) == z3.is_bool(b) else self._n(a) == self._n(b), bool)

    def __ne__(self, o):
        if o is None:
            raise Unsupported("array != None")
        return self._el(o, lambda a, b: a != b if z3.is_bool(a) == z3.is_bool(b) else self._n(a) != self._n(b), bool)

    def __invert__(self):
        if kind(self.dtype) != "b":
            raise Unsupported("~ of numbers")
        return A.new(self.shape, bool, lambda k: z3.Not(self.at(k)))

    def _bits(self, o, f):
        if kind(self.dtype) != "b" or isinstance(o, A) and kind(o.dtype) != "b":
            raise Unsupported("bitwise operation on numbers")
        return self._el(o, f, bool)

    def __and__(self, o): return self._bits(o, z3.And)
    def __or__(self, o): return self._bits(o, z3.Or)

    def _ar(self, o, f):
        if kind(self.dtype) != "r":
            raise Unsupported("arithmetic on integer arrays")
        return self._el(o, f, self.dtype)

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)

    def __iadd__(self, o):
        self[...] = self + o
        return self

    def _quant(self, all_):
        k = z3.Int("k")
        inside = z3.And(k >= 0, k < zi(self.size))
        v = self.at(k)
        v = v if z3.is_bool(v) else v != 0
        return B(z3.ForAll([k], z3.Implies(inside, v)) if all_ else z3.Exists([k], z3.And(inside, v)))

    def all(self, axis=None):
        if axis is not None:
            raise Unsupported("axis")
        return self._quant(True)

    def any(self, axis=None):
        if axis is not None:
            raise Unsupported("axis")
        return self._quant(False)

    def _ext(self, sgn):
        n = zi(self.size)
        if not B(n > 0):
            raise PyExc("ValueError", "zero-size array to reduction operation")
        if kind(self.dtype) == "b":
            raise Unsupported("extremum of booleans")
        m, w, k = CTX.fresh("extremum", SORT[kind(self.dtype)]), CTX.fresh("where", z3.IntSort()), z3.Int("k")
        CTX.assume(z3.And(w >= 0, w < n, self.at(w) == m))
        CTX.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), self.at(k) <= m if sgn > 0 else self.at(k) >= m)))
        return wrapn(m)

    def max(self, axis=None): return self._ext(1)
    def min(self, axis=None): return self._ext(-1)

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def __len__(self):
        raise Unsupported("len() of an array")

    def __getitem__(self, i):
        if i is Ellipsis or (isinstance(i, slice) and i == slice(None)):
            return A(self.shape, self.dtype, self.buf, self.idx, self.contig)
        t = i if isinstance(i, tuple) else (i,)
        if all(isinstance(x, (int, I, np.integer)) for x in t) and len(t) == self.ndim:
            k = z3.IntVal(0)
            for x, n in zip(t, self.shape):
                z = zi(x)
                if not B(z3.And(z >= -zi(n), z < zi(n))):
                    raise PyExc("IndexError", "index out of bounds")
                k = k * zi(n) + z3.If(z < 0, z + zi(n), z)
            v = self.at(k)
            return B(v) if z3.is_bool(v) else wrapn(v)
        raise Unsupported("indexing of an array")

    def __setitem__(self, i, v):
        if not (i is Ellipsis or (isinstance(i, slice) and i == slice(None))):
            raise Unsupported("assignment into a part of an array")
        if self.idx is not None:
            raise Unsupported("assignment through a view")
        if isinstance(v, A):
            if not B(same_shape(self.shape, v.shape)):
                raise PyExc("ValueError", "could not broadcast")
            c = v.copy()
            self.buf.fn = lambda k, a=v.dtype: conv(c.at(k), a, self.dtype)
        else:
            z = zb(v) if kind(self.dtype) == "b" else z3.ToReal(zi(v)) if kind(self.dtype) == "r" and not isinstance(v, (R, float)) else number(v)
            self.buf.fn = lambda k: z

    def fill(self, v):
        self[...] = v

    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(np.ndarray, n):
            raise AttributeError(n)
        raise Unsupported(f"array attribute {n}")


def is_array(x):
    return isinstance(x, A)


class NP:
    """numpy for symbolic arrays"""

    def __getattr__(self, n):
        f = getattr(np, n)
        if callable(f) and not isinstance(f, type):
            def g(*a, **k):
                if any(isinstance(x, (A, I, R, B)) for x in list(a) + list(k.values())) or any(isinstance(y, (A, I, R, B)) for x in a if isinstance(x, (tuple, list)) for y in x):
                    raise Unsupported(f"numpy.{n} of symbolic values")
                return f(*a, **k)
            return g
        return f

    ndarray = A

    def all(self, x, **k): return x.all(**k) if is_array(x) else x if isinstance(x, B) else np.all(x, **k)
    def any(self, x, **k): return x.any(**k) if is_array(x) else x if isinstance(x, B) else np.any(x, **k)
    def max(self, x, **k): return x.max(**k) if is_array(x) else np.max(x, **k)
    amax = max
    def min(self, x, **k): return x.min(**k) if is_array(x) else np.min(x, **k)
    amin = min
    def ravel(self, x, order="C"): return x.ravel(order)
    def reshape(self, x, s, order="C"): return x.reshape(s, order=order)
    def copy(self, x): return x.copy()
    def array(self, x, dtype=None, copy=True, order=None): return (x.astype(dtype) if dtype is not None else x.copy()) if is_array(x) else np.array(x, dtype=dtype)
    def logical_not(self, x): return ~x
    def logical_and(self, a, b): return a & b
    def logical_or(self, a, b): return a | b
    def shape(self, x): return x.shape if is_array(x) else np.shape(x)
    def ndim(self, x): return x.ndim if is_array(x) else np.ndim(x)
    def size(self, x): return x.size if is_array(x) else np.size(x)

    def ascontiguousarray(self, x, dtype=None):
        if x is None and dtype is not None:
            k = kind(np.dtype(dtype))
            if k == "i":
                raise PyExc("TypeError", "int() argument must not be None")
            return self.empty((1,), dtype) if k == "r" else self.zeros((1,), dtype)      # a single NaN, or False
        if x is None or not is_array(x):
            raise Unsupported("ascontiguousarray of something else")
        d = np.dtype(dtype) if dtype is not None else x.dtype
        if x.contig and d == x.dtype and x.ndim >= 1:
            return x
        r = x.astype(d).copy()
        if x.ndim == 0:
            r.shape = (1,)
        return r

    def asarray(self, x, dtype=None, order=None):
        if not is_array(x):
            raise Unsupported("asarray of something else")
        d = np.dtype(dtype) if dtype is not None else x.dtype
        return x if d == x.dtype and (x.contig or order != "C") else self.ascontiguousarray(x, d)

    def _full(self, s, dtype, z):
        s = tuple(s) if isinstance(s, (tuple, list)) else (s,)
        return A.new(s, dtype or np.float64, z)

    def zeros(self, s, dtype=None):
        d = np.dtype(dtype or np.float64)
        return self._full(s, d, lambda k: {"r": z3.RealVal(0), "i": z3.IntVal(0), "b": z3.BoolVal(False)}[kind(d)])

    def empty(self, s, dtype=None):
        CTX.n += 1
        return A.var(f"uninitialised!{CTX.n}", tuple(s) if isinstance(s, (tuple, list)) else (s,), dtype or np.float64)

    def zeros_like(self, x, dtype=None): return self.zeros(x.shape, dtype or x.dtype)
    def empty_like(self, x, dtype=None): return self.empty(x.shape, dtype or x.dtype)

    def array_equal(self, a, b):
        raise Unsupported("array_equal")


class Ptr:
    def __init__(self, a, ctype):
        self.a, self.ctype = a, ctype

    def cast(self, t):
        return Ptr(self.a, t)


NULL = Ptr(None, "void")


class Struct:
    def __init__(self, name, fields):
        self.name, self.types, self.fields = name, fields, {}


class Ref:
    """pointer to a struct or a local variable"""

    def __init__(self, x):
        self.x = x


# ------------------------------------------------------------------ interpreter
BUILTIN_EXC = ("BaseException", "Exception", "ValueError", "TypeError", "RuntimeError", "AssertionError", "IndexError", "KeyError", "OverflowError", "AttributeError", "NotImplementedError")
DT = {"double": np.float64, "float": np.float32, "int": np.int32, "unsigned int": np.uint32, "np.uint32_t": np.uint32, "np.int32_t": np.int32, "np.double_t": np.float64, "np.float64_t": np.float64,
      "np.uint8_t": np.uint8, "np.float32_t": np.float32, "np.int64_t": np.int64, "unsigned char": np.uint8, "np.float_t": np.float64, "bool": np.bool_, "np.npy_bool": np.bool_, "char": np.int8, "np.int_t": np.int64}
C_INTS = ("int", "unsigned int", "long", "unsigned long", "size_t", "Py_ssize_t", "short", "np.npy_intp", "np.intp_t")


class ExcType:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a):
        return ExcValue(self.name, a)


class ExcValue:
    def __init__(self, name, args):
        self.name, self.args = name, args


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Type:
    """C type of a variable: kind 'object', 'int', 'bool', 'double', 'ptr', 'struct', 'array'"""

    def __init__(self, k, name="", **kw):
        self.k, self.name = k, name
        self.__dict__.update(kw)


OBJ = Type("object")


class Func:
    def __init__(self, node, args, body, itp, ret=OBJ):
        self.name, self.args, self.body, self.itp, self.ret = node, args, body, itp, ret
        self.checked = True

    def __call__(self, *a, **k):
        return self.itp.call(self, a, k)


class Extern:
    def __init__(self, name, params, catches, itp):
        self.name, self.params, self.catches, self.itp = name, params, catches, itp

    def __call__(self, *a):
        return self.itp.on_call(self, a)


class Interp:
    def __init__(self, path, on_call):
        from Cython.Compiler.TreeFragment import parse_from_strings
        with open(path) as f:
            src = f.read()
        self.tree = parse_from_strings("bridge", src)
        self.on_call = on_call
        self.structs, self.typedefs, self.externs = {}, {}, {}
        self.used = set()
        self.frames = []
        self.checks = []
        self.lines = 0
        np_ = NP()
        self.globals = {"np": np_, "numpy": np_, "True": True, "False": False, "len": self.length, "isinstance": isinstance, "getattr": self.getattr_, "setattr": setattr, "hasattr": self.hasattr_,
                        "tuple": tuple, "list": list, "range": self.range_, "int": self.int_, "bool": lambda x=False: x if isinstance(x, bool) else B(zb(x)) if isinstance(x, (I, B, R)) else bool(x), "zip": zip,
                        "enumerate": enumerate, "all": self.all_, "any": self.any_, "max": self.max_, "min": self.min_, "print": lambda *a, **k: None, "float": self.float_, "str": str, "repr": repr,
                        "slice": slice, "type": type, "dict": dict, "set": set, "abs": abs}
        for e in BUILTIN_EXC:
            self.globals[e] = ExcType(e)
        self.top(self.tree.body)

    # builtins
    def length(self, x):
        if is_array(x):
            if not x.shape:
                raise PyExc("TypeError", "len() of unsized object")
            return x.shape[0]
        return len(x)

    def getattr_(self, x, n, *d):
        try:
            return self.attr(x, n)
        except PyExc:
            if d:
                return d[0]
            raise

    def hasattr_(self, x, n):
        try:
            self.attr(x, n)
            return True
        except PyExc:
            return False

    def range_(self, *a):
        if any(isinstance(x, I) for x in a):
            raise Unsupported("loop over a symbolic range")
        return range(*a)

    def int_(self, x=0):
        if isinstance(x, I):
            return x
        if isinstance(x, B):
            return I(zi(x))
        if isinstance(x, R):
            raise Unsupported("int() of a real number")
        return int(x)

    def float_(self, x=0.0):
        return x if isinstance(x, R) else R(z3.ToReal(zi(x))) if isinstance(x, (I, B)) else float(x)

    def all_(self, x):
        return all(bool(q) for q in x)

    def any_(self, x):
        return any(bool(q) for q in x)

    def max_(self, *a):
        a = list(a[0]) if len(a) == 1 else a
        r = a[0]
        for x in a[1:]:
            r = x if bool(x > r) else r
        return r

    def min_(self, *a):
        a = list(a[0]) if len(a) == 1 else a
        r = a[0]
        for x in a[1:]:
            r = x if bool(x < r) else r
        return r

    # -------------------------------------------------------------- declarations
    def top(self, body):
        for s in getattr(body, "stats", [body]):
            n = type(s).__name__
            if n == "StatListNode":
                self.top(s)
            elif n == "CDefExternNode":
                self.extern(s)
            elif n in ("CImportStatNode", "FromCImportStatNode", "CStructOrUnionDefNode", "CTypeDefNode"):
                if n == "CStructOrUnionDefNode":
                    self.struct(s)
                elif n == "CTypeDefNode":
                    d = s.declarator
                    t = self.base_type(s.base_type)
                    while type(d).__name__ == "CPtrDeclaratorNode":
                        t, d = Type("ptr", t.name + "*"), d.base
                    self.typedefs[d.name] = t
            elif n == "DefNode":
                self.globals[s.name] = Func(s.name, [self.arg(a) for a in s.args], s.body, self)
                self.globals[s.name].checked = self.bounds_checked(s)
                if s.star_arg or s.starstar_arg:
                    raise Unsupported("variable arguments")
            elif n == "CFuncDefNode":
                d = s.declarator
                while type(d).__name__ == "CPtrDeclaratorNode":
                    d = d.base
                self.globals[d.base.name] = Func(d.base.name, [self.arg(a) for a in d.args], s.body, self, self.base_type(s.base_type))
                self.globals[d.base.name].checked = self.bounds_checked(s)
            elif n == "SingleAssignmentNode" and type(s.rhs).__name__ == "ImportNode":
                m = s.rhs.module_name.value
                if m not in ("numpy", "cython"):
                    self.globals[s.lhs.name] = None
            elif n == "FromImportStatNode":
                pass
            else:
                self.frames = [({}, {})]
                self.stat(s)
                self.globals.update(self.frames[0][0])
                self.frames = []

    def bounds_checked(self, s):
        """whether out of range indices raise in a function (the boundscheck directive)"""
        out = getattr(self.tree, "directive_comments", {}).get("boundscheck", True)
        for d in getattr(s, "decorators", None) or []:
            c = d.decorator
            if type(c).__name__ == "SimpleCallNode" and (self.dotted(c.function) or "").split(".")[-1] == "boundscheck":
                out = bool(c.args[0].value)
        return out

    def extern(self, node):
        for s in getattr(node.body, "stats", [node.body]):
            n = type(s).__name__
            if n == "CStructOrUnionDefNode":
                self.struct(s)
            elif n == "CVarDefNode":
                for d in s.declarators:
                    if type(d).__name__ == "CFuncDeclaratorNode":
                        catches = bool(d.exception_check == "+" or getattr(d, "exception_value", None) is not None)
                        self.externs[d.base.name] = Extern(d.base.name, [self.arg(a)[1] for a in d.args], catches, self)
                        self.globals[d.base.name] = self.externs[d.base.name]
            elif n == "CTypeDefNode":
                self.typedefs[s.declarator.name] = self.base_type(s.base_type)
            elif n != "PassStatNode":
                raise Unsupported(f"extern {n}")

    def struct(self, s):
        f = {}
        for a in s.attributes:
            for d in a.declarators:
                t = self.base_type(a.base_type)
                while type(d).__name__ == "CPtrDeclaratorNode":
                    t, d = Type("ptr", t.name), d.base
                f[d.name] = t
        self.structs[s.name] = f

    def cname(self, b):
        n = b.name
        if getattr(b, "module_path", None):
            n = ".".join(b.module_path) + "." + n
        if getattr(b, "is_basic_c_type", False):
            if not b.signed and n in ("int", "long", "short", "char"):
                n = "unsigned " + n
            if b.longness and n == "int":
                n = "long"
        return n

    def base_type(self, b):
        n = type(b).__name__
        if n == "CComplexBaseTypeNode":
            t, d = self.base_type(b.base_type), b.declarator
            while type(d).__name__ == "CPtrDeclaratorNode":
                t, d = Type("ptr", t.name), d.base
            return t
        if n == "CSimpleBaseTypeNode":
            c = self.cname(b)
            if b.name is None or b.is_basic_c_type is False and c in ("object",):
                return OBJ
            if c in self.typedefs:
                return self.typedefs[c]
            if c in self.structs:
                return Type("struct", c)
            if c in ("bool", "bint", "np.npy_bool"):
                return Type("bool", c)
            if c in C_INTS or (c in DT and np.dtype(DT[c]).kind in "iu"):
                return Type("int", c)
            if c in ("double", "float", "np.double_t", "np.float64_t"):
                return Type("double", c)
            if c in ("np.ndarray", "ndarray"):
                return Type("array", c, dtype=None, ndim=None, mode=None)
            if c in ("void", "char"):
                return Type(c, c)
            if c in ("list", "tuple", "dict", "str", "object"):
                return OBJ
            if getattr(b, "is_self_arg", False) or not b.is_basic_c_type and c and not b.module_path:
                return OBJ            # an untyped argument: the name of the argument itself
            raise Unsupported(f"C type {c}")
        if n == "TemplatedTypeNode":
            base = self.cname(b.base_type_node)
            if base.split(".")[-1] != "ndarray":
                raise Unsupported(f"C type {base}")
            el = b.positional_args[0]
            el = self.cname(el) if hasattr(el, "name") and type(el).__name__ != "NameNode" else self.dotted(el)
            kw = {}
            if b.keyword_args is not None:
                for q in b.keyword_args.key_value_pairs:
                    kw[str(q.key.value)] = q.value.value
            if el not in DT:
                raise Unsupported(f"element type {el}")
            return Type("array", base, dtype=np.dtype(DT[el]), ndim=int(kw.get("ndim", 1)), mode=str(kw.get("mode", "strided")))
        if n == "MemoryViewSliceTypeNode":
            raise Unsupported("typed memory views")
        raise Unsupported(f"type node {n}")

    def dotted(self, e):
        n = type(e).__name__
        if n == "NameNode":
            return e.name
        if n == "AttributeNode":
            return self.dotted(e.obj) + "." + e.attribute
        if n == "CComplexBaseTypeNode":
            return self.cname(e.base_type)
        raise Unsupported("element type")

    def arg(self, a):
        d = a.declarator
        if type(a.base_type).__name__ == "CSimpleBaseTypeNode" and not getattr(d, "name", None) and type(d).__name__ == "CNameDeclaratorNode":
            c = self.cname(a.base_type)     # extern declarations may leave the name out; untyped arguments have only a name
            known = a.base_type.is_basic_c_type or c in self.structs or c in self.typedefs or c in ("bool", "bint")
            return (a.base_type.name, self.base_type(a.base_type) if known else OBJ, a.default)
        t = self.base_type(a.base_type)
        while type(d).__name__ == "CPtrDeclaratorNode":
            t, d = Type("ptr", t.name), d.base
        return d.name, t, a.default

    # -------------------------------------------------------------- values
    def coerce(self, v, t):
        if t.k == "object":
            return v
        if t.k == "array":
            if v is None:
                return v
            if not isinstance(v, A):
                raise PyExc("TypeError", "expected an array")
            if t.dtype is None:
                return v
            if v.ndim != t.ndim:
                raise PyExc("ValueError", "Buffer has wrong number of dimensions")
            if v.dtype != t.dtype:
                raise PyExc("ValueError", "Buffer dtype mismatch")
            if t.mode == "c" and not v.contig:
                raise PyExc("ValueError", "ndarray is not C-contiguous")
            return v
        if t.k == "bool":
            if isinstance(v, bool):
                return v
            if isinstance(v, (B, I, R)):
                return B(zb(v))
            if isinstance(v, A):
                raise Unsupported("truth value of an array")
            return bool(v)
        if t.k == "int":
            if isinstance(v, (I, bool, int, np.integer)):
                return int(v) if isinstance(v, bool) else v
            if isinstance(v, B):
                return I(zi(v))
            if isinstance(v, (R, float)):
                raise PyExc("TypeError", "an integer is required")
            if v is None or isinstance(v, A):
                raise PyExc("TypeError", "an integer is required")
            raise Unsupported(f"{type(v).__name__} as a C integer")
        if t.k == "double":
            if isinstance(v, (R, float)):
                return v
            if isinstance(v, (I, B)):
                return R(z3.ToReal(zi(v)))
            if isinstance(v, (int, np.number)):
                return float(v)
            raise PyExc("TypeError", "must be real number")
        if t.k == "ptr":
            if isinstance(v, (Ptr, Ref)):
                return v
            raise Unsupported("not a pointer")
        if t.k == "struct":
            if isinstance(v, Struct):
                s = Struct(v.name, v.types)
                s.fields = dict(v.fields)
                return s
            raise Unsupported("not a struct")
        if t.k == "void":
            return None
        raise Unsupported(f"C type {t.k}")

    def call(self, f, a, k):
        self.used.add(f.name)
        env, ty = {}, {}
        names = [x[0] for x in f.args]
        if len(a) > len(names):
            raise PyExc("TypeError", "too many arguments")
        given = dict(zip(names, a))
        for n, v in k.items():
            if n not in names or n in given:
                raise PyExc("TypeError", f"argument {n}")
            given[n] = v
        for n, t, d in f.args:
            if n in given:
                v = given[n]
            elif d is not None:
                v = self.ev(d)
            else:
                raise PyExc("TypeError", f"missing argument {n}")
            env[n] = v if t.k == "struct" and isinstance(v, Struct) and False else self.coerce(v, t)
            ty[n] = t
        self.frames.append((env, ty))
        self.checks.append(f.checked)
        try:
            self.stat(f.body)
            return None
        except _Return as r:
            return self.coerce(r.v, f.ret) if f.ret.k != "object" else r.v
        finally:
            self.frames.pop()
            self.checks.pop()

    def assign(self, lhs, v):
        n = type(lhs).__name__
        env, ty = self.frames[-1]
        if n == "NameNode":
            t = ty.get(lhs.name, OBJ)
            v = self.coerce(v, t)
            if t.k == "struct" and isinstance(env.get(lhs.name), Struct):
                env[lhs.name].fields = v.fields
                return
            env[lhs.name] = v
        elif n == "AttributeNode":
            o = self.ev(lhs.obj)
            if isinstance(o, Ref):
                o = o.x
            if isinstance(o, Struct):
                if lhs.attribute not in o.types:
                    raise Unsupported(f"struct field {lhs.attribute}")
                o.fields[lhs.attribute] = self.coerce(v, o.types[lhs.attribute])
            elif o is None:
                raise PyExc("AttributeError", "None")
            else:
                setattr(o, lhs.attribute, v)
        elif n in ("IndexNode", "SliceIndexNode"):
            o = self.ev(lhs.base)
            if o is None:
                raise PyExc("TypeError", "None is not subscriptable")
            o[self.index(lhs)] = v
        elif n in ("TupleNode", "ListNode"):
            v = list(v)
            if len(v) != len(lhs.args):
                raise PyExc("ValueError", "values to unpack")
            for q, x in zip(lhs.args, v):
                self.assign(q, x)
        else:
            raise Unsupported(f"assignment to {n}")

    def stat(self, s):
        n = type(s).__name__
        self.lines += 1
        f = getattr(self, "s_" + n, None)
        if f is None:
            raise Unsupported(f"Cython statement {n}")
        f(s)

    def s_StatListNode(self, s):
        for q in s.stats:
            self.stat(q)

    def s_PassStatNode(self, s):
        pass

    def s_DefNode(self, s):
        raise Unsupported("nested function")

    def s_CVarDefNode(self, s):
        env, ty = self.frames[-1]
        for d in s.declarators:
            t = self.base_type(s.base_type)
            while type(d).__name__ == "CPtrDeclaratorNode":
                t, d = Type("ptr", t.name), d.base
            if type(d).__name__ != "CNameDeclaratorNode":
                raise Unsupported("C array variable")
            ty[d.name] = t
            if t.k == "struct":
                env[d.name] = Struct(t.name, self.structs[t.name])
            elif t.k in ("array", "object"):
                env.setdefault(d.name, None)
            if d.default is not None:
                env[d.name] = self.coerce(self.ev(d.default), t)

    def s_SingleAssignmentNode(self, s):
        self.assign(s.lhs, self.ev(s.rhs))

    def s_CascadedAssignmentNode(self, s):
        v = self.ev(s.rhs)
        for q in s.lhs_list:
            self.assign(q, v)

    def s_InPlaceAssignmentNode(self, s):
        a, b = self.ev(s.lhs), self.ev(s.rhs)
        op = s.operator
        if isinstance(a, A) and op == "+":
            a += b
            self.assign(s.lhs, a)
            return
        self.assign(s.lhs, self.binop(op, a, b))

    def s_ExprStatNode(self, s):
        self.ev(s.expr)

    def s_IfStatNode(self, s):
        for c in s.if_clauses:
            if self.truth(self.ev(c.condition)):
                self.stat(c.body)
                return
        if s.else_clause is not None:
            self.stat(s.else_clause)

    def s_AssertStatNode(self, s):
        if not self.truth(self.ev(s.condition)):
            raise PyExc("AssertionError")

    def s_RaiseStatNode(self, s):
        e = self.ev(s.exc_type) if s.exc_type is not None else None
        if isinstance(e, (ExcValue, ExcType)):
            raise PyExc(e.name)
        raise Unsupported("raise")

    def s_ReturnStatNode(self, s):
        raise _Return(self.ev(s.value) if s.value is not None else None)

    def s_ForInStatNode(self, s):
        for x in self.ev(s.iterator.sequence):
            self.assign(s.target, x)
            try:
                self.stat(s.body)
            except _Break:
                return
            except _Continue:
                pass
        if s.else_clause is not None:
            self.stat(s.else_clause)

    def s_WhileStatNode(self, s):
        k = 0
        while self.truth(self.ev(s.condition)):
            k += 1
            if k > 500:
                raise Unsupported("long loop")
            try:
                self.stat(s.body)
            except _Break:
                return
            except _Continue:
                pass

    def s_BreakStatNode(self, s):
        raise _Break()

    def s_ContinueStatNode(self, s):
        raise _Continue()

    def s_GILStatNode(self, s):
        self.stat(s.body)

    def s_TryFinallyStatNode(self, s):
        try:
            self.stat(s.body)
        finally:
            self.stat(s.finally_clause)

    def truth(self, v):
        if isinstance(v, (Ptr, Ref)):
            return isinstance(v, Ref) or v.a is not None
        if isinstance(v, (Struct, ExcType)):
            return True
        return bool(v)

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        n = type(e).__name__
        f = getattr(self, "e_" + n, None)
        if f is None:
            raise Unsupported(f"Cython expression {n}")
        return f(e)

    def e_NameNode(self, e):
        env, ty = self.frames[-1] if self.frames else ({}, {})
        if e.name in env:
            return env[e.name]
        if e.name in ty:
            raise Crash(f"{e.name} is used before it is given a value")
        if e.name in self.globals:
            return self.globals[e.name]
        raise PyExc("NameError", e.name)

    def e_NoneNode(self, e): return None
    def e_NullNode(self, e): return NULL
    def e_BoolNode(self, e): return bool(e.value)
    def e_IntNode(self, e): return int(str(e.value), 0)
    def e_FloatNode(self, e): return float(e.value)
    def e_EllipsisNode(self, e): return Ellipsis

    def e_StringNode(self, e): return str(e.value)
    e_IdentifierStringNode = e_UnicodeNode = e_BytesNode = e_StringNode

    def e_JoinedStrNode(self, e): return "text"
    def e_TupleNode(self, e): return tuple(self.ev(a) for a in e.args)
    def e_ListNode(self, e): return [self.ev(a) for a in e.args]
    def e_DictNode(self, e): return {self.ev(p.key): self.ev(p.value) for p in e.key_value_pairs}

    def attr(self, o, name, typed=False):
        if isinstance(o, Ref):
            o = o.x
        if isinstance(o, Struct):
            if name not in o.types:
                raise Unsupported(f"struct field {name}")
            if name not in o.fields:
                raise Crash(f"struct field {name} is read before it is set")
            return o.fields[name]
        if o is None:
            if typed:
                raise Crash(f"attribute {name} of an array that is None")
            raise PyExc("AttributeError", f"None has no attribute {name}")
        try:
            return getattr(o, name)
        except AttributeError:
            raise PyExc("AttributeError", name)

    def e_AttributeNode(self, e):
        typed = False
        if type(e.obj).__name__ == "NameNode" and self.frames:
            typed = self.frames[-1][1].get(e.obj.name, OBJ).k == "array"
        return self.attr(self.ev(e.obj), e.attribute, typed)

    def index(self, e):
        if type(e).__name__ == "SliceIndexNode":
            g = lambda q: None if q is None or type(q).__name__ == "NoneNode" else self.ev(q)
            return slice(g(e.start), g(e.stop))
        return self.ev(e.index)

    def e_SliceNode(self, e):
        g = lambda q: None if q is None or type(q).__name__ == "NoneNode" else self.ev(q)
        return slice(g(e.start), g(e.stop), g(e.step))

    def e_SliceIndexNode(self, e):
        return self.ev(e.base)[self.index(e)]

    def e_IndexNode(self, e):
        b, i = self.ev(e.base), self.ev(e.index)
        if isinstance(b, (tuple, list)):
            if isinstance(i, int):
                if not -len(b) <= i < len(b):
                    typed = type(e.base).__name__ == "AttributeNode" and type(e.base.obj).__name__ == "NameNode" and self.frames[-1][1].get(e.base.obj.name, OBJ).k == "array"
                    if typed or isinstance(b, tuple) and self.checks and not self.checks[-1]:
                        raise Crash("extent that the array does not have")
                    raise PyExc("IndexError", "tuple index out of range")
                return b[i]
            return b[i]
        if b is None:
            raise PyExc("TypeError", "None is not subscriptable")
        if isinstance(b, dict):
            if i not in b:
                raise PyExc("KeyError")
            return b[i]
        return b[i]

    def e_TypecastNode(self, e):
        v = self.ev(e.operand)
        t = self.base_type(e.base_type) if e.base_type is not None else OBJ
        d = e.declarator
        while type(d).__name__ == "CPtrDeclaratorNode":
            t, d = Type("ptr", t.name), d.base
        if t.k == "ptr":
            if isinstance(v, Ptr):
                return v.cast(t.name)
            if isinstance(v, Ref):
                return v
            raise Unsupported("cast to a pointer")
        if t.k in ("bool", "int", "double"):
            if t.k == "int" and isinstance(v, R):
                raise Unsupported("cast of a real number")
            return self.coerce(v, t)
        if t.k in ("array", "object"):
            return v
        raise Unsupported("cast")

    def e_AmpersandNode(self, e):
        o = e.operand
        if type(o).__name__ == "IndexNode":
            b = self.ev(o.base)
            i = self.ev(o.index)
            i = i if isinstance(i, tuple) else (i,)
            if isinstance(b, A) and all(isinstance(x, int) and x == 0 for x in i):
                return Ptr(b, {np.dtype(np.float64): "double", np.dtype(np.uint32): "unsigned int", np.dtype(np.uint8): "unsigned char", np.dtype(bool): "bool", np.dtype(np.int32): "int"}.get(b.dtype, "?"))
            if b is None:
                raise Crash("element of an array that is None")
            raise Unsupported("address of an element")
        v = self.ev(o)
        if isinstance(v, Struct):
            return Ref(v)
        raise Unsupported("address of a variable")

    def e_DereferenceNode(self, e):
        v = self.ev(e.operand)
        return v.x if isinstance(v, Ref) else self.bad("dereference")

    def bad(self, what):
        raise Unsupported(what)

    def e_SimpleCallNode(self, e):
        f = self.ev(e.function)
        return self.invoke(f, [self.ev(a) for a in e.args], {})

    def e_GeneralCallNode(self, e):
        f = self.ev(e.function)
        a = list(self.ev(e.positional_args))
        k = self.ev(e.keyword_args) if e.keyword_args is not None else {}
        return self.invoke(f, a, k)

    def invoke(self, f, a, k):
        if f is None:
            raise PyExc("TypeError", "None is not callable")
        if isinstance(f, Extern):
            a = [self.coerce(x, t) if not (t.k == "struct" and isinstance(x, Ref)) else x for x, t in zip(a, f.params)] if len(a) == len(f.params) else self.bad("number of arguments of a C++ function")
        try:
            return f(*a, **k)
        except AttributeError as x:
            raise PyExc("AttributeError", str(x))

    def e_PrimaryCmpNode(self, e):
        a = self.ev(e.operand1)
        b = self.ev(e.operand2)
        r = self.cmp(e.operator, a, b)
        c = e.cascade
        while c is not None:
            if not self.truth(r):
                return r
            a, b = b, self.ev(c.operand2)
            r = self.cmp(c.operator, a, b)
            c = c.cascade
        return r

    def cmp(self, op, a, b):
        if op in ("is", "is_not"):
            r = a is b or (isinstance(a, Ptr) and isinstance(b, Ptr) and a.a is b.a)
            return r if op == "is" else not r
        if op in ("in", "not_in"):
            r = any(x is a or bool(x == a) for x in b)
            return r if op == "in" else not r
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            r = isinstance(a, Ptr) and isinstance(b, Ptr) and a.a is b.a
            return r if op == "==" else not r
        if (isinstance(a, tuple) or isinstance(b, tuple)) and op in ("==", "!="):
            if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
                return op == "!="
            r = B(z3.And([zi(x) == zi(y) for x, y in zip(a, b)])) if all(isinstance(x, (I, int)) for x in a + b) else self.bad("comparison of tuples")
            return r if op == "==" else ~r
        import operator
        f = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op]
        try:
            return f(a, b)
        except TypeError as x:
            if "not supported between" in str(x):
                raise PyExc("TypeError", str(x))
            raise

    def e_NotNode(self, e):
        v = self.ev(e.operand)
        return ~v if isinstance(v, B) else not self.truth(v)

    def e_BoolBinopNode(self, e):
        a = self.ev(e.operand1)
        if e.operator == "and":
            return self.ev(e.operand2) if self.truth(a) else a
        return a if self.truth(a) else self.ev(e.operand2)

    def binop(self, op, a, b):
        import operator
        f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "&": operator.and_, "|": operator.or_, "^": operator.xor, "%": operator.mod, "//": operator.floordiv, "/": operator.truediv}.get(op)
        if f is None:
            raise Unsupported(f"operator {op}")
        if isinstance(a, str):
            return "text"
        if any(isinstance(x, (I, R)) for x in (a, b)) and op in ("%", "//", "/"):
            raise Unsupported("division")
        return f(a, b)

    def e_AddNode(self, e): return self.binop(e.operator, self.ev(e.operand1), self.ev(e.operand2))
    e_SubNode = e_MulNode = e_IntBinopNode = e_DivNode = e_ModNode = e_AddNode

    def e_UnaryMinusNode(self, e): return -self.ev(e.operand)

    def e_TildeNode(self, e): return ~self.ev(e.operand)

    def e_CondExprNode(self, e):
        return self.ev(e.true_val) if self.truth(self.ev(e.test)) else self.ev(e.false_val)

    def live(self):
        """arrays held by the variables of the running functions"""
        out = []

        def walk(v, d=0):
            if isinstance(v, A):
                out.append(v)
            elif isinstance(v, (list, tuple)) and d < 4:
                for q in v:
                    walk(q, d + 1)
            elif isinstance(v, dict) and d < 4:
                for q in v.values():
                    walk(q, d + 1)
            elif isinstance(v, types.SimpleNamespace) and d < 4:
                for q in vars(v).values():
                    walk(q, d + 1)
        for env, _ in self.frames:
            for v in env.values():
                walk(v)
        return out
