"""Symbolic execution of deodr.pytorch: a torch tensor subclass whose entries are sym.Num.  PyTorch's own autograd runs (graph, views, formulas); every
elementary operation that reaches the dispatcher is executed on object arrays.  Tensors made from symbolic numpy arrays (torch.tensor, as_tensor) are
of that class; everything else is plain torch."""
import math
from fractions import Fraction as F

import numpy as np
import torch

import pysym
import sym
from pysym import SymArray, isobj, issym
from sym import Num, Unsupported

aten = torch.ops.aten
TABLE = {}


def op(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


class STensor(torch.Tensor):
    @staticmethod
    def __new__(cls, o, requires_grad=False):
        o = np.asarray(o, dtype=object)
        t = torch.Tensor._make_wrapper_subclass(cls, o.shape, dtype=torch.float64, requires_grad=requires_grad)
        t._o = o
        return t

    def __init__(self, o, requires_grad=False):
        pass

    def numpy(self, force=False):
        if self.requires_grad and not force and torch.is_grad_enabled():
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return self._o.view(SymArray)

    def __array__(self, dtype=None, copy=None):
        return self.numpy()

    def __copy__(self):
        return self if not self.requires_grad else self.view_as(self)

    def __deepcopy__(self, memo):
        return STensor(self._o.copy(), self.requires_grad)

    def tolist(self):
        return self._o.tolist()

    def item(self):
        return self._o.reshape(-1)[0]

    def __float__(self):
        x = self.item()
        if isinstance(x, Num) and sym.TEXT is None and sym._formatting():
            return float(sym._approx(x))
        return float(x)

    def __bool__(self):
        return bool(self.item() != 0)

    def __repr__(self, **k):
        return f"STensor({self._o.shape})"

    def __format__(self, spec):
        return "STensor"

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        name = func.overloadpacket.__name__
        f = TABLE.get(name) or TABLE.get(name.rstrip("_")) if not name.startswith("_") else TABLE.get(name)
        if f is None:
            raise Unsupported(f"torch operation {func}")
        kwargs = {k: v for k, v in (kwargs or {}).items() if k not in ("dtype", "layout", "device", "pin_memory", "memory_format", "non_blocking")}
        a = [conv(x) for x in args]
        k = {n: conv(x) for n, x in kwargs.items()}
        r = f(*a, **k)
        inplace = name.endswith("_") and not name.endswith("__")
        if inplace:
            t = args[0]
            if not isinstance(t, STensor):
                raise Unsupported(f"in-place {func} on a plain tensor")
            t._o[...] = r
            return t
        if name in ("detach", "alias", "view", "_unsafe_view", "reshape") and isinstance(r, np.ndarray):
            return STensor(r)
        return wrap(r)


def conv(x):
    if isinstance(x, STensor):
        return x._o
    if isinstance(x, torch.Tensor):
        if x.layout != torch.strided:
            x = x.to_dense()
        n = x.detach().numpy()
        return n if n.dtype != np.float64 and n.dtype != np.float32 else np.asarray(pysym.obj(n))
    if isinstance(x, (list, tuple)):
        return type(x)(conv(q) for q in x)
    return x


def wrap(r):
    if isinstance(r, (list, tuple)):
        return type(r)(wrap(q) for q in r)
    if isinstance(r, Num):
        q = np.empty((), dtype=object)
        q[()] = r
        return STensor(q)
    if isinstance(r, np.ndarray):
        if np.ndarray.dtype.__get__(r) == object:
            return STensor(r.view(np.ndarray))
        return torch.from_numpy(np.ascontiguousarray(r)) if r.dtype == bool else torch.as_tensor(r)
    if isinstance(r, (F, int, float)):
        return wrap(pysym.N(r))
    raise Unsupported(f"result of type {type(r)}")


def ob(x):
    """result of a numpy operation as an object array (0-d results too)"""
    if isinstance(x, np.ndarray):
        return x
    q = np.empty((), dtype=object)
    q[()] = x
    return q


def num(x):
    return pysym.N(x) if isinstance(x, (int, float, F)) else x


def el(f, n=1):
    return lambda *a: ob(np.frompyfunc(f, n, 1)(*a))


@op("add")
def _add(a, b, alpha=1):
    return ob(a + (b if alpha == 1 else num(b) * num(alpha)))


@op("sub", "subtract")
def _sub(a, b, alpha=1):
    return ob(a - (b if alpha == 1 else num(b) * num(alpha)))


@op("rsub")
def _rsub(a, b, alpha=1):
    return ob(num(b) - a * num(alpha))


@op("mul", "multiply")
def _mul(a, b):
    if isinstance(a, np.ndarray) and a.dtype == bool:
        a, b = b, a
    if isinstance(b, np.ndarray) and b.dtype == bool:
        b = np.where(b, pysym.N(1), pysym.N(0))
    return ob(num(a) * num(b))


@op("div", "divide", "true_divide")
def _div(a, b, rounding_mode=None):
    if rounding_mode is not None:
        raise Unsupported("div with rounding")
    a, b = num(a), num(b)
    if isinstance(b, np.ndarray) and not isobj(b):
        b = pysym.obj(b)
    return ob(np.asarray(a, dtype=object) / np.asarray(b, dtype=object))


@op("reciprocal")
def _rec(a):
    return ob(pysym.N(1) / a)


@op("neg", "negative")
def _neg(a):
    return ob(-a)


@op("pow")
def _pow(a, e):
    if isinstance(e, (int, float)) and float(e).is_integer() and abs(e) <= 8:
        r = np.asarray(pysym.obj(np.ones(np.shape(a))))
        for _ in range(abs(int(e))):
            r = r * a
        return ob(r if e >= 0 else pysym.N(1) / r)
    if e == 0.5:
        return _sqrt(a)
    if e == -0.5:
        return ob(pysym.N(1) / _sqrt(a))
    raise Unsupported(f"pow {e}")


@op("square")
def _square(a):
    return ob(a * a)


@op("sqrt")
def _sqrt(a):
    return el(pysym._sqrt)(a)


@op("rsqrt")
def _rsqrt(a):
    return ob(pysym.N(1) / _sqrt(a))


@op("abs")
def _abs(a):
    return el(lambda x: x if x >= 0 else -x)(a)


@op("sign", "sgn")
def _sgn(a):
    return el(lambda x: pysym.N(1 if x > 0 else (-1 if x < 0 else 0)))(a)


@op("relu")
def _relu(a):
    return el(lambda x: x if x > 0 else pysym.N(0))(a)


@op("threshold_backward")
def _thb(g, x, t):
    return el(lambda p, q: p if q > t else pysym.N(0), 2)(g, x)


@op("clamp", "clip")
def _clamp(a, lo=None, hi=None, min=None, max=None):
    lo, hi = lo if lo is not None else min, hi if hi is not None else max

    def f(x, l, h):
        if l is not None and x < l:
            x = num(l)
        return num(h) if h is not None and x > h else x
    if isinstance(lo, np.ndarray) or isinstance(hi, np.ndarray):
        return ob(np.frompyfunc(f, 3, 1)(a, lo, hi))
    return el(lambda x: f(x, lo, hi))(a)


@op("clamp_min")
def _cmin(a, lo):
    return _clamp(a, lo)


@op("clamp_max")
def _cmax(a, hi):
    return _clamp(a, None, hi)


@op("maximum")
def _max2(a, b):
    return el(lambda p, q: p if p >= q else q, 2)(a, b)


@op("minimum")
def _min2(a, b):
    return el(lambda p, q: p if p <= q else q, 2)(a, b)


def _cmp(f):
    return lambda a, b: np.asarray(np.frompyfunc(f, 2, 1)(a, num(b))).astype(bool)


TABLE.update(gt=_cmp(lambda x, y: bool(x > y)), ge=_cmp(lambda x, y: bool(x >= y)), lt=_cmp(lambda x, y: bool(x < y)), le=_cmp(lambda x, y: bool(x <= y)),
             eq=_cmp(lambda x, y: bool(x == y)), ne=_cmp(lambda x, y: bool(x != y)))
TABLE["logical_and"] = lambda a, b: np.logical_and(a, b)
TABLE["logical_or"] = lambda a, b: np.logical_or(a, b)


@op("where")
def _where(c, a, b):
    c, a, b = np.broadcast_arrays(c, np.asarray(num(a), dtype=object), np.asarray(num(b), dtype=object))
    r = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        r[i] = a[i] if c[i] else b[i]
    return r


@op("masked_fill")
def _mfill(a, m, v):
    return _where(m, v if not isinstance(v, np.ndarray) else v, a)


def axes(dim, n):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return None
    return tuple(d % n for d in dim) if isinstance(dim, (list, tuple)) else dim % n


@op("sum")
def _sum(a, dim=None, keepdim=False):
    return ob(np.sum(a, axis=axes(dim, a.ndim), keepdims=keepdim)) if a.size else np.asarray(pysym.obj(np.zeros(np.sum(np.zeros(a.shape), axis=axes(dim, a.ndim), keepdims=keepdim).shape)))


@op("mean")
def _mean(a, dim=None, keepdim=False):
    ax = axes(dim, a.ndim)
    n = a.size if ax is None else int(np.prod([a.shape[d] for d in (ax if isinstance(ax, tuple) else (ax,))]))
    return ob(np.sum(a, axis=ax, keepdims=keepdim) / pysym.N(n))


@op("linalg_vector_norm", "norm")
def _norm(a, ord=2, dim=None, keepdim=False):
    if ord not in (2, None):
        raise Unsupported("norm")
    return el(pysym._sqrt)(_sum(a * a, dim, keepdim))


@op("linalg_cross", "cross")
def _cross(a, b, dim=-1):
    a, b = np.broadcast_arrays(a, b)
    if dim is None:
        dim = a.shape.index(3)
    a, b = np.moveaxis(a, dim, -1), np.moveaxis(b, dim, -1)
    r = np.stack([a[..., (k + 1) % 3] * b[..., (k + 2) % 3] - a[..., (k + 2) % 3] * b[..., (k + 1) % 3] for k in range(3)], axis=-1)
    return np.moveaxis(r, -1, dim)


@op("mm", "bmm", "matmul", "mv", "_sparse_mm")
def _mm(a, b):
    return ob(np.dot(np.asarray(a, dtype=object), np.asarray(b, dtype=object)))


@op("addmm")
def _addmm(c, a, b, beta=1, alpha=1):
    return ob(num(beta) * c + num(alpha) * np.dot(a, b))


@op("dot", "vdot")
def _dot(a, b):
    return ob(np.sum(a * b))


@op("t")
def _t(a):
    return a.T


@op("transpose")
def _tr(a, i, j):
    return np.swapaxes(a, i, j)


@op("permute")
def _perm(a, d):
    return np.transpose(a, d)


@op("view", "_unsafe_view", "reshape", "_reshape_alias")
def _view(a, s, *_):
    return a.reshape(s)


@op("flatten")
def _flat(a, s=0, e=-1):
    return a.reshape(-1)


@op("detach", "alias", "lift_fresh", "view_as")
def _alias(a, *_):
    return a


@op("clone", "contiguous", "_to_copy", "to", "lift_fresh_copy")
def _clone(a, *_, **k):
    return a.copy()


@op("copy")
def _copy(a, b, *_):
    return np.broadcast_to(b, a.shape)


@op("unsqueeze")
def _unsq(a, d):
    return np.expand_dims(a, d if d >= 0 else d + a.ndim + 1)


@op("squeeze")
def _sq(a, d=None):
    ax = axes(d, a.ndim)
    if ax is None:
        return np.squeeze(a)
    ax = ax if isinstance(ax, tuple) else (ax,)
    return np.squeeze(a, tuple(q for q in ax if a.shape[q] == 1))


@op("expand")
def _expand(a, s, implicit=False):
    s = list(s)
    k = len(s) - a.ndim
    s = [a.shape[i - k] if q == -1 else q for i, q in enumerate(s)]
    return np.broadcast_to(a, s)


@op("repeat")
def _repeat(a, r):
    return np.tile(a, r)


@op("select")
def _select(a, d, i):
    return ob(a[(slice(None),) * (d % a.ndim) + (i,)]) if a.ndim > 1 else ob0(a, i)


def ob0(a, i):
    return a[i:i + 1 if i != -1 else None].reshape(())


def _sl(a, d, s, e, st):
    return (slice(None),) * (d % a.ndim) + (slice(s, e, st),)


@op("slice")
def _slice(a, d=0, s=None, e=None, st=1):
    return a[_sl(a, d, s, e, st)]


@op("select_backward")
def _selb(g, shape, d, i):
    r = zeros(shape)
    r[(slice(None),) * (d % len(shape)) + (i,)] = g
    return r


@op("slice_backward")
def _slb(g, shape, d, s, e, st):
    r = zeros(shape)
    r[_sl(r, d, s, e, st)] = g
    return r


def zeros(shape):
    return np.asarray(pysym.obj(np.zeros(shape))) if np.prod(shape) else np.zeros(shape, dtype=object)


@op("cat")
def _cat(ts, d=0):
    ts = [t for t in ts if not (t.ndim == 1 and t.size == 0)]
    return np.concatenate([np.asarray(t, dtype=object) for t in ts], axis=d)


@op("stack")
def _stack(ts, d=0):
    return np.stack(ts, axis=d)


@op("unbind")
def _unbind(a, d=0):
    return [ob(q) if isinstance(q, np.ndarray) else ob(q) for q in np.moveaxis(a, d, 0)]


@op("split")
def _split(a, n, d=0):
    return np.split(a, range(n, a.shape[d], n), axis=d)


@op("split_with_sizes")
def _splits(a, sizes, d=0):
    return np.split(a, np.cumsum(sizes)[:-1], axis=d)


@op("index")
def _index(a, idx):
    return ob(a[tuple(slice(None) if i is None else i for i in idx)])


@op("index_put", "_index_put_impl", "_index_put_impl_", "_unsafe_index_put")
def _iput(a, idx, v, accumulate=False, unsafe=False):
    r = a.copy()
    k = tuple(slice(None) if i is None else i for i in idx)
    if accumulate:
        np.add.at(r, k, v)
    else:
        r[k] = v
    return r


@op("index_select")
def _isel(a, d, i):
    return np.take(a, i, axis=d)


@op("index_add")
def _iadd(a, d, i, v, alpha=1):
    r = a.copy()
    np.add.at(np.moveaxis(r, d, 0), i, np.moveaxis(v, d, 0))
    return r


@op("index_select_backward")
def _iselb(g, shape, d, i):
    return _iadd(zeros(shape), d, i, g)


@op("gather")
def _gather(a, d, i, sparse_grad=False):
    return np.take_along_axis(a, i, axis=d)


@op("flip")
def _flip(a, d):
    return np.flip(a, d)


@op("roll")
def _roll(a, s, d=()):
    return np.roll(a, s, axis=tuple(d) if len(d) else None)


@op("ones_like", "new_ones")
def _ones_like(a, *s):
    return np.asarray(pysym.obj(np.ones(s[0] if s else a.shape)))


@op("zeros_like", "new_zeros", "new_empty_strided", "new_empty", "empty_like")
def _zeros_like(a, *s):
    return zeros(tuple(s[0]) if s else a.shape)


@op("full_like", "fill")
def _full_like(a, v):
    r = zeros(a.shape)
    r[...] = num(v)
    return r


@op("zero")
def _zero(a):
    return zeros(a.shape)


@op("diagonal")
def _diag(a, o=0, i=0, j=1):
    return np.diagonal(a, o, i, j)


@op("is_same_size")
def _same(a, b):
    return a.shape == b.shape


# ---- constructors, as seen by the modules of deodr.pytorch -------------------------------------

def tensor(x, dtype=None, device=None, requires_grad=False, **k):
    if isinstance(x, STensor):
        r = STensor(x._o.copy())
    elif pysym.SYM and issym(x):
        r = STensor(np.array(pysym.obj(x), dtype=object))
    elif isinstance(x, (list, tuple)) and any(isinstance(q, STensor) for q in x):
        raise Unsupported("torch.tensor of tensors")
    else:
        return torch.tensor(x, dtype=dtype, requires_grad=requires_grad, **k)
    return r.requires_grad_() if requires_grad else r


def as_tensor(x, dtype=None, device=None):
    if isinstance(x, STensor):
        return x
    if pysym.SYM and issym(x):
        return STensor(np.asarray(x, dtype=object).view(np.ndarray))
    return torch.as_tensor(x, dtype=dtype)


class TorchProxy:
    def __init__(self):
        self._over = dict(tensor=tensor, as_tensor=as_tensor, asarray=as_tensor, from_numpy=as_tensor, DoubleTensor=as_tensor)

    def __getattr__(self, n):
        o = self.__dict__["_over"]
        if n in o:
            return o[n]
        v = getattr(torch, n)
        return v


proxy = TorchProxy()


def load():
    pysym.extra("pytorch")
    import sys
    for name, m in list(sys.modules.items()):
        if name.startswith("deodr.pytorch") and m is not None:
            for k, v in list(vars(m).items()):
                if v is torch:
                    setattr(m, k, proxy)
                if v is torch.DoubleTensor:
                    setattr(m, k, as_tensor)
    return sys.modules["deodr.pytorch"]


def _binary(name):
    old = getattr(torch.Tensor, name)

    def f(self, o):
        if isinstance(o, (Num, F)) or isinstance(o, np.ndarray) and o.ndim == 0 and isobj(o):
            o = wrap(ob(pysym.N(o if not isinstance(o, np.ndarray) else o.item())))
        return old(self, o)
    setattr(STensor, name, f)


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__gt__", "__ge__", "__lt__", "__le__", "__eq__", "__ne__"):
    _binary(_n)
STensor.__hash__ = torch.Tensor.__hash__
