"""Symbolic exact reals for path-wise symbolic execution.

Values that occur in the program under analysis are
  * Python int / Fraction              concrete exact reals
  * float inf / nan                    the IEEE specials
  * Num                                rational function over the symbolic inputs (+ optional tangents)
  * SInt                               +-floor(x)+c for a Num x (symbolic machine integer)
Comparisons are decided per path: Ctx.decide() follows the witness (a rational point satisfying the
path condition) and records the literal; the explorer later asks the SMT solver for every sibling.

A polynomial is a dict {monomial:int -> coefficient}; a monomial packs one 8-bit exponent per variable
(7 bits + guard bit), so that multiplying monomials is integer addition and integer order is a
monomial order.
"""
import dis
import sys
from fractions import Fraction
import math

TEXT = None     # when set: called with (value, format specification), returns the text that stands for the value
FB = 8  # bits per variable
INF = float("inf")


class Cut(Exception):
    """The path leaves the modelled fragment (recorded, never silently ignored)."""


class Event(Exception):
    """abnormal behaviour of the program under analysis (memory error, exception, non termination)"""


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------------------- variables
class VarTable:
    def __init__(self):
        self.reset()

    def reset(self):
        self.names = []
        self.sq = {}        # var index -> Poly p such that var**2 == p (var >= 0)
        self.sqmask = 0     # bits meaning exponent>=2 of a sqrt variable
        self.guard = 0
        self.z3 = []
        self.factors = []   # fid -> Poly (primitive)
        self.fkey = {}
        self.z3cache = {}
        self.sqkey = {}
        self.divcache = {}

    def new(self, name):
        i = len(self.names)
        self.names.append(name)
        self.guard |= 1 << (FB * i + FB - 1)
        self.z3.append(None)
        return i


VT = VarTable()


def reset():
    VT.reset()


def poly_const(c):
    return {0: c} if c else {}


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = _norm(v)
            else:
                del r[m]
    return r


def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = -c
        else:
            v = v - c
            if v:
                r[m] = _norm(v)
            else:
                del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: _norm(c * k) for m, c in a.items()}


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if m == 0:
            return pscale(b, c)
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            v = get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    r = {m: _norm(c) for m, c in r.items() if c}
    if VT.sqmask:
        r = preduce(r)
    return r


def preduce(a):
    """rewrite s**2 -> p for the square-root variables"""
    mask = VT.sqmask
    while True:
        bad = [m for m in a if m & mask]
        if not bad:
            return a
        r = {m: c for m, c in a.items() if not (m & mask)}
        for m in bad:
            c = a[m]
            for i, p in VT.sq.items():
                e = (m >> (FB * i)) & 0x7F
                if e >= 2:
                    rest = m - ((e - e % 2) << (FB * i))
                    q = {rest: c}
                    for _ in range(e // 2):
                        q = _pmul_raw(q, p)
                    r = padd(r, q)
                    break
        a = r


def _pmul_raw(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            v = r.get(m, 0) + c1 * c2
            r[m] = _norm(v)
    return {m: c for m, c in r.items() if c}


def pdiv_exact(a, f):
    """a / f if exact, else None"""
    if not a:
        return {}
    g = VT.guard
    lf = max(f)
    cf = f[lf]
    mf = min(f)
    # quick tests on leading and trailing monomials
    la, ma = max(a), min(a)
    if la < lf or ma < mf:
        return None
    if ((la | g) - lf) & g != g or ((ma | g) - mf) & g != g:
        return None
    if len(f) == 1:
        q = {}
        for m, c in a.items():
            if ((m | g) - lf) & g != g or m < lf:
                return None
            q[m - lf] = _norm(Fraction(c) / cf) if cf not in (1, -1) else (c if cf == 1 else -c)
        return q
    if len(a) > 4000:
        return None
    r = dict(a)
    q = {}
    while r:
        m = max(r)
        if m < lf or ((m | g) - lf) & g != g:
            return None
        d = m - lf
        c = r[m]
        k = c if cf == 1 else (-c if cf == -1 else _norm(Fraction(c) / cf))
        q[d] = k
        for m2, c2 in f.items():
            mm = m2 + d
            v = r.get(mm, 0) - k * c2
            if v:
                r[mm] = _norm(v)
            else:
                r.pop(mm, None)
    return q


def primitive(p):
    """(content, primitive part) with integer coprime coefficients and positive leading coefficient"""
    den = 1
    gcd = math.gcd
    for c in p.values():
        if type(c) is Fraction:
            d = c._denominator
            den = den * d // gcd(den, d)
    num = 0
    if den == 1:
        for c in p.values():
            num = gcd(num, int(c))
        q = p
    else:
        q = {}
        for m, c in p.items():
            v = c._numerator * (den // c._denominator) if type(c) is Fraction else c * den
            q[m] = v
            num = gcd(num, v)
    if q[max(q)] < 0:
        num = -num
    if num == 1 and den == 1:
        return 1, p
    if num != 1:
        q = {m: int(c) // num for m, c in q.items()}
    return (num if den == 1 else _norm(Fraction(num, den))), q


def factor_id(p):
    key = frozenset(p.items())
    f = VT.fkey.get(key)
    if f is None:
        f = len(VT.factors)
        VT.factors.append(p)
        VT.fkey[key] = f
    return f


def is_const(p):
    return not p or (len(p) == 1 and 0 in p)


def peval(p, val, mono_cache=None):
    s = 0
    for m, c in p.items():
        if m == 0:
            s += c
            continue
        v = None if mono_cache is None else mono_cache.get(m)
        if v is None:
            v = 1
            mm = m
            i = 0
            while mm:
                e = mm & 0xFF
                if e:
                    v = v * val[i] ** e
                mm >>= 8
                i += 1
            if mono_cache is not None:
                mono_cache[m] = v
        s += c * v
    return s


def pvars(p):
    allm = 0
    for m in p:
        allm |= m
    i = 0
    out = []
    while allm:
        if allm & 0xFF:
            out.append(i)
        allm >>= 8
        i += 1
    return out


def pstr(p):
    if not p:
        return "0"
    out = []
    for m in sorted(p, reverse=True):
        c = p[m]
        t = []
        mm = m
        i = 0
        while mm:
            e = mm & 0xFF
            if e:
                t.append(VT.names[i] + (f"^{e}" if e > 1 else ""))
            mm >>= 8
            i += 1
        out.append("*".join(([str(c)] if c != 1 or not t else []) + t))
    return " + ".join(out)


# ---------------------------------------------------------------------------- rational functions
# value = num / prod(factor**power); den is a tuple ((fid, power), ...) sorted

def _cancel(num, den):
    if not den or not num:
        return num, () if not num else den
    out = []
    changed = False
    for f, k in den:
        fp = VT.factors[f]
        while k:
            q = pdiv_exact(num, fp)
            if q is None:
                break
            num = q
            k -= 1
            changed = True
        if k:
            out.append((f, k))
    if changed:
        return num, tuple(out)
    return num, den


def _merge(da, db):
    """lcm of denominators and the two cofactors as lists of (fid,power)"""
    if da == db:
        return da, (), ()
    A = dict(da)
    B = dict(db)
    L = dict(A)
    for f, k in B.items():
        if L.get(f, 0) < k:
            L[f] = k
    ca = [(f, k - A.get(f, 0)) for f, k in L.items() if k > A.get(f, 0)]
    cb = [(f, k - B.get(f, 0)) for f, k in L.items() if k > B.get(f, 0)]
    return tuple(sorted(L.items())), ca, cb


def _mulf(p, fs):
    for f, k in fs:
        for _ in range(k):
            p = pmul(p, VT.factors[f])
    return p


def rf_add(a, b):
    (na, da), (nb, db) = a, b
    if not na:
        return b
    if not nb:
        return a
    if da == db:
        n = padd(na, nb)
        return _cancel(n, da) if da else (n, da)
    L, ca, cb = _merge(da, db)
    return _cancel(padd(_mulf(na, ca), _mulf(nb, cb)), L)


def rf_mul(a, b):
    (na, da), (nb, db) = a, b
    if not na or not nb:
        return {}, ()
    n = pmul(na, nb)
    if not da and not db:
        return n, ()
    D = dict(da)
    for f, k in db:
        D[f] = D.get(f, 0) + k
    return _cancel(n, tuple(sorted(D.items())))


def rf_neg(a):
    return pneg(a[0]), a[1]


def rf_inv(a):
    """1/a ; the caller has established a != 0"""
    n, d = a
    num = {0: 1}
    # rationalise square roots
    guard = 0
    while VT.sq and guard < 8:
        guard += 1
        sv = [i for i in pvars(n) if i in VT.sq]
        if not sv:
            break
        i = sv[-1]
        bit = 1 << (FB * i)
        A = {m: c for m, c in n.items() if not (m >> (FB * i)) & 0xFF}
        B = {m - bit: c for m, c in n.items() if (m >> (FB * i)) & 0xFF}
        conj = psub(A, pmul(B, {bit: 1})) if A else pmul(B, {bit: -1})
        n = pmul(n, conj)
        num = pmul(num, conj)
    num = _mulf(num, d)
    if is_const(n):
        return pscale(num, _norm(Fraction(1) / n[0])), ()
    # split n into known factors
    den = {}
    c, p = primitive(n)
    g = VT.guard
    low = min(p)
    # monomial content
    common = None
    for m in p:
        if common is None:
            common = m
        else:
            # componentwise min
            r = 0
            i = 0
            a1, a2 = common, m
            while a1 and a2:
                r |= min(a1 & 0xFF, a2 & 0xFF) << (8 * i)
                a1 >>= 8
                a2 >>= 8
                i += 1
            common = r
        if not common:
            break
    if common:
        p = {m - common: v for m, v in p.items()}
        i = 0
        mm = common
        while mm:
            e = mm & 0xFF
            if e:
                f = factor_id({1 << (FB * i): 1})
                den[f] = den.get(f, 0) + e
            mm >>= 8
            i += 1
    if not is_const(p):
        f = VT.fkey.get(frozenset(p.items()))
        if f is None:
            for k in range(len(VT.factors)):
                while True:
                    q = pdiv_exact(p, VT.factors[k])
                    if q is None:
                        break
                    den[k] = den.get(k, 0) + 1
                    p = q
                    if is_const(p):
                        break
                if is_const(p):
                    break
            if not is_const(p):
                cc, p = primitive(p)
                c = c * cc
                f = factor_id(p)
                den[f] = den.get(f, 0) + 1
            else:
                c = c * p[0]
        else:
            den[f] = den.get(f, 0) + 1
    else:
        c = c * p[0]
    num = pscale(num, _norm(Fraction(1) / c))
    return _cancel(num, tuple(sorted(den.items())))


RF0 = ({}, ())
RF1 = ({0: 1}, ())


# ---------------------------------------------------------------------------- path context
class Ctx:
    """One path of the program under analysis."""

    cur = None

    def __init__(self, witness, bound=0, stop=None):
        self.witness = witness          # list var -> Fraction (sqrt variables are appended on creation)
        self.bound = bound
        self.lits = []                  # (poly, rel) with rel in '<','<=','=','>','>=','!='
        self.known = {}                 # poly key -> set of possible signs
        self.mono = {}
        self.cuts = []
        self.notes = {}
        self.pre = []                   # literals asserted as preconditions (no siblings)
        self.stop = stop

    # sign of p at the witness
    def wsign(self, p):
        try:
            v = peval(p, self.witness, self.mono)
        except OverflowError:
            v = INF
        if type(v) is float and not 1e-9 <= abs(v) < 1e300:
            return self.exact_sign(p)
        return (v > 0) - (v < 0)

    def exact_sign(self, p):
        import decimal
        with decimal.localcontext() as c:
            c.prec = 120
            w = []
            for i, x in enumerate(self.witness):
                if i in VT.sq:
                    q = VT.sq[i]
                    w.append(peval(q, w).sqrt() if isinstance(peval(q, w), decimal.Decimal) else decimal.Decimal(peval(q, w)).sqrt())
                else:
                    f = Fraction(x)
                    w.append(decimal.Decimal(f.numerator) / decimal.Decimal(f.denominator))
            s = decimal.Decimal(0)
            for m, cf in p.items():
                v = decimal.Decimal(1)
                mm, i = m, 0
                while mm:
                    e = mm & 0xFF
                    if e:
                        v *= w[i] ** e
                    mm >>= 8
                    i += 1
                cf = Fraction(cf)
                s += v * decimal.Decimal(cf.numerator) / decimal.Decimal(cf.denominator)
            if abs(s) < decimal.Decimal(10) ** -80:
                return 0
            return 1 if s > 0 else -1

    def decide(self, p, rel):
        """truth of (p rel 0) on this path; rel in '<','<=','=' """
        if is_const(p):
            c = p.get(0, 0)
            return c < 0 if rel == "<" else c <= 0 if rel == "<=" else c == 0
        k, q = primitive(p)
        if k < 0:  # flip
            if rel == "<":
                return self._dec(q, (1,))
            if rel == "<=":
                return self._dec(q, (1, 0))
            return self._dec(q, (0,))
        if rel == "<":
            return self._dec(q, (-1,))
        if rel == "<=":
            return self._dec(q, (-1, 0))
        return self._dec(q, (0,))

    def _dec(self, q, yes):
        key = frozenset(q.items())
        poss = self.known.get(key)
        if poss is None:
            poss = (-1, 0, 1)
        y = tuple(s for s in poss if s in yes)
        n = tuple(s for s in poss if s not in yes)
        if not n:
            return True
        if not y:
            return False
        s = self.wsign(q)
        if s in y:
            self.known[key] = y
            self.lits.append((q, y))
            return True
        if s in n:
            self.known[key] = n
            self.lits.append((q, n))
            return False
        raise Cut("witness inconsistent with path")

    def sign_fork(self, p):
        """sign of p, forking three ways"""
        if is_const(p):
            c = p.get(0, 0)
            return (c > 0) - (c < 0)
        if self.decide(p, "<"):
            return -1
        if self.decide(p, "="):
            return 0
        return 1

    def assume(self, cond):
        if not cond:
            raise Cut("assumption")


def ctx():
    return Ctx.cur


# sign of the denominator (its factors were sign-forked when introduced)
def den_sign(den):
    s = 1
    for f, k in den:
        if k & 1:
            if Ctx.cur.decide(VT.factors[f], "<"):
                s = -s
    return s


# ---------------------------------------------------------------------------- Num
def lift(x):
    """python number -> RF"""
    if type(x) is int:
        return ({0: x} if x else {}), ()
    if type(x) is Fraction:
        return ({0: _norm(x)} if x else {}), ()
    if type(x) is bool:
        return ({0: 1} if x else {}), ()
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            raise Unsupported("special")
        f = Fraction(x)
        return ({0: _norm(f)} if f else {}), ()
    import numpy as np
    if isinstance(x, np.floating):
        return lift(float(x))
    if isinstance(x, (np.integer, np.bool_)):
        return lift(int(x))
    raise Unsupported(f"cannot lift {type(x)}")


def _is_special(x):
    return isinstance(x, float) and (x != x or x in (INF, -INF))


def tadd(ta, tb):
    if not ta:
        return tb
    if not tb:
        return ta
    r = dict(ta)
    for i, v in tb.items():
        w = r.get(i)
        if w is None:
            r[i] = v
        else:
            w = rf_add(w, v)
            if w[0]:
                r[i] = w
            else:
                del r[i]
    return r


def tscale(t, v):
    if not t or not v[0]:
        return None
    return {i: rf_mul(w, v) for i, w in t.items()}


KEEP = False        # keep constants as Num (exact arithmetic with Python floats in the executed Python code)


class Num:
    __slots__ = ("v", "t")
    __hash__ = None

    def __init__(self, v, t=None):
        self.v = v
        self.t = t

    # -- helpers
    @staticmethod
    def var(name, val=None):
        i = VT.new(name)
        return Num(({1 << (FB * i): 1}, ()))

    def simp(self):
        if KEEP:
            return self
        if not self.t and is_const(self.v[0]) and not self.v[1]:
            return self.v[0].get(0, 0)
        return self

    def low(self):
        """plain number when constant, whatever KEEP says"""
        if not self.t and is_const(self.v[0]) and not self.v[1]:
            return self.v[0].get(0, 0)
        return self

    def is_const(self):
        return is_const(self.v[0]) and not self.v[1]

    def __str__(self):
        return TEXT(self, "") if TEXT is not None else repr(self)

    def __repr__(self):
        d = "".join(f"/({pstr(VT.factors[f])})" + (f"^{k}" if k > 1 else "") for f, k in self.v[1])
        return f"<{pstr(self.v[0])}{d}{' +tan' if self.t else ''}>"

    # -- arithmetic
    def __add__(self, o):
        if type(o) is Num:
            return Num(rf_add(self.v, o.v), tadd(self.t, o.t)).simp()
        if type(o) is int:
            if o == 0:
                return self
            if not self.v[1]:
                return Num((padd(self.v[0], {0: o}), ()), self.t).simp()
            return Num(rf_add(self.v, ({0: o}, ())), self.t).simp()
        if _arr(o):
            return NotImplemented
        if _is_special(o):
            return o
        return Num(rf_add(self.v, lift(o)), self.t).simp()

    __radd__ = __add__

    def __neg__(self):
        return Num(rf_neg(self.v), {i: rf_neg(w) for i, w in self.t.items()} if self.t else None)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if _arr(o):
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if _arr(o):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if type(o) is Num:
            t = None
            if self.t or o.t:
                t = tadd(tscale(self.t, o.v), tscale(o.t, self.v))
            return Num(rf_mul(self.v, o.v), t).simp()
        if _arr(o):
            return NotImplemented
        if _is_special(o):
            if o != o:
                return o
            s = self.sign()
            return o * s if s else float("nan")
        k = o if type(o) is int else lift(o)[0].get(0, 0)
        if k == 0:
            return 0
        if k == 1:
            return self
        t = self.t
        if t:
            t = {i: (pscale(w[0], k), w[1]) for i, w in t.items()}
        return Num((pscale(self.v[0], k), self.v[1]), t)

    __rmul__ = __mul__

    def sign(self):
        c = Ctx.cur
        return c.sign_fork(self.v[0]) * den_sign(self.v[1])

    def inv(self):
        s = Ctx.cur.sign_fork(self.v[0])
        if s == 0:
            Ctx.cur.cuts.append("division by zero")
            raise Cut("division by zero")
        iv = rf_inv(self.v)
        # establish the sign of every new factor
        for f, k in iv[1]:
            if Ctx.cur.sign_fork(VT.factors[f]) == 0:
                raise Cut("division by zero")
        t = None
        if self.t:
            m = rf_neg(rf_mul(iv, iv))
            t = {i: rf_mul(w, m) for i, w in self.t.items()}
        return Num(iv, t).simp()

    def __truediv__(self, o):
        if _arr(o):
            return NotImplemented
        if type(o) is Num:
            return self * o.inv()
        if _is_special(o):
            return 0 if o == o else o
        k = o if type(o) is int else lift(o)[0].get(0, 0)
        if k == 0:
            Ctx.cur.cuts.append("division by zero")
            raise Cut("division by zero")
        return self * _norm(Fraction(1) / k)

    def __rtruediv__(self, o):
        if _arr(o):
            return NotImplemented
        return self.inv() * o

    def __pow__(self, n):
        if isinstance(n, float) and n == 0.5:
            return self.sqrt()
        n = int(n)
        if n < 0:
            return self.inv() ** (-n)
        r = 1
        b = self
        for _ in range(n):
            r = b * r
        return r

    def sqrt(self):
        v = self.v
        s = Ctx.cur.sign_fork(v[0]) if not v[1] else None
        # x = N/D  -> sqrt(N*D)/D
        num, den = v
        rest = {0: 1}
        out = []
        for f, k in den:
            if k & 1:
                num = pmul(num, VT.factors[f])
                k += 1
            out.append((f, k // 2))
        outden = tuple(out)
        s = Ctx.cur.sign_fork(num)
        if s < 0:
            Ctx.cur.cuts.append("sqrt of a negative")
            raise Cut("sqrt of a negative number")
        if s == 0:
            if self.t:
                raise Cut("sqrt not differentiable at zero")
            return 0
        # |D| in the denominator
        root = poly_sqrt(num)
        if root is None:
            c, p = primitive(num)
            if c < 0:
                c, p = -c, pneg(p)
            # pull square content out of c
            cf = Fraction(c)
            a, b = isqrt_split(cf)
            key = (frozenset(p.items()), b)
            i = VT.sqkey.get(key)
            q = pscale(p, b)
            if i is None:
                i = VT.new(f"sqrt{len(VT.sq)}")
                VT.sqkey[key] = i
                VT.sq[i] = q
                VT.sqmask |= 0x7E << (FB * i)
            c = Ctx.cur
            while len(c.witness) <= i:
                c.witness.append(None)
            if c.witness[i] is None:
                wv = peval(q, c.witness)
                c.witness[i] = _fsqrt(wv)
            sv = {1 << (FB * i): 1}
            c.known[frozenset(sv.items())] = (1,)
            r = pscale(sv, a)
        else:
            r = root
            sg = Ctx.cur.sign_fork(r)
            if sg < 0:
                r = pneg(r)
        iv = (r, outden)
        if outden and den_sign(outden) < 0:
            iv = rf_neg(iv)
        iv = _cancel(*iv)
        t = None
        if self.t:
            m = rf_inv((pscale(iv[0], 2), iv[1]))
            t = {i: rf_mul(w, m) for i, w in self.t.items()}
        return Num(iv, t).simp()

    # numpy calls these methods on object arrays
    def conjugate(self):
        return self

    def floor(self):
        return SInt(self, 1, 0).as_real()

    def fabs(self):
        return abs(self)

    def tan(self):
        raise Unsupported("tan of a symbolic value")

    def __abs__(self):
        return -self if self < 0 else self

    def __float__(self):
        if TEXT is None and _formatting():
            return float(_approx(self))
        raise Unsupported("float() of a symbolic value")

    def __format__(self, spec):
        if TEXT is not None:
            return TEXT(self, spec)
        return format(float(_approx(self)), spec) if spec else repr(self)

    def __bool__(self):
        return self != 0

    # -- comparisons
    def _cmp(self, o, rel):
        """self rel o"""
        if type(o) is Num:
            d = rf_add(self.v, rf_neg(o.v))
        elif isinstance(o, SInt):
            return o._cmpreal(self, rel)
        elif _is_special(o):
            if o != o:
                return False
            if rel in ("<", "<="):
                return o > 0
            if rel in (">", ">="):
                return o < 0
            return False
        else:
            d = rf_add(self.v, rf_neg(lift(o)))
        n, den = d
        if rel == "=":
            return Ctx.cur.decide(n, "=")
        s = den_sign(den)
        if s < 0:
            n = pneg(n)
        if rel == "<":
            return Ctx.cur.decide(n, "<")
        if rel == "<=":
            return Ctx.cur.decide(n, "<=")
        if rel == ">":
            return not Ctx.cur.decide(n, "<=")
        return not Ctx.cur.decide(n, "<")

    def __lt__(self, o):
        return NotImplemented if _arr(o) else self._cmp(o, "<")

    def __le__(self, o):
        return NotImplemented if _arr(o) else self._cmp(o, "<=")

    def __gt__(self, o):
        return NotImplemented if _arr(o) else self._cmp(o, ">")

    def __ge__(self, o):
        return NotImplemented if _arr(o) else self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None:
            return False
        return NotImplemented if _arr(o) else self._cmp(o, "=")

    def __ne__(self, o):
        if o is None:
            return True
        return NotImplemented if _arr(o) else not self._cmp(o, "=")


def _arr(o):
    return type(o).__name__ in ("ndarray", "SymArray", "IntArray", "STensor", "Tensor")


def _fsqrt(wv):
    """square root of the witness value: exact when possible, float otherwise"""
    if isinstance(wv, (int, Fraction)):
        f = Fraction(wv)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return Fraction(a, b)
    try:
        return math.sqrt(wv)
    except OverflowError:
        return INF


def isqrt_split(f):
    """f = a^2*b with a,b rational, b squarefree-ish integer"""
    n = f.numerator * f.denominator   # f = n / d^2
    d = f.denominator
    a = 1
    k = 2
    while k * k <= n and k < 2000:
        while n % (k * k) == 0:
            n //= k * k
            a *= k
        k += 1
    r = math.isqrt(n)
    if r * r == n:
        a, n = a * r, 1
    return _norm(Fraction(a, d)), n


def poly_sqrt(p):
    """q with q*q == p or None"""
    if not p:
        return {}
    if is_const(p):
        f = Fraction(p[0])
        a, b = isqrt_split(f)
        return {0: a} if b == 1 else None
    lm = max(p)
    mm, i, root = lm, 0, 0
    while mm:
        e = mm & 0xFF
        if e & 1:
            return None
        root |= (e // 2) << (8 * i)
        mm >>= 8
        i += 1
    a, b = isqrt_split(Fraction(p[lm]))
    if b != 1:
        return None
    q = {root: a}
    # Newton-like: subtract and divide by 2*lead
    r = psub(p, pmul(q, q))
    g = VT.guard
    n = 0
    while r:
        m = max(r)
        if m < root or ((m | g) - root) & g != g or n > 60:
            return None
        n += 1
        t = {m - root: _norm(Fraction(r[m]) / (2 * a))}
        if max(t) in q:
            return None
        q = padd(q, t)
        r = psub(p, pmul(q, q))
    return q


# ---------------------------------------------------------------------------- symbolic integers
class SInt:
    """s*floor(x)+c with x a Num, s in {1,-1}"""
    __slots__ = ("x", "s", "c")
    __hash__ = None

    def __init__(self, x, s, c):
        self.x, self.s, self.c = x, s, c

    def __repr__(self):
        return f"SInt({self.s}*floor({self.x})+{self.c})"

    def as_real(self):
        return self

    def __add__(self, o):
        if type(o) is int:
            return SInt(self.x, self.s, self.c + o)
        return self.conc() + o

    __radd__ = __add__

    def __neg__(self):
        return SInt(self.x, -self.s, -self.c)

    def __sub__(self, o):
        if type(o) is int:
            return SInt(self.x, self.s, self.c - o)
        if type(o) is SInt and o.s == self.s and (o.x is self.x):
            return self.c - o.c
        return self.conc() - o

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) is int and o in (1, -1, 0):
            return self if o == 1 else -self if o == -1 else 0
        return self.conc() * o

    __rmul__ = __mul__

    def wval(self):
        n, den = self.x.v
        c = Ctx.cur
        v = peval(n, c.witness, c.mono)
        for f, k in den:
            v = Fraction(v) / peval(VT.factors[f], c.witness, c.mono) ** k if not isinstance(v, float) else v / float(peval(VT.factors[f], c.witness, c.mono)) ** k
        return self.s * math.floor(v) + self.c

    def conc(self):
        """fork on the value"""
        w = self.wval()
        for cand in (w, w + 1, w - 1):
            if self >= cand and self <= cand:
                return cand
        raise Cut("concretisation")

    def __index__(self):
        return self.conc()

    __int__ = __index__

    def conjugate(self):
        return self

    def _cmpint(self, k, rel):
        # s*floor(x)+c rel k
        k = k - self.c
        if self.s < 0:
            k = -k
            rel = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "=": "="}[rel]
        if rel == "<":
            return self.x < k
        if rel == "<=":
            return self.x < k + 1
        if rel == ">":
            return self.x >= k + 1
        if rel == ">=":
            return self.x >= k
        return (self.x >= k) and (self.x < k + 1)

    def _cmp(self, o, rel):
        if type(o) is int or type(o) is bool:
            return self._cmpint(int(o), rel)
        if type(o) is SInt:
            if o.x is self.x and o.s == self.s:
                return {"<": self.c < o.c, "<=": self.c <= o.c, ">": self.c > o.c, ">=": self.c >= o.c, "=": self.c == o.c}[rel]
            a, b = self.wval(), o.wval()
            if rel == "=":
                v = a
                return self._cmpint(v, "=") and o._cmpint(v, "=") if a == b else not (self._cmpint(v, "=") and not o._cmpint(v, "="))
            if rel in (">", ">="):
                return o._cmp(self, {">": "<", ">=": "<="}[rel])
            # rel in < <= : separate by an integer
            true = a < b if rel == "<" else a <= b
            if true:
                v = _sep(a, b if rel == "<=" else b - 1, self, o)
                if self._cmpint(v, "<=") and o._cmpint(v, ">=" if rel == "<=" else ">"):
                    return True
                raise Cut("separator")
            v = _sep(b, a if rel == "<" else a - 1, o, self)
            if o._cmpint(v, "<=") and self._cmpint(v, ">=" if rel == "<" else ">"):
                return False
            raise Cut("separator")
        if isinstance(o, (Fraction, float, Num)):
            return self._cmpreal(o, {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "=": "="}[rel])
        raise Unsupported(f"SInt cmp {type(o)}")

    def _cmpreal(self, r, rel):
        """r rel self"""
        if isinstance(r, float) and r in (INF, -INF):
            return (r < 0) if rel in ("<", "<=") else (r > 0) if rel in (">", ">=") else False
        v = self.conc()
        if rel == "<":
            return r < v
        if rel == "<=":
            return r <= v
        if rel == ">":
            return r > v
        if rel == ">=":
            return r >= v
        return r == v

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "=")

    def __ne__(self, o):
        return not self._cmp(o, "=")


def _sep(lo, hi, a, b):
    """an integer v in [lo,hi]; the smaller magnitude end keeps the enumeration finite in practice"""
    pref = [k for k in Ctx.cur.notes.get("sep", ()) if lo <= k <= hi]
    if pref:
        return pref[0]
    if lo <= 0 <= hi:
        return 0
    return lo if abs(lo) < abs(hi) else hi


# ---------------------------------------------------------------------------- helpers for the IR runtime
IEEE = False     # divisions by zero and square roots of negatives give inf / NaN instead of ending the path (C13)
_MAX = 2 ** 1024 - 2 ** 970
_TINY = Fraction(1, 2 ** 1075)
OVERFLOW = False  # results beyond the range of a double become infinite or zero (C13)


def in_range(r):
    """r as a double of unbounded precision but bounded exponent"""
    if type(r) is Num or isinstance(r, (int, Fraction)):
        if r == 0:
            return 0
        if r > 0:
            return INF if r >= _MAX else 0 if r <= _TINY else r
        return -INF if r <= -_MAX else 0 if r >= -_TINY else r
    return r


def fdiv(a, b):
    ta, tb = type(a), type(b)
    if IEEE and tb is Num:
        if b.sign() == 0:
            return fdiv(a, 0)
    elif IEEE and ta is Num and tb is not float and b == 0:
        s = a.sign()
        return s * INF if s else float("nan")
    if tb is Num or ta is Num:
        if tb is Num:
            if _is_special(a):
                if a != a:
                    return a
                s = b.sign()
                if s == 0:
                    raise Cut("inf/0")
                return a * s
            return b.inv() * a
        return a / b
    if ta is float or tb is float:
        a, b = float(a), float(b)
        if b == 0:
            return float("nan") if a == 0 or a != a else math.copysign(INF, a) * math.copysign(1, b)
        try:
            return a / b
        except OverflowError:
            return INF
    if b == 0:
        if a == 0:
            return float("nan")
        return INF if a > 0 else -INF
    return _norm(Fraction(a) / b)


def fmul(a, b):
    ta, tb = type(a), type(b)
    if ta is float or tb is float:
        if ta is Num:
            return a * b
        if tb is Num:
            return b * a
        return float(a) * float(b)
    r = a * b
    return r


def fsqrt(a):
    if isinstance(a, Num):
        if IEEE and a < 0:
            return float("nan")
        return a.sqrt()
    if isinstance(a, float):
        return math.sqrt(a) if a >= 0 else float("nan")
    f = Fraction(a)
    if f < 0:
        return float("nan")
    x, y = isqrt_split(f)
    if y == 1:
        return x
    # irrational constant: introduce a square-root variable
    return Num(({0: _norm(f)}, ())).sqrt() if f else 0


def ffloor(a):
    if isinstance(a, Num):
        return SInt(a, 1, 0)
    if isinstance(a, float):
        return a
    return math.floor(a)


def fceil(a):
    if isinstance(a, Num):
        return SInt(-a, -1, 0)
    if isinstance(a, float):
        return a
    return math.ceil(a)


def fabs(a):
    return abs(a)


def _formatting():
    """float() called by "..." % values: text only, the value does not flow anywhere else"""
    f = sys._getframe(2)
    try:
        for i in dis.get_instructions(f.f_code):
            if i.offset == f.f_lasti:
                return i.opname == "BINARY_OP" and i.argrepr in ("%", "%=")
    except Exception:
        pass
    return False


def _approx(x):
    try:
        c = current()
        return value_at(Num(x.v), c.witness)
    except Exception:
        return float("nan")


def value_at(x, witness):
    """numeric value of a symbolic value at a rational point (floats when square roots occur)"""
    if isinstance(x, Num):
        n, den = x.v
        w = list(witness)
        for i in sorted(VT.sq):
            while len(w) <= i:
                w.append(None)
            w[i] = _fsqrt(peval(VT.sq[i], w))
        v = peval(n, w)
        for f, k in den:
            d = peval(VT.factors[f], w)
            v = v / d ** k if isinstance(v, float) or isinstance(d, float) else Fraction(v) / Fraction(d) ** k
        return v
    return x
