"""Symbolic executor for the LLVM IR of the renderer.

The IR text that clang produces from /repo's current header is translated, function by function, to Python
source and executed on values of engine/sym.py: doubles are exact (symbolic) reals, integers are concrete or
SInt, memory is a set of bounds-checked objects.  Every branch on a symbolic condition goes through
Ctx.decide (see sym.py) and is explored by engine/paths.py.
"""
import re
import struct
import sys
from fractions import Fraction

import sym
from sym import Num, SInt, Cut, Unsupported, Event


class CxxThrow(Event):
    pass


class MemError(Event):
    """access outside an object (a violation of memory safety)"""


class UninitUse(Event):
    """use of an uninitialised value"""


class StepLimit(Event):
    pass


class UBEvent(Cut):
    """undefined behaviour other than a memory access (conversion out of range...)"""


# ------------------------------------------------------------------------------------------------ memory
class Obj:
    __slots__ = ("name", "size", "c", "zero", "freed", "kind", "ro", "reads", "writes")

    def __init__(self, name, size, kind="heap"):
        self.name, self.size, self.kind = name, size, kind
        self.c = {}
        self.zero = None       # list of (lo,hi) zero filled ranges
        self.freed = False

    def __repr__(self):
        return f"<{self.name}:{self.size}>"


class _Undef:
    def __repr__(self):
        return "undef"

    def _bad(self, *a):
        raise UninitUse("use of an uninitialised value")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __neg__ = __bool__ = __index__ = __int__ = __float__ = __abs__ = _bad
    __hash__ = None


UNDEF = _Undef()
NULL = (None, 0)


class Machine:
    """events of one execution"""
    def __init__(self):
        self.allocs = []
        self.steps = 0
        self.limit = 3_000_000
        self.track = None


M = Machine()


def _chk(p, size, what):
    o, f = p
    if o is None:
        raise MemError(f"null pointer {what}")
    if type(o) is not Obj:
        raise MemError(f"bad pointer {what}")
    if type(f) is not int:
        f = f.__index__()
    if f < 0 or f + size > o.size:
        raise MemError(f"{what} of {size} bytes at offset {f} of {o.name} ({o.size} bytes)")
    if o.freed:
        raise MemError(f"{what} of freed {o.name}")
    return o, f


def ld(p, size, kind):
    o, f = p
    try:
        c = o.c.get(f)
        if c is not None and c[1] == size and not o.freed and f >= 0 and f + size <= o.size:
            return c[0]
    except (AttributeError, TypeError):
        pass
    o, f = _chk(p, size, "read")
    c = o.c.get(f)
    if c is not None and c[1] == size:
        return c[0]
    return _ld_slow(o, f, size, kind)


def _ld_slow(o, f, size, kind):
    """kind: 'd','f','p','i'"""
    if o.zero:
        # zero filled and not overwritten
        if any(lo <= f and f + size <= hi for lo, hi in o.zero):
            over = [k for k, (v, s) in o.c.items() if k < f + size and k + s > f]
            if not over:
                return NULL if kind == "p" else 0
    b = bytearray(size)
    for i in range(size):
        v = _byte(o, f + i)
        if v is None:
            return UNDEF
        b[i] = v
    if kind == "i":
        return int.from_bytes(b, "little", signed=True)
    if kind == "d":
        return dconst(struct.unpack("<d", bytes(b))[0])
    if kind == "f":
        return dconst(struct.unpack("<f", bytes(b))[0])
    raise Unsupported("pointer reinterpretation")


def _byte(o, f):
    for k in range(f, f - 9, -1):
        c = o.c.get(k)
        if c is not None and k + c[1] > f:
            v, s = c
            if type(v) is int and not isinstance(v, bool):
                try:
                    return (v >> (8 * (f - k))) & 0xFF
                except ValueError:
                    return None
            if isinstance(v, bool):
                return int(v) if f == k else 0
            if isinstance(v, (Fraction, float)) or (type(v) is int):
                return struct.pack("<d", float(v))[f - k]
            raise Unsupported("byte access to a symbolic value")
    if o.zero and any(lo <= f < hi for lo, hi in o.zero):
        return 0
    return None


def st(p, v, size):
    o, f = p
    if type(o) is not Obj or type(f) is not int or f < 0 or f + size > o.size or o.freed:
        o, f = _chk(p, size, "write")
    c = o.c
    old = c.get(f)
    if old is None or old[1] != size:
        for k in range(f - 7, f + size):
            q = c.get(k)
            if q is not None and k != f and k + q[1] > f and k < f + size:
                _split(o, k, f, size)
    c[f] = (v, size)


def _split(o, k, f, size):
    v, s = o.c.pop(k)
    if k >= f and k + s <= f + size:
        return
    # partial overlap: break into bytes
    if type(v) is int or isinstance(v, bool):
        for i in range(s):
            if not (f <= k + i < f + size):
                b = (int(v) >> (8 * i)) & 0xFF
                o.c[k + i] = (b, 1)
        return
    raise Unsupported("partial overwrite of a symbolic value")


def memset(p, val, n):
    n = n.__index__()
    if n == 0:
        return
    o, f = _chk(p, n, "memset")
    for k in [k for k in o.c if f - 8 < k < f + n and k + o.c[k][1] > f]:
        if k >= f and k + o.c[k][1] <= f + n:
            del o.c[k]
        else:
            _split(o, k, f, n)
    if val == 0:
        o.zero = (o.zero or []) + [(f, f + n)]
    else:
        v = int(val) & 0xFF
        v = v - 256 if v > 127 else v
        for i in range(n):
            o.c[f + i] = (v, 1)


def memcpy(d, s, n):
    n = n.__index__()
    if n == 0:
        return
    so, sf = _chk(s, n, "memcpy read")
    do, df = _chk(d, n, "memcpy write")
    cells = []
    zer = []
    if so.zero:
        for lo, hi in so.zero:
            a, b = max(lo, sf), min(hi, sf + n)
            if a < b:
                zer.append((a, b))
    for k, (v, z) in so.c.items():
        if k >= sf and k + z <= sf + n:
            cells.append((k - sf, v, z))
        elif k < sf + n and k + z > sf:
            raise Unsupported("memcpy splits a cell")
    for k in [k for k in do.c if df - 8 < k < df + n and k + do.c[k][1] > df]:
        if k >= df and k + do.c[k][1] <= df + n:
            del do.c[k]
        else:
            _split(do, k, df, n)
    if do.zero:
        z2 = []
        for lo, hi in do.zero:
            if hi <= df or lo >= df + n:
                z2.append((lo, hi))
            else:
                if lo < df:
                    z2.append((lo, df))
                if hi > df + n:
                    z2.append((df + n, hi))
        do.zero = z2
    if zer:
        do.zero = (do.zero or []) + [(a - sf + df, b - sf + df) for a, b in zer]
    for k, v, z in cells:
        do.c[df + k] = (v, z)


def alloc(n, name="heap"):
    n = n.__index__()
    if n < 0 or n > 1 << 40:
        raise CxxThrow("bad_alloc")
    o = Obj(f"{name}#{len(M.allocs)}", n)
    M.allocs.append(o)
    return (o, 0)


def free(p):
    if p[0] is None:
        return
    if p[0].freed:
        raise MemError(f"double free of {p[0].name}")
    if p[1] != 0:
        raise MemError("free of an interior pointer")
    p[0].freed = True


# ------------------------------------------------------------------------------------------------ values
def dconst(x):
    if x != x or x in (sym.INF, -sym.INF):
        return x
    f = Fraction(x)
    return f.numerator if f.denominator == 1 else f


def wrap(v, bits):
    """two's complement wrap of a concrete int, range check of a symbolic one"""
    if type(v) is int:
        h = 1 << (bits - 1)
        return ((v + h) & ((h << 1) - 1)) - h
    if isinstance(v, bool):
        return int(v)
    if type(v) is SInt:
        h = 1 << (bits - 1)
        if v >= -h and v < h:
            return v
        return wrap(v.conc(), bits)
    if type(v) is tuple:
        return v
    if v is UNDEF:
        v._bad()
    raise Unsupported(f"wrap {type(v)}")


def uns(v, bits):
    v = v if type(v) is int else (int(v) if isinstance(v, bool) else v.__index__())
    return v & ((1 << bits) - 1)


def isub(a, b, bits):
    if type(a) is tuple or type(b) is tuple:
        if type(a) is tuple and type(b) is tuple:
            if a[0] is not b[0]:
                raise MemError("subtraction of pointers to different objects")
            return a[1] - b[1]
        if type(a) is tuple:
            return (a[0], a[1] - b)
        raise Unsupported("int - ptr")
    return wrap(a - b, bits)


def iadd(a, b, bits):
    if type(a) is tuple:
        return (a[0], a[1] + b)
    if type(b) is tuple:
        return (b[0], b[1] + a)
    return wrap(a + b, bits)


def sdiv(a, b):
    a, b = a.__index__(), b.__index__()
    if b == 0:
        raise UBEvent("integer division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def srem(a, b):
    a, b = a.__index__(), b.__index__()
    return a - b * sdiv(a, b)


def _pk(p):
    o, f = p
    return 0 if o is None else id(o), f


def peq(a, b):
    if type(a) is tuple and type(b) is tuple:
        return a[0] is b[0] and a[1] == b[1]
    if type(a) is tuple:
        return a[0] is None and b == a[1]
    return a == b


def pult(a, b):
    if type(a) is tuple:
        if a[0] is not b[0]:
            raise MemError("comparison of pointers to different objects")
        return a[1] < b[1]
    return uns(a, 64) < uns(b, 64)


def fptosi(x, bits):
    if isinstance(x, SInt):
        v = x
    elif isinstance(x, Num):
        # truncation toward zero
        v = sym.ffloor(x) if x >= 0 else sym.fceil(x)
    elif isinstance(x, float):
        M.ub = True
        raise UBEvent("conversion of inf/nan to an integer")
    elif x is UNDEF:
        x._bad()
    else:
        v = int(x)  # Fraction.__int__ truncates
    h = 1 << (bits - 1)
    if v >= -h and v < h:
        return v
    raise UBEvent(f"conversion to a {bits} bit integer out of range")


def sitofp(v):
    if type(v) is bool:
        return int(v)
    return v


def fadd(a, b):
    return a + b


def fsub(a, b):
    if a is b and type(a) is not float:
        return 0
    return a - b


def _pair(a, b):
    # mixed SInt / real arithmetic: fork on the integer
    if type(a) is SInt:
        a = a.conc()
    if type(b) is SInt:
        b = b.conc()
    return a, b


def ar_add0(a, b):
    if type(a) is SInt or type(b) is SInt:
        a, b = _pair(a, b)
    elif type(a) is float or type(b) is float:
        if type(a) is Num or type(b) is Num:
            return a if type(a) is float else b
        return float(a) + float(b)
    return a + b


def ar_sub0(a, b):
    if type(a) is SInt or type(b) is SInt:
        # x - floor(x) style expressions: exact for every integer value, fork on it
        a, b = _pair(a, b)
    elif type(a) is float or type(b) is float:
        if type(a) is Num or type(b) is Num:
            return a if type(a) is float else -b
        return float(a) - float(b)
    return a - b


def ar_mul0(a, b):
    if type(a) is SInt or type(b) is SInt:
        a, b = _pair(a, b)
    if type(a) is float or type(b) is float:
        return sym.fmul(a, b)
    return a * b


def ar_div0(a, b):
    if type(a) is SInt or type(b) is SInt:
        a, b = _pair(a, b)
    return sym.fdiv(a, b)


ar_add, ar_sub, ar_mul, ar_div = ar_add0, ar_sub0, ar_mul0, ar_div0


def set_mode(ieee=False, overflow=False):
    """ieee: division by zero and the like follow IEEE 754 instead of ending the path; overflow: so do results that no
    double can represent (values are exact otherwise)"""
    sym.IEEE = ieee
    g = globals()
    for op in ("add", "sub", "mul", "div"):
        f = g[f"ar_{op}0"]
        g["ar_" + op] = (lambda a, b, f=f: sym.in_range(f(a, b))) if overflow else f
    for P in list(_prog.values()):
        P.ns.update({k: g[k] for k in ("ar_add", "ar_sub", "ar_mul", "ar_div")})


def _fnum(a):
    return a


def isnanp(a):
    return type(a) is float and a != a


def libfloor(a):
    return sym.ffloor(a)


def fmin_(a, b):
    if isnanp(a):
        return b
    if isnanp(b):
        return a
    return a if a < b else b


def fmax_(a, b):
    if isnanp(a):
        return b
    if isnanp(b):
        return a
    return a if a > b else b


def libround(a):
    if isinstance(a, (Num, SInt)):
        if a >= 0:
            return sym.ffloor(a + Fraction(1, 2))
        return sym.fceil(a - Fraction(1, 2))
    if isinstance(a, float):
        return a
    import math
    return math.floor(a + Fraction(1, 2)) if a >= 0 else math.ceil(a - Fraction(1, 2))


def libtrunc(a):
    if isinstance(a, float):
        return a
    if isinstance(a, (Num,)):
        return sym.ffloor(a) if a >= 0 else sym.fceil(a)
    return int(a) if not isinstance(a, SInt) else a


def libpow(a, b):
    if isinstance(b, Num) or (type(b) is Fraction and b != Fraction(1, 2)):
        raise Unsupported("pow")
    if b == Fraction(1, 2):
        return sym.fsqrt(a)
    b = int(b)
    if isinstance(a, Num):
        return a ** b
    if b < 0:
        return sym.fdiv(1, a ** (-b))
    return a ** b


# ------------------------------------------------------------------------------------------------ parsing
TYRE = re.compile(r"")


class Types:
    def __init__(self):
        self.named = {}

    def size_align(self, t):
        t = t.strip()
        if t == "ptr":
            return 8, 8
        if t == "double":
            return 8, 8
        if t == "float":
            return 4, 4
        if re.fullmatch(r"i\d+", t):
            b = int(t[1:])
            s = 1 if b <= 8 else 2 if b <= 16 else 4 if b <= 32 else 8 if b <= 64 else 16
            return s, s
        if t.startswith("%"):
            return self.size_align(self.named[t])
        if t.startswith("["):
            n, e = self.arr(t)
            s, a = self.size_align(e)
            return n * s, a
        if t.startswith("{") or t.startswith("<{"):
            return self.struct(t)[0:2]
        raise Unsupported("type " + t)

    def arr(self, t):
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        return int(m.group(1)), m.group(2)

    def struct(self, t):
        if t.startswith("%"):
            t = self.named[t]
        packed = t.startswith("<{")
        body = t[2:-2] if packed else t[1:-1]
        off, al = 0, 1
        offs, tys = [], []
        for f in split_top(body):
            s, a = self.size_align(f)
            if packed:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            tys.append(f)
            off += s
            al = max(al, a)
        off = (off + al - 1) // al * al
        return off, al, offs, tys

    def size(self, t):
        s, a = self.size_align(t)
        return (s + a - 1) // a * a


def split_top(s, sep=","):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == sep and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def take_type(s):
    """split 'type rest'"""
    s = s.lstrip()
    if s[0] in "[{<":
        depth = 0
        for i, ch in enumerate(s):
            if ch in "[{<(":
                depth += 1
            elif ch in "]}>)":
                depth -= 1
                if depth == 0:
                    return s[: i + 1], s[i + 1:].lstrip()
    m = re.match(r'(%"[^"]*"|%[\w.$:]+|[\w]+)\s*', s)
    t = m.group(1)
    rest = s[m.end():]
    return t, rest


def kind_of(t):
    if t == "double":
        return "d"
    if t == "float":
        return "f"
    if t == "ptr":
        return "p"
    return "i"


ATTR = re.compile(r"\b(noundef|nonnull|signext|zeroext|noalias|nocapture|readonly|writeonly|immarg|returned|inreg|nofree|"
                  r"dead_on_unwind|writable|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|byval\([^)]*\)|sret\([^)]*\))\s*")


class Program:
    def __init__(self, path):
        self.text = open(path).read()
        self.types = Types()
        self.funcs = {}     # name -> list of lines
        self.globals = {}
        self.gobj = {}
        self.ns = {}
        self.used = set()
        self._parse()
        self.ns.update(globals())
        self.ns["P"] = self

    def _parse(self):
        cur = None
        for line in self.text.splitlines():
            if cur is not None:
                if line.startswith("}"):
                    cur = None
                else:
                    self.funcs[cur].append(line)
                continue
            if line.startswith("define "):
                m = re.search(r'@("[^"]*"|[\w.$]+)\(', line)
                cur = m.group(1)
                self.funcs[cur] = [line]
            elif line.startswith("%"):
                m = re.match(r'(%"[^"]*"|%[\w.$:]+) = type (.*)$', line)
                if m:
                    self.types.named[m.group(1)] = m.group(2)
            elif line.startswith("@"):
                m = re.match(r'@("[^"]*"|[\w.$]+) = (.*)$', line)
                self.globals[m.group(1)] = m.group(2)

    # -- globals
    def g(self, name):
        o = self.gobj.get(name)
        if o is None:
            o = self._mkglobal(name)
            self.gobj[name] = o
        return (o, 0)

    def _mkglobal(self, name):
        d = self.globals.get(name, "")
        m = re.search(r"\b(?:global|constant) (.*)$", d)
        o = Obj("@" + name, 1 << 20, "global")
        if not m or "external" in d.split("global")[0].split("constant")[0]:
            return o
        t, rest = take_type(m.group(1))
        try:
            o.size = self.types.size(t)
        except (Unsupported, KeyError):
            return o
        self._init(o, 0, t, split_top(rest)[0] if rest else "")
        return o

    def _init(self, o, off, t, v):
        if v.startswith("zeroinitializer"):
            o.zero = (o.zero or []) + [(off, off + self.types.size(t))]
        elif v.startswith('c"'):
            s = v[2:v.rindex('"')]
            b = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)
            for i, ch in enumerate(b):
                o.c[off + i] = (ord(ch) if ord(ch) < 128 else ord(ch) - 256, 1)
        elif t.startswith("["):
            n, e = self.types.arr(t)
            s = self.types.size(e)
            for i, x in enumerate(split_top(v[1:-1])):
                tt, xx = take_type(x)
                self._init(o, off + i * s, tt, xx)
        elif t.startswith("{") or t.startswith("%"):
            _, _, offs, tys = self.types.struct(t)
            for (x, f, ty) in zip(split_top(v[1:-1]), offs, tys):
                tt, xx = take_type(x)
                self._init(o, off + f, tt, xx)
        elif t == "ptr":
            pass
        else:
            o.c[off] = (self._const(t, v), self.types.size(t))

    def _const(self, t, v):
        if t in ("double", "float"):
            if v.startswith("0x"):
                return dconst(struct.unpack(">d", bytes.fromhex(v[2:].zfill(16)))[0])
            return dconst(float(v))
        if v == "true":
            return 1
        if v == "false":
            return 0
        return int(v)

    # -- compilation
    def __getattr__(self, name):
        raise AttributeError(name)

    def fn(self, name):
        f = self.ns.get("F_" + name)
        if f is None:
            self.compile(name)
            f = self.ns["F_" + name]
        return f

    def compile(self, name):
        todo = [name]
        while todo:
            n = todo.pop()
            if "F_" + n in self.ns:
                continue
            self.used.add(n)
            src, calls = FnCompiler(self, n).run()
            exec(compile(src, f"<ir:{n}>", "exec"), self.ns)
            for c in calls:
                if c in self.funcs and "F_" + c not in self.ns:
                    todo.append(c)


def pyid(v):
    return "v_" + re.sub(r"\W", "_", v.lstrip("%").strip('"'))


class FnCompiler:
    def __init__(self, prog, name):
        self.p = prog
        self.name = name
        self.lines = prog.funcs[name]
        self.T = prog.types
        self.calls = set()

    # operand of type t
    def op(self, t, v):
        v = v.strip()
        if v.startswith("%"):
            return pyid(v)
        if v.startswith("@"):
            return f"P.g({v[1:]!r})"
        if v in ("undef", "poison"):
            return "UNDEF"
        if v == "null":
            return "NULL"
        if v == "zeroinitializer":
            return "0"
        if t in ("double", "float"):
            c = self.p._const(t, v)
            if type(c) is Fraction:
                return f"Fraction({c.numerator},{c.denominator})"
            if type(c) is float:
                return "float('nan')" if c != c else "float('inf')" if c > 0 else "float('-inf')"
            return repr(c)
        if v == "true":
            return "1"
        if v == "false":
            return "0"
        if re.fullmatch(r"-?\d+", v):
            return v
        if v.startswith("getelementptr"):
            m = re.match(r"getelementptr (?:inbounds )?\((.*)\)$", v)
            return self.gep(split_top(m.group(1)))
        raise Unsupported(f"operand {t} {v}")

    def tv(self, s):
        s = ATTR.sub("", s.strip())
        t, rest = take_type(s)
        rest = ATTR.sub("", rest)
        return t, rest.strip()

    def tvop(self, s):
        t, v = self.tv(s)
        return self.op(t, v)

    def gep(self, parts):
        t = parts[0]
        base = self.tvop(parts[1])
        const = 0
        terms = []
        first = True
        cur = t
        for idx in parts[2:]:
            it, iv = self.tv(idx)
            o = self.op(it, iv)
            if first:
                size = self.T.size(cur)
                first = False
            else:
                while cur.startswith("%"):
                    cur = self.T.named[cur]
                if cur.startswith("["):
                    n, e = self.T.arr(cur)
                    cur = e
                    size = self.T.size(e)
                else:
                    _, _, offs, tys = self.T.struct(cur)
                    k = int(iv)
                    const += offs[k]
                    cur = tys[k]
                    continue
            if re.fullmatch(r"-?\d+", o):
                const += int(o) * size
            else:
                terms.append(f"{o}*{size}" if size != 1 else o)
        if not terms and const == 0:
            return base
        off = "+".join(terms + ([str(const)] if const or not terms else []))
        return f"(({base})[0], ({base})[1]+{off})"

    def run(self):
        hdr = self.lines[0]
        m = re.search(r'@("[^"]*"|[\w.$]+)\((.*)\)', hdr)
        args = m.group(2)
        depth, end = 0, 0
        s = hdr[m.start(2):]
        for i, ch in enumerate(s):
            if ch == "(":
                depth += 1
            elif ch == ")":
                if depth == 0:
                    end = i
                    break
                depth -= 1
        params, byval = [], {}
        for k, a in enumerate(split_top(s[:end])):
            if a == "...":
                continue
            bm = re.search(r"byval\(([^)]*)\)", a)
            t, v = self.tv(a)
            v = v or f"%{k}"
            params.append(pyid(v))
            if bm:
                byval[pyid(v)] = self.T.size(bm.group(1))
        nargs = len(params)
        # blocks
        blocks = {}
        order = []
        cur = str(nargs)
        first = True
        for line in self.lines[1:]:
            l = line.split(" ;")[0].rstrip() if " ;" in line and '"' not in line else line.rstrip()
            if not l.strip() or l.strip().startswith(";"):
                continue
            m = re.match(r'^([\w.$-]+|"[^"]*"):', l)
            if m and not l.startswith(" "):
                cur = m.group(1)
                blocks[cur] = []
                order.append(cur)
                first = False
                continue
            if first:
                blocks[cur] = []
                order.append(cur)
                first = False
            blocks[cur].append(l.strip())
        # join multi-line instructions (switch, landingpad clauses, invoke ... to)
        for b in order:
            out = []
            for l in blocks[b]:
                if out and (l.startswith("to label") or l.startswith("cleanup") or l.startswith("catch ") or l.startswith("filter ")
                            or out[-1].startswith("switch") and not out[-1].endswith("]")):
                    out[-1] += " " + l
                else:
                    out.append(l)
            blocks[b] = out
        # phis
        self.phi = {}
        for b in order:
            ph = []
            for l in blocks[b]:
                m = re.match(r"(%[\w.$]+) = phi (.*)$", l)
                if not m:
                    break
                t, rest = take_type(re.sub(r"^(nsz|fast|nnan|ninf) ", "", m.group(2)))
                inc = {}
                for a, fr in re.findall(r"\[ (.*?), %([\w.$]+|\"[^\"]*\") \]", rest):
                    inc[fr] = self.op(t, a)
                ph.append((pyid(m.group(1)), inc))
            self.phi[b] = ph
        self.id = {b: i for i, b in enumerate(order)}
        body = {}
        for b in order:
            body[b] = self.block(b, blocks[b])
        out = [f"def F_{self.name}({', '.join(params)}):"]
        for v, s in byval.items():
            out.append(f"  _t = (Obj('byval', {s}, 'stack'), 0); memcpy(_t, {v}, {s}); {v} = _t")
        if len(order) == 1:
            out += ["  " + l for l in body[order[0]]]
        else:
            out.append("  bb = 0")
            out.append("  while True:")
            out.append("    M.steps += 1")
            out.append("    if M.steps > M.limit: raise StepLimit(str(M.limit))")

            def emit(lo, hi, ind):
                if hi - lo == 1:
                    for l in body[order[lo]]:
                        out.append(ind + l)
                    return
                mid = (lo + hi) // 2
                out.append(f"{ind}if bb < {mid}:")
                emit(lo, mid, ind + "  ")
                out.append(f"{ind}else:")
                emit(mid, hi, ind + "  ")
            emit(0, len(order), "    ")
        return "\n".join(out) + "\n", self.calls

    def jump(self, frm, to):
        to = to.lstrip("%")
        ph = self.phi[to]
        out = []
        if ph:
            l = [(d, inc[frm]) for d, inc in ph if inc[frm] != "UNDEF" and inc[frm] != d]
            l += [(d, "UNDEF") for d, inc in ph if inc[frm] == "UNDEF"]
            if l:
                out.append(", ".join(d for d, _ in l) + " = " + ", ".join(s for _, s in l))
        out.append(f"bb = {self.id[to]}")
        return "; ".join(out)

    def block(self, b, lines):
        out = []
        for l in lines:
            l = re.sub(r", ![\w.]+ ![0-9]+", "", l)
            l = re.sub(r" #\d+$", "", l)
            m = re.match(r"(%[\w.$]+) = (.*)$", l)
            if m:
                d, e = pyid(m.group(1)), m.group(2)
            else:
                d, e = None, l
            n0 = len(out)
            try:
                self.ins(b, d, e, out)
            except (Unsupported, KeyError, ValueError) as ex:
                del out[n0:]
                out.append(f"raise Unsupported({str(ex) + ' in ' + self.name!r})")
        return out or ["pass"]

    CMP = {"eq": "==", "ne": "!=", "sgt": ">", "sge": ">=", "slt": "<", "sle": "<="}
    UCMP = {"ugt": ">", "uge": ">=", "ult": "<", "ule": "<="}
    FO = {"oeq": "==", "ogt": ">", "oge": ">=", "olt": "<", "ole": "<="}

    def ins(self, b, d, e, out):
        op = e.split()[0]
        if op == "phi":
            return
        if op == "alloca":
            t, _ = take_type(e[len("alloca"):].strip())
            parts = split_top(e[len("alloca"):].strip())
            n = "1"
            if len(parts) > 1 and not parts[1].startswith("align"):
                n = self.tvop(parts[1])
            out.append(f"{d} = (Obj({self.name[:24] + ':' + d!r}, {self.T.size(parts[0])}*{n}, 'stack'), 0)")
            return
        if op == "load":
            parts = split_top(re.sub(r"^load (volatile )?", "", e))
            t = parts[0]
            p = self.tvop(parts[1])
            out.append(f"{d} = ld({p}, {self.T.size(t)}, {kind_of(t)!r})")
            return
        if op == "store":
            parts = split_top(re.sub(r"^store (volatile )?", "", e))
            t, v = self.tv(parts[0])
            if t.startswith("[") or t.startswith("{"):
                raise Unsupported("aggregate store")
            out.append(f"st({self.tvop(parts[1])}, {self.op(t, v)}, {self.T.size(t)})")
            return
        if op == "getelementptr":
            parts = split_top(re.sub(r"^getelementptr (inbounds |nuw |nusw )*", "", e))
            out.append(f"{d} = {self.gep(parts)}")
            return
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            r = re.sub(r"^\w+ ((nsw|nuw|exact|disjoint) )*", "", e)
            t, rest = take_type(r)
            a, c = [self.op(t, x) for x in split_top(rest)]
            bits = int(t[1:])
            if bits == 1:
                ex = {"and": f"({a} and {c})", "or": f"({a} or {c})", "xor": f"(bool({a}) != bool({c}))"}[op]
            elif op == "add":
                ex = f"iadd({a}, {c}, {bits})"
            elif op == "sub":
                ex = f"isub({a}, {c}, {bits})"
            elif op == "mul":
                ex = f"wrap({a} * {c}, {bits})"
            elif op == "sdiv":
                ex = f"sdiv({a}, {c})"
            elif op == "srem":
                ex = f"srem({a}, {c})"
            elif op == "udiv":
                ex = f"wrap(uns({a},{bits}) // uns({c},{bits}), {bits})"
            elif op == "urem":
                ex = f"wrap(uns({a},{bits}) % uns({c},{bits}), {bits})"
            elif op == "shl":
                ex = f"wrap({a}.__index__() << {c}.__index__(), {bits})" if not re.fullmatch(r"-?\d+", c) else f"wrap(({a}).__index__() << {c}, {bits})"
            elif op == "lshr":
                ex = f"wrap(uns({a},{bits}) >> {c}, {bits})"
            elif op == "ashr":
                ex = f"({a}).__index__() >> {c}"
            else:
                sym_ = {"and": "&", "or": "|", "xor": "^"}[op]
                ex = f"(({a}).__index__() {sym_} ({c}).__index__())"
            out.append(f"{d} = {ex}")
            return
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            r = re.sub(r"^\w+ ((nsz|fast|nnan|ninf|arcp|contract|afn|reassoc) )*", "", e)
            t, rest = take_type(r)
            if t.startswith("<"):
                raise Unsupported("vector")
            a, c = [self.op(t, x) for x in split_top(rest)]
            f = {"fadd": "ar_add", "fsub": "ar_sub", "fmul": "ar_mul", "fdiv": "ar_div"}[op]
            out.append(f"{d} = {f}({a}, {c})")
            return
        if op == "fneg":
            t, rest = take_type(re.sub(r"^fneg ((nsz|fast|nnan|ninf) )*", "", e))
            out.append(f"{d} = -{self.op(t, rest)}")
            return
        if op == "icmp":
            m = re.match(r"icmp (\w+) (.*)$", e)
            t, rest = take_type(m.group(2))
            a, c = [self.op(t, x) for x in split_top(rest)]
            pr = m.group(1)
            if t == "ptr" or t == "i64" and pr in ("eq", "ne"):
                if pr == "eq":
                    ex = f"peq({a}, {c})"
                elif pr == "ne":
                    ex = f"not peq({a}, {c})"
                else:
                    ex = {"ult": f"pult({a}, {c})", "ugt": f"pult({c}, {a})", "ule": f"not pult({c}, {a})", "uge": f"not pult({a}, {c})"}[pr]
            elif pr in self.CMP:
                ex = f"{a} {self.CMP[pr]} {c}"
            else:
                bits = int(t[1:])
                ex = f"uns({a},{bits}) {self.UCMP[pr]} uns({c},{bits})"
            out.append(f"{d} = {ex}")
            return
        if op == "fcmp":
            m = re.match(r"fcmp ((?:nsz|fast|nnan|ninf|arcp|contract|afn|reassoc) )*(\w+) (.*)$", e)
            t, rest = take_type(m.group(3))
            a, c = [self.op(t, x) for x in split_top(rest)]
            pr = m.group(2)
            if pr in self.FO:
                ex = f"{a} {self.FO[pr]} {c}"
            elif pr == "one":
                ex = f"not isnanp({a}) and not isnanp({c}) and {a} != {c}"
            elif pr == "une":
                ex = f"{a} != {c}"
            elif pr == "ueq":
                ex = f"isnanp({a}) or isnanp({c}) or {a} == {c}"
            elif pr in ("ult", "ule", "ugt", "uge"):
                inv = {"ult": ">=", "ule": ">", "ugt": "<=", "uge": "<"}[pr]
                ex = f"not ({a} {inv} {c})"
            elif pr == "uno":
                ex = f"isnanp({a}) or isnanp({c})"
            elif pr == "ord":
                ex = f"not isnanp({a}) and not isnanp({c})"
            else:
                raise Unsupported(e)
            out.append(f"{d} = {ex}")
            return
        if op == "select":
            parts = split_top(re.sub(r"^select ((nsz|fast|nnan|ninf) )*", "", e))
            a = [self.tvop(x) for x in parts]
            out.append(f"{d} = {a[1]} if {a[0]} else {a[2]}")
            return
        if op in ("sext", "zext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            r = re.sub(r"^\w+ ((nneg|nuw|nsw) )*", "", e)
            if op == "freeze":
                out.append(f"{d} = {self.tvop(r)}")
                return
            m = re.match(r"(.*) to (.*)$", r)
            t, v = self.tv(m.group(1))
            a = self.op(t, v)
            t2 = m.group(2).strip()
            if op == "sext":
                ex = f"-int({a})" if t == "i1" else a
            elif op == "zext":
                ex = f"int({a})" if t == "i1" else f"uns({a}, {t[1:]})"
            elif op == "trunc":
                ex = f"({a}) & 1" if t2 == "i1" else f"wrap({a}, {t2[1:]})"
            elif op == "fptosi":
                ex = f"fptosi({a}, {t2[1:]})"
            elif op == "fptoui":
                ex = f"fptosi({a}, {int(t2[1:]) + 1})"
            elif op == "sitofp":
                ex = f"sitofp({a})"
            elif op == "uitofp":
                ex = f"int({a})" if t == "i1" else f"uns({a}, {t[1:]})"
            else:
                ex = a
            out.append(f"{d} = {ex}")
            return
        if op in ("call", "tail", "invoke", "musttail", "notail"):
            self.call(b, d, e, out)
            return
        if op == "br":
            m = re.match(r"br label %([\w.$]+)", e)
            if m:
                out.append(self.jump(b, m.group(1)))
                return
            m = re.match(r"br i1 (.*), label %([\w.$]+), label %([\w.$]+)", e)
            c = self.op("i1", m.group(1))
            out.append(f"if {c}:")
            out.append("  " + self.jump(b, m.group(2)))
            out.append("else:")
            out.append("  " + self.jump(b, m.group(3)))
            return
        if op == "switch":
            m = re.match(r"switch (\w+) (.*?), label %([\w.$]+) \[(.*)\]", e)
            v = self.op(m.group(1), m.group(2))
            kw = "if"
            for val, lab in re.findall(r"\w+ (-?\d+), label %([\w.$]+)", m.group(4)):
                out.append(f"{kw} {v} == {val}:")
                out.append("  " + self.jump(b, lab))
                kw = "elif"
            if kw == "if":
                out.append(self.jump(b, m.group(3)))
            else:
                out.append("else:")
                out.append("  " + self.jump(b, m.group(3)))
            return
        if op == "ret":
            if e == "ret void":
                out.append("return")
            else:
                out.append(f"return {self.tvop(e[4:])}")
            return
        if op == "unreachable":
            out.append("raise UBEvent('unreachable reached')")
            return
        if op in ("landingpad", "resume"):
            if d:
                out.append(f"{d} = UNDEF")
            else:
                out.append("raise CxxThrow('resume')")
            return
        if op == "extractvalue":
            parts = split_top(e[len("extractvalue"):])
            t, v = take_type(parts[0])
            out.append(f"{d} = ({self.op(t, v)})[{parts[1]}] if type({self.op(t, v)}) is list else UNDEF")
            return
        if op == "insertvalue":
            parts = split_top(e[len("insertvalue"):])
            t, v = take_type(parts[0])
            a = self.op(t, v)
            t2, v2 = take_type(parts[1])
            out.append(f"{d} = list({a}) if type({a}) is list else [UNDEF]*8")
            out.append(f"{d}[{parts[2]}] = {self.op(t2, v2)}")
            return
        raise Unsupported("instruction " + e)

    def call(self, b, d, e, out):
        m = re.search(r'(@("[^"]*"|[\w.$]+)|%[\w.$]+)\(', e)
        # function type casts such as "call void (ptr, ...) @f(" also match: take the last callee before args
        callee = m.group(1)
        s = e[m.end():]
        depth = 0
        for i, ch in enumerate(s):
            if ch in "([{":
                depth += 1
            elif ch in ")]}":
                if depth == 0:
                    break
                depth -= 1
        args = s[:i]
        tail = s[i + 1:]
        name = callee[1:]
        dst = f"{d} = " if d else ""
        if callee.startswith("%"):
            raise Unsupported("indirect call")
        A = None
        if not name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental")):
            A = []
            for a in split_top(args):
                if a.startswith("metadata"):
                    A.append("None")
                    continue
                A.append(self.tvop(a))
        ex = None
        if A is None:
            ex = None
        elif re.match(r"_ZNSo|_ZSt16__ostream|_ZNSt9basic_ios|_ZSt[l5]|_ZSt4endl|_ZNKSt5ctype|_ZNSt8ios_base|_ZNKSt9basic_ios", name) and "ostream" in name + str(A) or re.match("_ZNSo", name):
            ex = "cout_stub()"
        elif name in self.p.funcs:
            self.calls.add(name)
            ex = f"F_{name}({', '.join(A)})"
        elif name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            ex = f"memcpy({A[0]}, {A[1]}, {A[2]})"
        elif name in ("memcpy", "memmove"):
            out.append(f"memcpy({A[0]}, {A[1]}, {A[2]})")
            ex = A[0]
        elif name.startswith("llvm.memset") or name == "memset":
            ex = f"memset({A[0]}, {A[1]}, {A[2]})"
        elif name.startswith("llvm.floor") or name in ("floor", "floorf"):
            ex = f"libfloor({A[0]})"
        elif name.startswith("llvm.ceil") or name in ("ceil", "ceilf"):
            ex = f"sym.fceil({A[0]})"
        elif name.startswith("llvm.sqrt") or name in ("sqrt", "sqrtf"):
            ex = f"sym.fsqrt({A[0]})"
        elif name.startswith("llvm.fabs") or name in ("fabs", "fabsf"):
            ex = f"abs({A[0]})"
        elif name.startswith("llvm.abs.i"):
            ex = f"abs({A[0]})"
        elif name.startswith(("llvm.minnum", "llvm.minimum")) or name in ("fmin", "fminf"):
            ex = f"fmin_({A[0]}, {A[1]})"
        elif name.startswith(("llvm.maxnum", "llvm.maximum")) or name in ("fmax", "fmaxf"):
            ex = f"fmax_({A[0]}, {A[1]})"
        elif name.startswith("llvm.fmuladd") or name.startswith("llvm.fma.") or name == "fma":
            ex = f"ar_add(ar_mul({A[0]}, {A[1]}), {A[2]})"
        elif name.startswith("llvm.smax"):
            ex = f"({A[0]} if {A[0]} > {A[1]} else {A[1]})"
        elif name.startswith("llvm.smin"):
            ex = f"({A[0]} if {A[0]} < {A[1]} else {A[1]})"
        elif name.startswith("llvm.trunc") or name == "trunc":
            ex = f"libtrunc({A[0]})"
        elif name.startswith("llvm.round.") or name in ("round", "lround"):
            ex = f"libround({A[0]})"
        elif name.startswith("llvm.pow") or name == "pow":
            ex = f"libpow({A[0]}, {A[1]})"
        elif name == "hypot":
            ex = f"sym.fsqrt(ar_add(ar_mul({A[0]}, {A[0]}), ar_mul({A[1]}, {A[1]})))"
        elif name.startswith("llvm.umul.with.overflow"):
            ex = f"[wrap(uns({A[0]},64)*uns({A[1]},64),64), uns({A[0]},64)*uns({A[1]},64) >= (1<<64)]"
        elif name.startswith("llvm.expect"):
            ex = A[0]
        elif name.startswith("llvm.ctlz.i64"):
            ex = f"64-uns({A[0]},64).bit_length()"
        elif name.startswith("llvm.isfinite") or name == "llvm.is.fpclass.f64":
            ex = f"fpclass({A[0]}, {A[1]})"
        elif name in ("_Znam", "_Znwm", "malloc"):
            ex = f"alloc({A[0]})"
        elif name == "calloc":
            out.append(f"_c = alloc(({A[0]})*({A[1]})); memset(_c, 0, ({A[0]})*({A[1]}))")
            ex = "_c"
        elif name in ("_ZdaPv", "_ZdlPv", "free", "_ZdlPvm", "_ZdaPvm"):
            ex = f"free({A[0]})"
        elif name == "__cxa_allocate_exception":
            ex = "alloc(64, 'exc')"
        elif name.startswith("__cxa_throw") or "__throw_" in name or name in ("_ZSt9terminatev", "__cxa_rethrow", "abort", "exit"):
            out.append(f"raise CxxThrow({name!r})")
            return
        elif name in ("__cxa_begin_catch", "__cxa_end_catch"):
            ex = "NULL"
        elif re.match(r"_ZNSo|_ZSt16__ostream|_ZNSt9basic_ios|_ZStlsI|_ZSt4endl|_ZNKSt5ctype|_ZNSt8ios_base", name) or name in ("strlen", "printf", "puts", "fprintf", "putchar", "fflush"):
            ex = "cout_stub()"
        else:
            raise Unsupported("call to " + name)
        if ex is not None:
            out.append(dst + ex)
        elif d:
            out.append(f"{d} = UNDEF")
        m = re.search(r"to label %([\w.$]+)", tail)
        if m:
            out.append(self.jump(b, m.group(1)))


def cout_stub():
    return NULL


def fpclass(x, mask):
    # bits: 0x3 nan, 0x204 +-inf, rest finite
    if isinstance(x, float):
        c = 0x3 if x != x else (0x200 if x > 0 else 0x4)
        return bool(mask & c)
    return bool(mask & 0x1F8) if mask & 0x1F8 in (0, 0x1F8) else _bad_class()


def _bad_class():
    raise Unsupported("fpclass")


_prog = {}


def load_program():
    import build
    p = build.ir_path()
    if p not in _prog:
        _prog[p] = Program(p)
    return _prog[p]


def reset_machine():
    M.allocs = []
    M.steps = 0


def new_array(name, values, size, kind="arg"):
    """an object holding the given values (element size in bytes)"""
    o = Obj(name, len(values) * size, kind)
    for i, v in enumerate(values):
        o.c[i * size] = (v, size)
    return (o, 0)


def read_array(p, n, size, kind="d"):
    o, f = p
    return [ld((o, f + i * size), size, kind) for i in range(n)]
