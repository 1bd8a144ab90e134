"""Executes GLSL shaders on numbers that may be symbolic (sym.Num): declarations, functions, assignments with swizzles, if, for, return and the
arithmetic built-ins.  Anything else is Unsupported."""
import re
from fractions import Fraction as F

import pysym
from sym import Num, Unsupported

TOK = re.compile(r"\s*(?:(\d+\.\d*(?:[eE][-+]?\d+)?f?|\.\d+(?:[eE][-+]?\d+)?f?|\d+[eE][-+]?\d+f?|\d+u?)|([A-Za-z_]\w*)|(\+\+|--|[-+*/]=|==|!=|<=|>=|&&|\|\||[-+*/%<>=!?:;,.(){}\[\]]))")
TYPES = {"float", "int", "uint", "bool", "vec2", "vec3", "vec4", "mat2", "mat3", "mat4", "void", "sampler2D", "ivec2", "ivec3", "ivec4", "double", "dvec2", "dvec3", "dvec4", "dmat4"}
QUAL = {"uniform", "in", "out", "const", "inout", "varying", "attribute", "highp", "mediump", "lowp", "flat", "smooth", "precise", "invariant"}
SW = {c: i for s in ("xyzw", "rgba", "stpq") for i, c in enumerate(s)}


class Vec(list):
    pass


class Mat(list):
    """columns"""


class Return(Exception):
    def __init__(self, v):
        self.v = v


class _Flow(Exception):
    pass


def tokens(src):
    src = re.sub(r"/\*.*?\*/", " ", src, flags=re.S)
    src = re.sub(r"//[^\n]*", " ", src)
    defs = dict(re.findall(r"^[ \t]*#[ \t]*define[ \t]+(\w+)[ \t]+([^\n]+?)[ \t]*$", src, flags=re.M))
    if re.search(r"^[ \t]*#[ \t]*(?!version|define|extension|pragma)\w+", src, flags=re.M) or re.search(r"#[ \t]*define[ \t]+\w+\(", src):
        raise Unsupported("preprocessor directive in a shader")
    src = re.sub(r"^[ \t]*#[^\n]*", " ", src, flags=re.M)
    for k, v in defs.items():
        src = re.sub(r"\b%s\b" % k, v, src)
    out, i = [], 0
    src = src.rstrip()
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise Unsupported("shader text: " + src[i:i + 20])
        out.append(m.group(m.lastindex))
        i = m.end()
    return out


class Shader:
    def __init__(self, src):
        self.t, self.i = tokens(src), 0
        self.io, self.funcs, self.globals_ = {}, {}, []
        while self.i < len(self.t):
            self.top()

    # ---------------------------------------------------------------- parser
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() != x:
            raise Unsupported(f"shader: {x} expected, {self.peek()} found")
        self.i += 1

    def top(self):
        q = []
        while self.peek() in QUAL:
            q.append(self.next())
        if self.peek() == "precision":
            while self.next() != ";":
                pass
            return
        ty = self.next()
        if ty not in TYPES:
            raise Unsupported("shader type " + str(ty))
        name = self.next()
        if self.peek() == "(":
            self.next()
            par = []
            while self.peek() != ")":
                pq = []
                while self.peek() in QUAL:
                    pq.append(self.next())
                pt = self.next()
                if pt == "void":
                    break
                if "out" in pq or "inout" in pq:
                    raise Unsupported("shader: out parameter")
                par.append((pt, self.next()))
                if self.peek() == ",":
                    self.next()
            self.eat(")")
            if self.peek() == ";":
                self.next()
                return
            self.funcs[name] = (ty, par, self.block())
            return
        while True:
            if "uniform" in q or "in" in q or "out" in q or "varying" in q or "attribute" in q:
                self.io[name] = (q, ty)
            init = None
            if self.peek() == "=":
                self.next()
                init = self.expr()
            self.globals_.append((ty, name, init, q))
            if self.peek() == ",":
                self.next()
                name = self.next()
                continue
            self.eat(";")
            return

    def block(self):
        self.eat("{")
        o = []
        while self.peek() != "}":
            o.append(self.stmt())
        self.next()
        return ("block", o)

    def stmt(self):
        p = self.peek()
        if p == "{":
            return self.block()
        if p == ";":
            self.next()
            return ("block", [])
        if p == "return":
            self.next()
            e = None if self.peek() == ";" else self.expr()
            self.eat(";")
            return ("return", e)
        if p == "if":
            self.next()
            self.eat("(")
            c = self.expr()
            self.eat(")")
            a = self.stmt()
            b = None
            if self.peek() == "else":
                self.next()
                b = self.stmt()
            return ("if", c, a, b)
        if p == "for":
            self.next()
            self.eat("(")
            init = self.stmt()
            c = self.expr()
            self.eat(";")
            step = self.simple()
            self.eat(")")
            return ("for", init, c, step, self.stmt())
        if p in ("discard", "while", "do", "switch", "struct", "break", "continue"):
            raise Unsupported("shader statement " + p)
        s = self.simple()
        self.eat(";")
        return s

    def simple(self):
        while self.peek() in QUAL:
            self.next()
        if self.peek() in TYPES and re.match(r"[A-Za-z_]", self.peek(1) or "") and self.peek(1) not in TYPES:
            ty = self.next()
            o = []
            while True:
                name = self.next()
                init = None
                if self.peek() == "=":
                    self.next()
                    init = self.expr()
                o.append(("decl", ty, name, init))
                if self.peek() != ",":
                    return ("seq", o)
                self.next()
        l = self.expr()
        op = self.peek()
        if op in ("=", "+=", "-=", "*=", "/="):
            self.next()
            return ("assign", l, op, self.expr())
        if op in ("++", "--"):
            self.next()
            return ("assign", l, op[0] + "=", ("num", 1))
        return ("expr", l)

    LEVELS = [("||",), ("&&",), ("==", "!="), ("<", ">", "<=", ">="), ("+", "-"), ("*", "/", "%")]

    def expr(self):
        c = self.binary(0)
        if self.peek() == "?":
            self.next()
            a = self.expr()
            self.eat(":")
            return ("cond", c, a, self.expr())
        return c

    def binary(self, k):
        if k == len(self.LEVELS):
            return self.unary()
        l = self.binary(k + 1)
        while self.peek() in self.LEVELS[k]:
            op = self.next()
            l = ("bin", op, l, self.binary(k + 1))
        return l

    def unary(self):
        if self.peek() in ("-", "+", "!"):
            op = self.next()
            return ("un", op, self.unary())
        if self.peek() in ("++", "--"):
            op = self.next()
            return ("preinc", op, self.unary())
        return self.postfix()

    def postfix(self):
        t = self.next()
        if t == "(":
            e = self.expr()
            self.eat(")")
        elif re.match(r"[\d.]", t):
            t = t.rstrip("fu")
            e = ("num", int(t) if re.fullmatch(r"\d+", t) else F(t))
        elif self.peek() == "(":
            self.next()
            a = []
            while self.peek() != ")":
                a.append(self.expr())
                if self.peek() == ",":
                    self.next()
            self.eat(")")
            e = ("call", t, a)
        else:
            e = ("var", t)
        while self.peek() in (".", "["):
            if self.next() == ".":
                e = ("sw", e, self.next())
            else:
                e = ("idx", e, self.expr())
                self.eat("]")
        return e

    # ---------------------------------------------------------------- execution
    def run(self, inputs, texture=None):
        """values of the inputs and uniforms (missing ones are zero) -> values of every global"""
        g = {}
        self.texture = texture
        self.g = g
        for ty, name, init, q in self.globals_:
            g[name] = self.ev(init, [g]) if init is not None else inputs.get(name, zero(ty))
            if name in inputs and ty in ("vec3", "vec4") and len(g[name]) < int(ty[3]):
                g[name] = Vec(list(g[name]) + [0, 0, 1][len(g[name]) - 1:int(ty[3]) - 1])     # missing components of an attribute
        g.setdefault("gl_Position", Vec([0, 0, 0, 1]))
        self.call("main", [])
        return g

    def call(self, name, args):
        ty, par, body = self.funcs[name]
        loc = {n: v for (t, n), v in zip(par, args)}
        try:
            self.ex(body, [self.g, loc])
        except Return as r:
            return r.v

    def ex(self, s, env):
        k = s[0]
        if k == "block":
            e = env + [{}]
            for q in s[1]:
                self.ex(q, e)
        elif k == "seq":
            for q in s[1]:
                self.ex(q, env)
        elif k == "decl":
            v = self.ev(s[3], env) if s[3] is not None else zero(s[1])
            env[-1][s[2]] = conv(v, s[1])
        elif k == "expr":
            self.ev(s[1], env)
        elif k == "return":
            raise Return(self.ev(s[1], env) if s[1] is not None else None)
        elif k == "if":
            if self.ev(s[1], env):
                self.ex(s[2], env)
            elif s[3] is not None:
                self.ex(s[3], env)
        elif k == "for":
            e = env + [{}]
            self.ex(s[1], e)
            n = 0
            while self.ev(s[2], e):
                self.ex(s[4], e)
                self.ex(s[3], e)
                n += 1
                if n > 1000:
                    raise Unsupported("shader: long loop")
        elif k == "assign":
            v = self.ev(s[3], env)
            if s[2] != "=":
                v = arith(s[2][0], self.ev(s[1], env), v)
            self.store(s[1], v, env)
        else:
            raise Unsupported("shader statement " + k)

    def scope(self, name, env):
        for e in reversed(env):
            if name in e:
                return e
        raise Unsupported("shader variable " + name)

    def store(self, l, v, env):
        if l[0] == "var":
            self.scope(l[1], env)[l[1]] = v
        elif l[0] == "sw":
            old = self.ev(l[1], env)
            new = Vec(old)
            if len(l[2]) == 1:
                v = [v]
            for c, x in zip(l[2], v):
                new[SW[c]] = x
            self.store(l[1], new, env)
        elif l[0] == "idx":
            old = self.ev(l[1], env)
            new = type(old)(old)
            new[int(self.ev(l[2], env))] = v
            self.store(l[1], new, env)
        else:
            raise Unsupported("shader assignment")

    def ev(self, e, env):
        k = e[0]
        if k == "num":
            return e[1] if pysym.SYM or isinstance(e[1], int) else float(e[1])
        if k == "var":
            if e[1] in ("true", "false"):
                return e[1] == "true"
            return self.scope(e[1], env)[e[1]]
        if k == "sw":
            v = self.ev(e[1], env)
            r = [v[SW[c]] for c in e[2]]
            return r[0] if len(r) == 1 else Vec(r)
        if k == "idx":
            return self.ev(e[1], env)[int(self.ev(e[2], env))]
        if k == "un":
            v = self.ev(e[2], env)
            if e[1] == "!":
                return not v
            return arith("*", -1, v) if e[1] == "-" else v
        if k == "preinc":
            v = arith(e[1][0], self.ev(e[2], env), 1)
            self.store(e[2], v, env)
            return v
        if k == "cond":
            return self.ev(e[2] if self.ev(e[1], env) else e[3], env)
        if k == "bin":
            op = e[1]
            if op == "&&":
                return bool(self.ev(e[2], env)) and bool(self.ev(e[3], env))
            if op == "||":
                return bool(self.ev(e[2], env)) or bool(self.ev(e[3], env))
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                if isinstance(a, list):
                    raise Unsupported("shader: comparison of vectors")
                return {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()
            return arith(op, a, b)
        if k == "call":
            a = [self.ev(q, env) for q in e[2] if not (e[1] in ("texture", "texture2D") and q is e[2][0])]
            if e[1] in self.funcs:
                return self.call(e[1], a)
            return self.builtin(e[1], a)
        raise Unsupported("shader expression " + k)

    def builtin(self, f, a):
        if f in ("texture", "texture2D"):
            return Vec(self.texture(a[0]))
        if f in ("float", "double", "int"):
            if f == "int":
                raise Unsupported("shader: conversion to int")
            return a[0]
        if re.fullmatch(r"d?vec[234]", f):
            n = int(f[-1])
            q = [y for x in a for y in (x if isinstance(x, list) else [x])]
            return Vec(q * n if len(q) == 1 else q[:n])
        if re.fullmatch(r"d?mat[234]", f):
            n = int(f[-1])
            if len(a) == 1 and isinstance(a[0], Mat):
                return Mat([Vec([a[0][c][r] if c < len(a[0]) and r < len(a[0]) else int(c == r) for r in range(n)]) for c in range(n)])
            if len(a) == 1:
                return Mat([Vec([a[0] if c == r else 0 for r in range(n)]) for c in range(n)])
            q = [y for x in a for y in (x if isinstance(x, list) else [x])]
            return Mat([Vec(q[c * n:(c + 1) * n]) for c in range(n)])
        if f == "dot":
            return sum((x * y for x, y in zip(a[0][1:], a[1][1:])), a[0][0] * a[1][0]) if isinstance(a[0], list) else a[0] * a[1]
        if f == "length":
            return root(self.builtin("dot", [a[0], a[0]]))
        if f == "distance":
            return self.builtin("length", [arith("-", a[0], a[1])])
        if f == "normalize":
            return arith("/", a[0], self.builtin("length", a))
        if f == "cross":
            (p, q, r), (x, y, z) = a
            return Vec([q * z - r * y, r * x - p * z, p * y - q * x])
        if f == "transpose":
            return Mat([Vec(r) for r in zip(*a[0])])
        if f in ("max", "min"):
            return each(lambda x, y: (x if x >= y else y) if f == "max" else (x if x <= y else y), *a)
        if f == "abs":
            return each(lambda x: x if x >= 0 else -x, *a)
        if f == "clamp":
            return self.builtin("min", [self.builtin("max", [a[0], a[1]]), a[2]])
        if f == "mix":
            return arith("+", arith("*", a[0], arith("-", 1, a[2])), arith("*", a[1], a[2]))
        if f == "sqrt":
            return each(root, *a)
        if f == "inversesqrt":
            return each(lambda x: 1 / root(x), *a)
        if f == "pow":
            n = a[1]
            if isinstance(n, Num) or n != int(n) or n < 0 or isinstance(a[0], list):
                raise Unsupported("shader: pow")
            r = 1
            for _ in range(int(n)):
                r = r * a[0]
            return r
        if f == "step":
            return each(lambda x, y: 0 if y < x else 1, *a)
        raise Unsupported("shader function " + f)


def root(x):
    return pysym.np_proxy.sqrt(pysym.N(x)) if pysym.SYM else float(x) ** .5


def zero(ty):
    n = int(ty[-1]) if ty[-1].isdigit() and ty != "sampler2D" else 0
    if "mat" in ty:
        return Mat([Vec([0] * n) for _ in range(n)])
    return Vec([0] * n) if n else 0


def conv(v, ty):
    return v


def each(f, *a):
    n = max((len(x) for x in a if isinstance(x, list)), default=0)
    if not n:
        return f(*a)
    return Vec([f(*[x[i] if isinstance(x, list) else x for x in a]) for i in range(n)])


def arith(op, a, b):
    if op == "*":
        if isinstance(a, Mat) and isinstance(b, Mat):
            return Mat([arith("*", a, c) for c in b])
        if isinstance(a, Mat) and isinstance(b, Vec):
            return Vec([_sum(a[c][r] * b[c] for c in range(len(a))) for r in range(len(a[0]))])
        if isinstance(a, Vec) and isinstance(b, Mat):
            return Vec([_sum(x * y for x, y in zip(a, c)) for c in b])
    if isinstance(a, Mat) or isinstance(b, Mat):
        k = len(a if isinstance(a, Mat) else b)
        return Mat([arith(op, a[i] if isinstance(a, Mat) else a, b[i] if isinstance(b, Mat) else b) for i in range(k)])

    def f(x, y):
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            if type(x) is int and type(y) is int:
                return x // y if x * y >= 0 else -(-x // y)
            return F(x) / y if isinstance(x, int) and isinstance(y, F) else x / y
        return x % y
    return each(f, a, b)


def _sum(it):
    it = list(it)
    r = it[0]
    for x in it[1:]:
        r = r + x
    return r
