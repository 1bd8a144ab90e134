"""helpers shared by the 2D checks"""
from fractions import Fraction as F

import sym
from sym import Num, lift, INF


def orient(a, b, p):
    """twice the signed area of a,b,p"""
    return (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])


def neg_lit(x, rel):
    """(poly, signs) literal x rel 0 for a polynomial x (or a number)"""
    n, den = x.v if isinstance(x, Num) else lift(x)
    s = sym.den_sign(den) if den else 1
    S = {"<": (-1,), "<=": (-1, 0), "=": (0,), ">": (1,), ">=": (0, 1), "!=": (-1, 1)}[rel]
    if s < 0:
        S = tuple(sorted(-v for v in S))
    return (n, S)


def orientation_sign(tri):
    """sign of the area, deciding it on the path"""
    o = orient(*tri)
    if isinstance(o, Num):
        return o.sign()
    return (o > 0) - (o < 0)


def isinf(z):
    return isinstance(z, float) and z == INF


def close(a, b, tol=1e-9):
    a, b = float(a), float(b)
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def at(x, w):
    return sym.value_at(x, w)
