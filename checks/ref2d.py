"""Reference semantics of the 2D renderer, written from the property statements (not from the code): each
pixel is computed on its own from exact barycentric coordinates.  Works on symbolic values (comparisons then
fork the current path) and on concrete ones (used when a counterexample is replayed)."""
import math
from fractions import Fraction as F

import sym
from geom import orient
from sym import Num, INF


class Skip(Exception):
    """the property leaves this pixel open (exactly on a boundary, exact depth tie)"""


def rsqrt(x, exact):
    if isinstance(x, Num):
        return x.sqrt()
    if exact:
        return sym.fsqrt(x)
    return math.sqrt(x)


def div(a, b):
    return sym.fdiv(a, b)


def sgn(x):
    if isinstance(x, Num):
        return x.sign()
    return (x > 0) - (x < 0)


def blend(t, a, b):
    return a * (1 - t) + b * t


def clamp_cell(u, n):
    """(i, j, frac): texels i and j are blended with weight frac, u clamped to [0, n-1]"""
    if u <= 0:
        return 0, 0, 0
    if u >= n - 1:
        return n - 1, n - 1, 0
    k = sym.ffloor(u)
    k = k.conc() if isinstance(k, sym.SInt) else int(k)
    return k, k + 1, u - k


def bilinear(tex, uv):
    h, w = len(tex), len(tex[0])
    i0, i1, a = clamp_cell(uv[0], w)
    j0, j1, b = clamp_cell(uv[1], h)
    return [blend(b, blend(a, tex[j0][i0][c], tex[j0][i1][c]), blend(a, tex[j1][i0][c], tex[j1][i1][c])) for c in range(len(tex[0][0]))]


class Ref:
    def __init__(self, s, obs=None, exact=True, detach=None):
        self.s, self.obs, self.exact, self.detach = s, obs, exact, detach
        self.off = F(0) if s.integer_pixel_centers else F(1, 2)
        self.sg = 1 if s.clockwise else -1
        self.front = []
        self.tri = [[s.ij[v] for v in f] for f in s.faces]
        self.area = []
        for f, t in zip(s.faces, self.tri):
            behind = False
            for v in f:
                if s.depths[v] < 0:
                    behind = True
                    break
            a = orient(*t)
            self.area.append(a)
            self.front.append(0 if behind else sgn(a) * self.sg)

    def drawn(self, k):
        return self.front[k] > 0 or (self.front[k] < 0 and not self.s.backface_culling)

    def attrs(self, k, lam, vs, uvs):
        """colour of triangle (or edge) k at the point with the given weights, and its depth"""
        s = self.s
        d = [s.depths[v] for v in vs]
        if s.perspective_correct:
            iz = [div(1, z) for z in d]
            Z = div(1, sum(l * i for l, i in zip(lam, iz)))
            w = [l * i * Z for l, i in zip(lam, iz)]
        else:
            Z = sum(l * z for l, z in zip(lam, d))
            w = lam
        return Z, w

    def colour(self, k, w, vs, uvs):
        s = self.s
        if s.textured[k]:
            uv = [sum(l * s.uv[u][j] for l, u in zip(w, uvs)) for j in range(2)]
            L = sum(l * s.shade[v] for l, v in zip(w, vs))
            return [L * t for t in bilinear(s.texture, uv)]
        return [sum(l * s.colors[v][c] for l, v in zip(w, vs)) for c in range(s.nb_colors)]

    def pixel(self, x, y):
        """(image values, z, error or None); raises Skip"""
        s = self.s
        p = (x + self.off, y + self.off)
        i = y * s.width + x
        best, col = INF, None
        for k, f in enumerate(s.faces):
            if not self.drawn(k) or (s.textured[k] and not s.shaded[k]):
                continue
            t = self.tri[k]
            sa = sgn(self.area[k])
            e = [orient(t[1], t[2], p), orient(t[2], t[0], p), orient(t[0], t[1], p)]
            inside, edge = True, False
            for v in e:
                q = sgn(v) * sa
                if q < 0:
                    inside = False
                    break
                if q == 0:
                    edge = True
            if not inside:
                continue
            if edge and s.strict_edge:
                raise Skip("on an edge")
            lam = [div(v, self.area[k]) for v in e]
            Z, w = self.attrs(k, lam, f, s.faces_uv[k])
            if best == INF and not isinstance(best, Num):
                closer = True
            else:
                d = sgn(Z - best)
                if d == 0:
                    raise Skip("tie")
                closer = d < 0
            if closer:
                best, col = Z, (k, w)
        if col is not None:
            k, w = col
            img = self.colour(k, w, s.faces[k], s.faces_uv[k])
        elif s.background_image is not None:
            img = list(s.background_image[y][x])
        else:
            img = list(s.background_color)
        err = None
        if self.obs is not None:
            o = self.obs[y][x]
            err = sum((a - b) * (a - b) for a, b in zip(img, o))
        if sgn(s.sigma) > 0:
            img, err = self.edges(p, img, err, best, i, x, y)
        return img, best, err

    def order(self):
        """triangle indices from the farthest to the nearest (sum of depths)"""
        s = self.s
        ks = [k for k in range(len(s.faces)) if self.front[k] > 0]
        sums = {k: sum(s.depths[v] for v in s.faces[k]) for k in ks}
        out = []
        for k in ks:
            pos = len(out)
            for q in range(len(out)):
                d = sgn(sums[k] - sums[out[q]])
                if d == 0:
                    self.order_tie = True
                if d > 0:
                    pos = q
                    break
            out.insert(pos, k)
        return out

    def edges(self, p, img, err, zb, i, x, y):
        s = self.s
        self.order_tie = False
        touched = 0
        for k in self.order():
            f, fu = s.faces[k], s.faces_uv[k]
            for n in range(3):
                if not s.edgeflags[k][n]:
                    continue
                a, b = n, (n + 1) % 3
                A, B = self.tri[k][a], self.tri[k][b]
                ex, ey = B[0] - A[0], B[1] - A[1]
                dx, dy = p[0] - A[0], p[1] - A[1]
                L2 = ex * ex + ey * ey
                dot = ex * dx + ey * dy
                q0 = sgn(dot)
                if q0 < 0:
                    continue
                q1 = sgn(L2 - dot)
                if q1 < 0:
                    continue
                out = -(ex * dy - ey * dx) * self.sg       # > 0 outside
                q2 = sgn(out)
                if q2 < 0:
                    continue
                L = rsqrt(L2, self.exact)
                q3 = sgn(s.sigma * L - out)
                if q3 <= 0:
                    continue       # at distance sigma nothing is blended
                m = div(dot, L2)
                lam = [1 - m, m]
                Z, w = self.attrs(k, lam, [f[a], f[b]], None)
                if not (zb == INF and not isinstance(zb, Num)):
                    qz = sgn(zb - Z)
                    if qz < 0:
                        continue
                    if qz == 0:
                        raise Skip("edge tie")
                if 0 in (q0, q1, q2):
                    raise Skip("on the border of a band")
                touched += 1
                t = div(out, s.sigma * L)
                col = self.colour(k, w, [f[a], f[b]], [fu[a], fu[b]])
                if self.detach is not None and not s.textured[k]:
                    # what remains of the derivative when the value of the row at x = 0 is taken as a constant
                    m0 = div(ex * (self.off - A[0]) + ey * dy, L2)
                    c0 = self.colour(k, [1 - m0, m0], [f[a], f[b]], [fu[a], fu[b]])
                    col = [c - q + self.detach(q) for c, q in zip(col, c0)]
                if self.obs is not None:
                    o = self.obs[y][x]
                    e = sum((c - d) * (c - d) for c, d in zip(col, o))
                    err = t * err + (1 - t) * e
                else:
                    img = [t * v + (1 - t) * c for v, c in zip(img, col)]
        if touched > 1 and self.order_tie:
            raise Skip("compositing order tie")
        return img, err
