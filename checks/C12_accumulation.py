"""C12: back-propagation accumulates, is linear and leaves the scene untouched; unsupported scenes are rejected."""
from fractions import Fraction as F

import edgescenes
import render
import sym
from geom import isinf
from irexec import CxxThrow, read_array
from render import flat
from sym import Num, Event

BOUNDS = ("two overlapping triangles (textured and not, edges flagged), the first one translated along lines crossing a 2x2 grid (quick; 3x3 thorough); symbolic incoming "
          "gradients and a symbolic initial value in every gradient array; image and error gradients, with and without sigma; both clockwise flags; unsupported scenes: culling off or "
          "perspective_correct with the triangle anywhere along the line")
ASSUMPTIONS = ["doubles are exact real numbers", "the incoming gradient and image buffers handed to the backward pass are scratch (the Python layer copies them on request, C32)"]
GROUPS = ("ij", "colors", "shade", "uv", "texture")
INPUTS = ("faces", "faces_uv", "depths", "uv", "ij", "shade", "colors", "edgeflags", "textured", "shaded", "texture", "background_image", "background_color")


def jobs(tier):
    o = []
    n = 2 if tier == "quick" else 3
    J = edgescenes.J
    for li in range(3):
        for err in (False, True):
            for tex in (False, True):
                if tier == "quick" and err and tex and li:
                    continue
                for sec in ("crossflag", "behindflag") if tier == "thorough" or not tex else ("behindflag",):
                    nm, d = J(f"line{li}_e{int(err)}_t{int(tex)}_{sec}", mode="line", line=li, flags=(1, 1, 0), second=sec, n=n, cw=li != 0, tex=tex, integer=li != 1)
                    o.append((nm, dict(d, kind="back", err=err)))
        nm, d = J(f"line{li}_nosigma", mode="line", line=li, flags=(1, 1, 1), second="cross", n=n, cw=li != 0, tex=li == 1, sigma="0")
        o.append((nm, dict(d, kind="back", err=False)))
        for tex in (False, True):
            for what in ("cull", "persp"):
                for err in (False, True):
                    nm, d = J(f"reject{li}_{what}_t{int(tex)}_e{int(err)}", mode="line", line=li, flags=(1, 1, 1), n=n, cw=li != 0, tex=tex, sigma="0" if li == 0 else "1")
                    o.append((nm, dict(d, kind=what, err=err)))
    return o


def run_job(j, kind, err, **kw):
    names, build0, pre = edgescenes.scene(**kw)
    h, w, nc = edgescenes.sizes(**kw)
    k = len(names)
    m = h * w * (1 if err else nc)
    names = list(names) + [f"w{i}" for i in range(m)] + [f"q{i}" for i in range(m)] + ["lam"]
    no = len(names)
    obs = [F(2 * i + 1, 3) for i in range(h * w * nc)] if err else None
    g0names = []

    def build(v):
        s = build0(v[:k])
        if kind == "cull":
            s.backface_culling = False
        if kind == "persp":
            s.perspective_correct = True
        return s, list(v[k:k + m]), list(v[k + m:k + 2 * m]), v[k + 2 * m]

    def init(s):
        """initial content of the gradient arrays (distinct values)"""
        out, c = {}, 1
        for g in GROUPS:
            L = []
            for _ in flat(getattr(s, g)):
                c += 2
                L.append(F(c, 7))
            out[g + "_b"] = L
        return out

    def back(s, o, w, grads=None):
        if err:
            return render.ir_backward(s, o.image, o.z, obs=obs, err=o.err, err_b=list(w), grads=grads)
        return render.ir_backward(s, o.image, o.z, image_b=list(w), grads=grads)

    def prog(v):
        s, w1, w2, lam = build(v)
        o = render.ir_forward(s, obs)
        if kind != "back":
            try:
                g = back(s, o, w1)
            except CxxThrow:
                return s, o, None, None, None, None, w1, w2, lam
            return s, o, g, None, None, None, w1, w2, lam
        o2 = render.ir_forward(s, obs)
        g1 = back(s, o, w1)
        g2 = back(s, o, w2)
        g3 = back(s, o, [a + lam * b for a, b in zip(w1, w2)], grads=init(s))
        return s, o, g1, g2, g3, o2, w1, w2, lam

    def eqs(s, o, g1, g2, g3, o2, w1, w2, lam):
        out = []
        i0 = init(s)
        for g in GROUPS:
            a, b, c = getattr(g1, g + "_b"), getattr(g2, g + "_b"), getattr(g3, g + "_b")
            for i, q in enumerate(i0[g + "_b"]):
                out.append((f"{g}_b[{i}] is not accumulated linearly", c[i] - (q + a[i] + lam * b[i])))
        for i, (p, q) in enumerate(zip(o.image, o2.image)):
            out.append((f"image[{i}] differs when rendered twice", p - q))
        for i, (p, q) in enumerate(zip(o.z, o2.z)):
            if not (isinf(p) and isinf(q)):
                out.append((f"z_buffer[{i}] differs when rendered twice", p - q if not isinf(p) and not isinf(q) else 1))
        for i, (p, q) in enumerate(zip(o.z, g1.z)):
            if not (isinf(p) and isinf(q)):
                out.append((f"z_buffer[{i}] is changed by back-propagation", p - q if not isinf(p) and not isinf(q) else 1))
        if err:
            for i, (p, q) in enumerate(zip(o.err, o2.err)):
                out.append((f"err_buffer[{i}] differs when rendered twice", p - q))
        return out

    def inputs_changed(s, *outs):
        """scene arrays compared, entry by entry, with what was handed over"""
        out = []
        for o in outs:
            for a in INPUTS:
                ref = getattr(s, a)
                if ref is None:
                    continue
                ref = flat(ref)
                size = 8
                if a in ("faces", "faces_uv"):
                    size = 4
                if a in ("edgeflags", "textured", "shaded"):
                    size, ref = 1, [int(bool(x)) for x in ref]
                for i, (p, q) in enumerate(zip(read_array(o.A[a], len(ref), size), ref)):
                    out.append((f"{a}[{i}] is changed", p - q))
        return out

    def check(path, res):
        s, o, g1, g2, g3, o2, w1, w2, lam = res
        j.sample({"witness": [str(q) for q in path.ctx.witness][:3]})
        if kind != "back":
            if g1 is None:
                path.q.stats.add("obligations")
                path.q.stats.add("discharged")
                return None
            # accepted: then nothing may be drawn by a triangle that back-propagation does not support
            todo = [("unsupported scene accepted with a drawn triangle", 1)] if any(not isinf(z) for z in o.z) else \
                   [("unsupported scene accepted with a gradient", x) for g in GROUPS for x in getattr(g1, g + "_b")]
            if kind == "cull":
                todo = [("scene without backface culling accepted", 1)]
        else:
            todo = eqs(*res) + inputs_changed(s, o, g1, g3)
        for what, x in todo:
            f = path.prove_zero([x], what)
            if f is not None:
                r = report(path, what, f[1])
                if r is not None:
                    return r
        if kind == "back" and path.q.stats.get("paths", 0) % 5 == 1:
            wit = path.q.interior(path.lits())
            if wit is not None:
                c = concrete(wit)
                j.trace(c is None)
                if c is not None:
                    return j.violation(f"{j.name}:native", c[0], c[1], True)
        return None

    def concrete(wit):
        s, w1, w2, lam = build([F(float(q)) for q in wit[:no]])
        i0 = {a: [float(x) for x in b] for a, b in init(s).items()}

        def nb(w, grads=None):
            b = dict(err_b=w) if err else dict(image_b=w)
            return render.native(s, obs, backward=b, grads=grads)
        a = nb(w1)
        if kind != "back":
            if a.rcb:
                return None
            bad = any(z != float("inf") for z in a.z) or kind == "cull"
            return ("unsupported scene accepted by back-propagation", dict(scene=s.describe())) if bad else None
        b, c = nb(w2), nb([x + lam * y for x, y in zip(w1, w2)], i0)
        for g in GROUPS:
            p, q, r = getattr(a, g + "_b"), getattr(b, g + "_b"), getattr(c, g + "_b")
            sc = 1 + max(abs(x) for x in p + q + r)
            for i, z in enumerate(i0[g + "_b"]):
                e = z + p[i] + float(lam) * q[i]
                if not abs(r[i] - e) <= 1e-8 * sc * (1 + abs(float(lam))):
                    return f"{g}_b[{i}] is {r[i]} after back-propagation into {z}, should be {e}", dict(scene=s.describe(), w1=[float(x) for x in w1], w2=[float(x) for x in w2])
        if a.image != b.image or a.z != b.z or a.err != b.err:
            return "rendering twice gives different buffers", dict(scene=s.describe())
        if a.z_after != a.z:
            return "back-propagation changes the z buffer", dict(scene=s.describe())
        if a.changed:
            return f"the scene array {a.changed[0]} is changed", dict(scene=s.describe())
        return None

    def report(path, what, wit):
        for p in (wit, path.q.interior(path.lits()), path.ctx.witness):
            if p is None:
                continue
            c = concrete(p)
            if c is not None:
                return j.violation(f"{j.name}:{what[:14]}", c[0], c[1], True)
        return j.violation(f"{j.name}:{what[:14]}", what, dict(witness=[str(q) for q in wit]), False)

    def on_cut(path, cut):
        c = concrete(path.ctx.witness)
        if c is not None:
            return j.violation(f"{j.name}:cut", c[0], c[1], True)
        if isinstance(cut, Event):
            return j.violation(f"{j.name}:event", f"{type(cut).__name__}: {cut}", dict(witness=[str(q) for q in path.ctx.witness]), False)
        return None

    e = j.explorer(names, (lambda v: pre(v[:k])) if pre else None)
    if e.run(prog, check, on_cut) is False:
        j.incomplete.append(j.name)
