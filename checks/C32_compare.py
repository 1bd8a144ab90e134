"""C32: compare-and-backward of a 2D scene returns the masked loss and its exact gradient."""
from fractions import Fraction as F

import numpy as np

import edgescenes
import pysym
from pycheck import arr, attempt, check, facts, gradient_entries, pairs

BOUNDS = ("one or two triangles (flat and textured, edges flagged) on a 2x2 grid, the first one translated by any t in R along a line crossing the screen; colours, shades, texels, observation and mask (any real "
          "numbers, not only 0 and 1) symbolic; image and error comparison, both clockwise flags, one and two channels; accumulation on gradients of a previous call, back-propagation repeated, with and without copies; "
          "at pixels on the border of a band or at a depth tie the derivative is left open")
ASSUMPTIONS = ["the gradient of the error buffer through untextured edges is that of the 2D renderer, C11", "doubles are exact real numbers", "the Python layer and the C++ renderer are executed together; the compiled bridge between them is C33"]
G = ("ij", "colors", "shade", "uv", "texture")


def jobs(tier):
    o = []
    J = edgescenes.J

    def add(name, tier_="quick", wrt=("ij", "colors"), **kw):
        extra = {k: kw.pop(k) for k in ("err", "mask", "what") if k in kw}
        n, d = J(name, mode="line", **kw)
        if tier == "thorough" or tier_ == "quick":
            o.append((n, dict(d, wrt=wrt, **extra)))
    for err in (False, True):
        e = "_error" if err else ""
        add("grad" + e, err=err, flags=(1, 1, 0), line=0)
        add("grad2" + e, err=err, flags=(0, 1, 1), line=2, cw=False, nc=2, integer=False)
        add("tex" + e, err=err, flags=(0, 1, 0), line=1, tex=True, wrt=("ij", "texture"))
        add("tex_uv" + e, err=err, flags=(0, 1, 0), line=0, tex=True, cw=False, wrt=("shade", "uv"))
        add("nomask" + e, err=err, flags=(1, 0, 0), line=0, mask=False)
        add("nosigma" + e, err=err, flags=(1, 0, 1), line=0, sigma="0")
        add("again" + e, err=err, flags=(1, 1, 0), line=0, what="again")
        add("again_tex" + e, "quick" if not err else "thorough", err=err, flags=(0, 1, 0), line=1, what="again", tex=True)
        add("two" + e, err=err, flags=(1, 1, 0), line=0, second="crossflag", what="again")
        add("refuse" + e, err=err, flags=(1, 1, 0), line=0, what="refuse")
        add("T_two" + e, "thorough", err=err, flags=(1, 1, 0), line=0, second="crossflag", n=3)
        add("T_tex" + e, "thorough", err=err, flags=(1, 1, 0), line=1, tex=True, n=3, wrt=("ij", "colors", "shade", "uv", "texture"))
    return o


def run_job(j, wrt, err=False, mask=True, what="grad", **kw):
    R = pysym.module("differentiable_renderer")
    names, build0, pre = edgescenes.scene(**kw)
    h, w, nc = edgescenes.sizes(**kw)
    k = len(names)
    names = list(names) + [f"o{i}" for i in range(h * w * nc)] + ([f"m{i}" for i in range(h * w)] if mask else [])

    def make(v, over=None):
        s = build0(v[:k])
        a = {q: arr(getattr(s, q)) for q in G}
        a["texture"] = a["texture"].reshape(s.texture_height, s.texture_width, nc)
        a.update(over or {})
        sc = R.Scene2D(faces=np.array(s.faces, dtype=np.uint32), faces_uv=np.array(s.faces_uv, dtype=np.uint32), depths=arr(s.depths), textured=np.array(s.textured, dtype=bool),
                       shaded=np.array(s.shaded, dtype=bool), edgeflags=np.array(s.edgeflags, dtype=bool), height=h, width=w, nb_colors=nc, background_color=arr(s.background_color),
                       clockwise=s.clockwise, backface_culling=True, integer_pixel_centers=s.integer_pixel_centers, **a)
        return sc, a, s.sigma

    def fn(v):
        obs = arr(v[k:k + h * w * nc]).reshape(h, w, nc)
        m = arr(v[k + h * w * nc:]).reshape(h, w) if mask else None
        mm = m if mask else arr(np.ones((h, w)))
        sg = F(kw["sigma"]) if pysym.SYM else float(F(kw["sigma"]))
        sc, a, _ = make(v)

        def loss(sc_):
            if err:
                return sc_.render_error(obs, sg)[2] * mm
            return ((sc_.render(sg)[0] - obs) * mm[:, :, None]) ** 2
        if what == "refuse":
            e = []
            for t in (dict(perspective_correct=True), dict(backface_culling=False)):
                s2, _, _ = make(v)
                for q, x in t.items():
                    setattr(s2, q, x)
                e += facts(f"{t} is refused", attempt(lambda: s2.render_compare_and_backward(obs, sg, err, m))[1] is not None, True)
            return e

        def total(q):
            acc = 0
            for x in np.asarray(q, dtype=object).flat:
                acc = acc + x
            return acc

        def grads(sc_):
            return {q: np.array(getattr(sc_, q + "_b"), copy=True) for q in G}
        if what == "grad":
            def fwd(d):
                return [np.asarray(total(loss(make(v, d)[0])), dtype=object).reshape(1)]

            def back(d, ws):
                s2 = make(v, d)[0]
                out.append(s2.render_compare_and_backward(obs, sg, err, m))
                return grads(s2)
            out = []
            if err and not kw["tex"]:
                # the derivative of the error buffer through untextured edges is C11's (with a known finding): here the renderer's own
                back(a, None)
                s2, _, _ = make(v)
                r = s2.render_error(obs, sg)
                R.renderSceneB(s2, sg, *[np.array(q, copy=True) for q in r[:2]], None, True, obs, np.array(r[2], copy=True), np.array(mm, copy=True))
                s3 = make(v)[0]
                s3.render_compare_and_backward(obs, sg, err, m)
                e = []
                for q in G:
                    e += pairs(f"{q}_b", getattr(s3, q + "_b"), getattr(s2, q + "_b"))
            else:
                e = gradient_entries({q: a[q] for q in G}, wrt, fwd, back, [arr([1])])
            image, z, eb, val = out[-1]
            r = sc.render_error(obs, sg) if err else sc.render(sg)
            e += pairs("image", image, r[0]) + pairs("z buffer", np.where(isinf(z), -1, z), np.where(isinf(r[1]), -1, r[1]))
            e += pairs("error buffer", eb, loss(sc)) + [("error", val, total(loss(sc)))]
            return e
        # histories: accumulate over two calls, repeat the back-propagation, leave the buffers alone
        r = sc.render_compare_and_backward(obs, sg, err, m)
        image0 = np.array(r[0], copy=True)
        g1 = grads(sc)
        ref = make(v)[0]
        ri = ref.render_error(obs, sg) if err else ref.render(sg)
        e = pairs("image after back-propagation", image0, ri[0])
        r2 = sc.render_compare_and_backward(obs, sg, err, m, clear_gradients=False)
        for q in G:
            e += pairs(f"{q}_b accumulated", getattr(sc, q + "_b"), 2 * g1[q])
        r3 = sc.render_compare_and_backward(obs, sg, err, m, make_copies=False)
        for q in G:
            e += pairs(f"{q}_b cleared, no copies", getattr(sc, q + "_b"), g1[q])
        e += pairs("first image later", r[0], ri[0]) + pairs("second image later", r2[0], ri[0]) + [("second error", r2[3], r[3]), ("third error", r3[3], r[3])]
        # explicit back-propagation, twice from the same rendering
        b = arr(np.arange(h * w * (1 if err else nc)) + 1).reshape((h, w) if err else (h, w, nc))
        ref.clear_gradients()
        outs = [np.array(q, copy=True) for q in ri]

        def again():
            ref.render_error_backward(np.array(b, copy=True)) if err else ref.render_backward(np.array(b, copy=True))
        again()
        g2 = grads(ref)
        again()
        for q in G:
            e += pairs(f"{q}_b repeated", getattr(ref, q + "_b"), 2 * g2[q])
        for nm, p, q in zip(("image", "z buffer", "error buffer"), ri, outs):
            if nm == "z buffer":
                p, q = np.where(isinf(p), -1, p), np.where(isinf(q), -1, q)
            e += pairs(f"{nm} unchanged by back-propagation", p, q)
        return e

    def isinf(z):
        return np.frompyfunc(lambda x: isinstance(x, float) and x == float("inf"), 1, 1)(np.asarray(z, dtype=object)).astype(bool)
    check(j, names, fn, (lambda v: pre(v[:k])), kinks=True)
