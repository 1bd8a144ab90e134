"""adjoint identity of renderScene_B against the derivative of the executed forward rendering (dual numbers)"""
from fractions import Fraction as F

import render
import sym
from cmp2d import pixels
from geom import close
from render import Scene2, flat
from sym import Num, RF1, rf_add, rf_mul, rf_neg, lift, Event

GROUPS = ("ij", "colors", "shade", "uv", "texture")


def dual_scene(s, wrt):
    """copy of s whose differentiable inputs carry one tangent each; returns (scene, [(group, flat index, tangent id)])"""
    d = Scene2.__new__(Scene2)
    d.__dict__.update(s.__dict__)
    idx = []

    def seed(x, g, cnt):
        if isinstance(x, (list, tuple)):
            return [seed(y, g, cnt) for y in x]
        t = len(idx)
        idx.append((g, cnt[0], t))
        cnt[0] += 1
        v = x.v if isinstance(x, Num) else lift(x)
        return Num(v, {t: RF1})
    for g in wrt:
        setattr(d, g, seed(getattr(s, g), g, [0]))
    return d, idx


def strip(x):
    if isinstance(x, Num) and x.t:
        return Num(x.v).simp()
    return x


def tangent(x, t):
    if isinstance(x, Num) and x.t and t in x.t:
        return Num(x.t[t]).simp()
    return 0


def has_equality(path):
    return any(tuple(sg) == (0,) for p, sg in path.ctx.lits)


def numeric_grad(c, w, obs, g, i, h=1e-6):
    """central finite differences of the native rendering (replay only)"""
    vals = []
    for sgn in (1, -1):
        d = Scene2.__new__(Scene2)
        d.__dict__.update(c.__dict__)
        fl = [float(v) for v in flat(getattr(c, g))]
        fl[i] += sgn * h
        setattr(d, g, fl)      # flat lists are accepted by render.native
        o = render.native(d, obs)
        vals.append(sum(a * float(b) for a, b in zip(o.err if obs is not None else o.image, w)))
    return (vals[0] - vals[1]) / (2 * h)


def check_gradients(j, names, build, wrt, pre=None, known=None, max_paths=100000, tol=2e-4):
    """build(v) -> (scene, w, obs): w the incoming gradient (of the image, or of the error when obs is given)"""
    def prog(v):
        s, w, obs = build(v)
        d, idx = dual_scene(s, wrt)
        o = render.ir_forward(d, obs)
        image, z = [strip(x) for x in o.image], [strip(x) for x in o.z]
        if obs is None:
            g = render.ir_backward(s, image, z, image_b=w)
            out = o.image
        else:
            g = render.ir_backward(s, image, z, obs=obs, err=[strip(x) for x in o.err], err_b=w)
            out = o.err
        return s, w, obs, idx, out, g

    def expected(idx, out, w):
        e = {}
        for grp, i, t in idx:
            acc = 0
            for a, b in zip(out, flat(w)):
                ta = tangent(a, t)
                if isinstance(ta, Num) or ta:
                    acc = acc + ta * b
            e[(grp, i)] = acc
        return e

    def check(path, res):
        s, w, obs, idx, out, g = res
        e = expected(idx, out, w)
        j.sample({"path_witness": [str(q) for q in path.ctx.witness], "derivatives": len(e), "branches": len(path.ctx.lits)})
        for (grp, i), x in e.items():
            got = getattr(g, grp + "_b")[i]
            if isinstance(got, float) and got != got:
                f = path.prove([[]], "nan gradient")
            else:
                f = path.prove_zero([got - x], f"{grp}_b[{i}]")
            if f is None:
                continue
            if has_equality(path) and not (isinstance(got, float) and got != got):
                path.q.stats.add("open_boundary_paths")
                break
            if known is not None:
                k = known(path, s, w, obs, grp, i, got, x)
                if k is not None:
                    j.violation(k, "", {}, False)
                    if k in j.known:
                        continue
                if has_equality(path):      # decisions of the known-finding formula may have narrowed the path to a boundary
                    path.q.stats.add("open_boundary_paths")
                    break
            r = report(path, s, w, obs, grp, i, f[1])
            if r is not None:
                return r
            break
        n = path.q.stats.get("paths", 0)
        if n % 7 == 1 and not has_equality(path):
            wit = path.q.interior(path.lits())
            if wit is not None:
                bad = native_mismatch(s, w, obs, wit, {k: sym.value_at(getattr(g, k[0] + "_b")[k[1]], wit) for k, x in e.items()})
                j.trace(bad is None)
                if bad is not None:
                    bad = native_mismatch(s, w, obs, wit, {k: sym.value_at(x, wit) for k, x in e.items()})
                if bad is not None:
                    return j.violation(f"{j.name}:native:{bad[0]}", f"the gradient {bad[0]}_b[{bad[1]}] computed by the compiled renderer is {bad[2]} instead of {bad[3]}",
                                       dict(scene=s.at(wit).describe()), True)
        return None

    def conc(s, w, obs, wit):
        ev = lambda x: [ev(y) for y in x] if isinstance(x, (list, tuple)) else float(sym.value_at(x, wit))
        return s.at(wit), ev(flat(w)), ev(obs) if obs is not None else None

    def native_mismatch(s, w, obs, wit, exp):
        c, wc, oc = conc(s, w, obs, wit)
        n = render.native(c, oc, backward=dict(err_b=wc) if obs is not None else dict(image_b=wc))
        scale = 1 + max(abs(float(v)) for v in exp.values())
        for (grp, i), x in exp.items():
            a = getattr(n, grp + "_b")[i]
            if not abs(a - float(x)) <= 1e-6 * scale:
                return grp, i, a, float(x)
        return None

    def report(path, s, w, obs, grp, i, wit):
        for p in (wit, path.q.interior(path.lits()), path.ctx.witness):
            if p is None:
                continue
            c, wc, oc = conc(s, w, obs, p)
            n = render.native(c, oc, backward=dict(err_b=wc) if obs is not None else dict(image_b=wc))
            a = getattr(n, grp + "_b")[i]
            fd = numeric_grad(c, wc, oc, grp, i)
            fd2 = numeric_grad(c, wc, oc, grp, i, 3e-7)
            if a != a or n.rcb or (abs(fd - fd2) < tol * (1 + abs(fd)) and abs(a - fd) > 5 * tol * (1 + abs(fd))):
                return j.violation(f"{j.name}:{grp}", f"gradient {grp}_b[{i}] is {a}, the derivative is {fd}", dict(scene=c.describe(), w=wc, obs=oc), True)
        # all interior points of the path reproduce neither: try generic incoming gradients and colours
        return j.violation(f"{j.name}:{grp}", f"gradient {grp}_b[{i}]", dict(scene=s.at(wit).describe(), witness=[str(q) for q in wit]), False)

    def on_cut(path, cut):
        # a division by zero or an abnormal event: the gradients must still be finite numbers
        s, w, obs = build(e.vars)
        for p in (path.ctx.witness, path.q.interior(path.lits())):
            if p is None:
                continue
            c, wc, oc = conc(s, w, obs, p)
            n = render.native(c, oc, backward=dict(err_b=wc) if obs is not None else dict(image_b=wc))
            for grp in wrt:
                for i, a in enumerate(getattr(n, grp + "_b")):
                    if a != a or abs(a) == float("inf"):
                        return j.violation(f"{j.name}:nan", f"gradient {grp}_b[{i}] is {a} ({cut})", dict(scene=c.describe(), w=wc), True)
        if isinstance(cut, Event):
            return j.violation(f"{j.name}:event", f"{type(cut).__name__}: {cut}", dict(scene=s.at(path.ctx.witness).describe()), False)
        return None

    e = j.explorer(names, pre, max_paths=max_paths)
    if e.run(prog, check, on_cut) is False:
        j.incomplete.append(j.name)
    return e
