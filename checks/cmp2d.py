"""forward comparison of the executed renderer with the reference, shared by C03-C08"""
from fractions import Fraction as F

import ref2d
import render
from geom import close, isinf
from sym import Num, Cut, Event, INF


def differs(a, b):
    """list of differences that must be proved zero; True when they can not be equal"""
    sa, sb = isinstance(a, float) and not (a == a and abs(a) != INF), isinstance(b, float) and not (b == b and abs(b) != INF)
    if sa or sb:
        return None if (sa and sb and a == b) else True
    return a - b


def pixels(s):
    return [(x, y) for y in range(s.height) for x in range(s.width)]


def concrete_mismatch(c, obs, only=None, tol=1e-7):
    """compare the native renderer with the reference on a concrete scene -> description or None"""
    nat = render.native(c, obs)
    r = ref2d.Ref(c, obs, exact=False)
    if nat.rc:
        return "the renderer threw an exception"
    for x, y in pixels(c):
        try:
            img, z, err = r.pixel(x, y)
        except ref2d.Skip:
            continue
        i = y * c.width + x
        for k in range(c.nb_colors):
            if obs is None and not close(nat.image[i * c.nb_colors + k], img[k], tol):
                return f"pixel ({x},{y}) channel {k} is {nat.image[i * c.nb_colors + k]} instead of {float(img[k])}"
        if not close(nat.z[i], z, tol):
            return f"depth at pixel ({x},{y}) is {nat.z[i]} instead of {float(z)}"
        if obs is not None and not close(nat.err[i], err, tol):
            return f"error at pixel ({x},{y}) is {nat.err[i]} instead of {float(err)}"
    return None


def evo(obs, w):
    if obs is None:
        return None
    import sym
    return [[[sym.value_at(v, w) for v in c] for c in row] for row in obs]


def forward_check(j, names, build, pre=None, obs=None, extra=None, max_paths=100000):
    """build(vars) -> scene or (scene, obs)"""
    def prog(vx):
        b = build(vx)
        s, ob = b if isinstance(b, tuple) else (b, None)
        return s, ob, render.ir_forward(s, ob)

    def check(path, res):
        s, ob, o = res
        r = ref2d.Ref(s, ob)
        nsk = 0
        for x, y in pixels(s):
            i = y * s.width + x
            try:
                img, z, err = r.pixel(x, y)
            except ref2d.Skip:
                nsk += 1
                continue
            ds = [differs(o.z[i], z)]
            if ob is None:
                ds += [differs(o.image[i * s.nb_colors + k], img[k]) for k in range(s.nb_colors)]
            else:
                ds.append(differs(o.err[i], err))
            neg = True in [d is True for d in ds]
            f = path.prove([[]], "value") if neg else path.prove_zero([d for d in ds if d is not None], "value")
            if f is not None:
                return report(path, s, ob, f[1], (x, y))
        path.q.stats.add("open_pixels", nsk)
        j.sample({"path_witness": [str(q) for q in path.ctx.witness], "branches": len(path.ctx.lits), "undetermined_pixels": nsk})
        if len(path.ctx.lits) % 3 == 0:
            c = s.at(path.ctx.witness)
            j.trace(concrete_mismatch(c, evo(ob, path.ctx.witness)) is None)
        if extra is not None:
            return extra(path, s, ob, o, r)
        return None

    def report(path, s, ob, wit, px):
        for w in (wit, path.q.interior(path.lits()), path.ctx.witness):
            if w is None:
                continue
            c = s.at(w)
            oc = evo(ob, w)
            m = concrete_mismatch(c, oc)
            if m:
                return j.violation(f"{j.name}:{px[0]},{px[1]}", m, dict(scene=c.describe(), obs=oc), True)
        c = s.at(wit)
        return j.violation(f"{j.name}:{px[0]},{px[1]}", f"value at pixel {px}", dict(scene=c.describe(), witness=[str(q) for q in wit]), False)

    def on_cut(path, cut):
        if isinstance(cut, Event):
            # the renderer misbehaves on this path: the outcome must still be right
            b = build(e.vars)
            s, ob = b if isinstance(b, tuple) else (b, None)
            for w in (path.q.interior(path.lits()), path.ctx.witness):
                if w is None:
                    continue
                m = concrete_mismatch(s.at(w), evo(ob, w))
                if m:
                    return j.violation(f"{j.name}:event", m, dict(scene=s.at(w).describe()), True)
            return j.violation(f"{j.name}:event", f"{type(cut).__name__}: {cut}", dict(scene=s.at(path.ctx.witness).describe()), False)
        return None

    e = j.explorer(names, pre, max_paths=max_paths)
    if e.run(prog, check, on_cut) is False:
        j.incomplete.append(j.name)
    return e
