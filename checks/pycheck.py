"""checks of Python functions: the real function is executed on symbolic numpy arrays and compared with the statement of the property"""
import math
from fractions import Fraction as F

import numpy as np

import pysym
import sym
from sym import Num, RF1, Cut, Event, Unsupported

TOL = 1e-6


class Raised(Exception):
    pass


class Outside(Exception):
    """the code does something that has no encoding"""


def arr(x):
    """array of the inputs: exact object array in symbolic mode, floats in concrete mode"""
    if pysym.SYM:
        return pysym.obj(np.asarray(x, dtype=object))
    return np.array([float(q) for q in np.asarray(x, dtype=object).flat], dtype=np.float64).reshape(np.shape(x))


def flat(a):
    return list(np.asarray(a, dtype=object).reshape(-1))


def pairs(name, got, exp):
    """entries of two arrays that must agree (also in shape)"""
    g, e = np.asarray(got), np.asarray(exp)
    if g.shape != e.shape:
        return [(f"{name} has shape {g.shape} instead of {e.shape}", 0, 1)]
    return [(f"{name}{list(i)}" if g.ndim else name, g[i], e[i]) for i in np.ndindex(*g.shape)]


def facts(name, got, exp):
    """arrays of plain (non symbolic) values"""
    g, e = np.asarray(got), np.asarray(exp)
    ok = g.shape == e.shape and bool(np.all(g == e))
    return [(f"{name} is {g.tolist() if g.size < 40 else '...'} instead of {e.tolist() if e.size < 40 else '...'}", bool(ok), "bool")]


def neg_of(x, y):
    """violations of one entry as solver literals: list of conjunctions"""
    if isinstance(y, str) and y == "bool":
        return [] if x else [[]]
    if isinstance(y, str):
        if not isinstance(x, Num):
            ok = {">": x > 0, ">=": x >= 0, "<": x < 0, "<=": x <= 0}[y]
            return [] if ok else [[]]
        import paths
        inv = {">": "<=", ">=": "<", "<": ">=", "<=": ">"}[y]
        return [[paths.cmp_lit(x, inv)]]
    d = x - y
    if not isinstance(d, Num):
        return [] if d == 0 else [[]]
    if not d.v[0]:
        return []
    if d.is_const():
        return [[]] if d.v[0].get(0, 0) != 0 else []
    return [[(d.v[0], (-1, 1))]]


def bad_concrete(entries, tol=TOL):
    for e in entries:
        name, x, y = e
        if isinstance(y, str):
            if y == "bool":
                if not x:
                    return name
                continue
            x = float(x)
            if not {">": x > -tol, ">=": x >= -tol, "<": x < tol, "<=": x <= tol}[y]:
                return f"{name}: {x} should be {y} 0"
            continue
        x, y = float(x), float(y)
        if not (x == y or abs(x - y) <= tol * (1 + abs(x) + abs(y))):
            return f"{name} is {x} instead of {y}"
    return None


def check(j, names, fn, pre=None, max_paths=20000, tol=TOL, describe=None, every=3, kinks=False):
    """fn(v) -> list of (name, value, expected) / (name, value, rel) / (name, truth, "bool"); run symbolically and, for
    replays, on floats.  Returns after every path is decided.
    kinks: derivatives are left open on paths on which some comparison holds with equality"""

    def concrete(w):
        # a replay on rounded inputs: preconditions written as equalities are kept by building everything from v
        with pysym.concrete():
            try:
                return bad_concrete(fn([float(x) for x in w[:len(names)]]), tol)
            except (Cut, Event, Unsupported):
                raise
            except Exception as ex:
                return f"raises {type(ex).__name__}: {str(ex)[:200]}"

    def prog(v):
        with pysym.symbolic():
            try:
                return fn(list(v))
            except (Cut, Event):
                raise
            except Unsupported as ex:
                import traceback
                return Outside(f"{ex}\n{traceback.format_exc()[-1200:]}")
            except Exception as ex:
                import traceback
                return Raised(f"{type(ex).__name__}: {ex}\n{traceback.format_exc()[-1500:]}")

    def points(path, extra=()):
        out = []
        w = path.q.interior(path.lits(), extra)
        if w is not None:
            out.append(w)
        out += path.q.dyadic(path.lits() + list(extra)) if not out else []
        out.append(path.ctx.witness)
        return out

    def data(w):
        return dict(inputs={n: float(x) for n, x in zip(names, w)}, **(describe or {}))

    def chk(path, res):
        n = path.q.stats.get("paths", 0)
        if isinstance(res, Outside):      # no verdict, unless the property visibly fails there
            for w in points(path):
                c = concrete(w)
                if c is not None:
                    return j.violation(f"{j.name}:outside", c, data(w), True)
            raise Unsupported(str(res))
        if isinstance(res, Raised):
            for w in points(path):
                c = concrete(w)
                if c is not None:
                    return j.violation(f"{j.name}:raise", c, data(w), True)
            raise RuntimeError("the code raised only in symbolic mode: " + str(res))
        j.sample({"witness": [str(x) for x in path.ctx.witness][:12], "entries": len(res), "branches": len(path.ctx.lits)})
        for e in res:
            neg = neg_of(e[1], e[2])
            if not neg:
                path.q.stats.add("obligations")
                path.q.stats.add("discharged")
                continue
            f = path.prove(neg, e[0])
            if f is None:
                continue
            if kinks and e[0].startswith("gradient of") and any(tuple(sg) == (0,) for _, sg in path.ctx.lits):
                path.q.stats.add("open_boundary_entries")
                continue
            for conj in neg:
                cands = [f[1]]
                for p, sg in conj:
                    for s in sg:
                        if s:
                            cands += points(path, [(p, (s,))])
                for w in cands:
                    c = concrete(w)
                    if c is not None:
                        return j.violation(f"{j.name}:{e[0][:24]}", c, data(w), True)
            r = j.violation(f"{j.name}:{e[0][:24]}", e[0], data(f[1]), False)
            if r is not None:
                return r
        if n % every == 1 or n < 4:
            for w in points(path)[:1]:
                c = concrete(w)
                j.trace(c is None)
                if c is not None and path.q.interior(path.lits()) is not None:
                    return j.violation(f"{j.name}:native", c, data(w), True)
        return None

    def on_cut(path, cut):
        if isinstance(cut, Event):
            raise cut
        return None

    def pre2(v):
        with pysym.symbolic():
            return pre(v)
    pysym.load()
    e = j.explorer(names, pre2 if pre else None, max_paths=max_paths)
    if e.run(prog, chk, on_cut) is False:
        j.incomplete.append(j.name)
    return e


def seed(arrays):
    """{name: array} -> ({name: array with one tangent per entry}, [(name, index, tangent)])"""
    out, idx = {}, []
    for k, a in arrays.items():
        b = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            idx.append((k, i, len(idx)))
            v = pysym.N(a[i])
            b[i] = Num(v.v, {len(idx) - 1: RF1})
        out[k] = b
    return out, idx


def strip(a):
    return np.frompyfunc(lambda x: Num(x.v) if isinstance(x, Num) else x, 1, 1)(np.asarray(a, dtype=object)).astype(object)


def tangent(x, t):
    if isinstance(x, Num) and x.t and t in x.t:
        return Num(x.t[t])
    return 0


def gradient_entries(inputs, wrt, forward, backward, ws, h=1e-6):
    """entries stating that backward(inputs, ws) is the derivative of sum(ws*forward(inputs)) for the inputs named in wrt.
    inputs: {name: array}; forward(inputs) -> list of arrays; backward(inputs, ws) -> {name: array}"""
    if pysym.SYM:
        d = dict(inputs)
        s, idx = seed({k: inputs[k] for k in wrt})
        d.update(s)
        outs = forward(d)
        exp = {k: np.empty(inputs[k].shape, dtype=object) for k in wrt}
        for k, i, t in idx:
            acc = pysym.N(0)
            for o, w in zip(outs, ws):
                o, w = np.asarray(o, dtype=object), np.asarray(w, dtype=object)
                assert o.shape == w.shape, (o.shape, w.shape)
                for q, ww in zip(o.flat, w.flat):
                    tt = tangent(q, t)
                    if isinstance(tt, Num):
                        acc = acc + tt * ww
            exp[k][i] = acc
    else:
        exp = {}
        for k in wrt:
            g = np.zeros(inputs[k].shape)
            for i in np.ndindex(*g.shape):
                est = []
                for hh in (h, h / 3):
                    val = []
                    for s in (1, -1, 0):
                        d = {q: w.copy() if isinstance(w, np.ndarray) else w for q, w in inputs.items()}
                        d[k][i] += s * hh
                        val.append(sum(float(np.sum(np.asarray(o, dtype=np.float64) * w)) for o, w in zip(forward(d), ws)))
                    est.append((val[0] - val[1]) / (2 * hh))
                    if abs(val[0] + val[1] - 2 * val[2]) > hh * 1e-3 * (1 + abs(est[-1])):      # a kink or a jump
                        est = [0, float("inf")]
                        break
                g[i] = est[0] if abs(est[0] - est[1]) <= 1e-4 * (1 + abs(est[0])) else float("nan")
            exp[k] = g
    got = backward(inputs, ws)
    out = []
    for k in wrt:
        for nm, a, b in pairs(f"gradient of {k}", got[k], exp[k]):
            if not pysym.SYM:
                if b != b:
                    continue              # not differentiable at this point
                if abs(a - b) <= 2e-4 * (1 + abs(b)):
                    a = b
            out.append((nm, a, b))
    return out


def attempt(fn):
    """(result, exception): exceptions of the checked code become values (the library raises BaseException)"""
    try:
        return fn(), None
    except (Cut, Event, Unsupported, KeyboardInterrupt, SystemExit, GeneratorExit):
        raise
    except BaseException as ex:
        return None, ex
