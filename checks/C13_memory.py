"""C13: rendering and back-propagation never access memory outside their arrays, whatever the numbers."""
import os
import subprocess
import tempfile
from fractions import Fraction as F

import build
import irexec
import render
import sym
from edgescenes import SHAPES
from render import Scene2, flat
from sym import Num, Event, INF

NAN = float("nan")
BIG = F(1e300)
BOUNDS = ("one or two triangles (textured, shaded or coloured, all edges flagged or none) on images of 1x1 to 3x3 pixels, textures of 1x1 to 3x2 texels, both windings and clockwise flags, with and without strict edges, "
          "culling and perspective correction; symbolic over all reals up to 1e300 in magnitude (1e60 for coordinates of flagged edges): a whole vertex, a coordinate, the texture coordinates, depths, sigma (also together with one entry that is NaN, an infinity or a "
          "huge double); coordinates of 1e150..1e308 whose products overflow, and of 1e-320..1e-150 whose products underflow, with every result saturated to the range of doubles")
ASSUMPTIONS = ["within the range of doubles arithmetic is exact; divisions by zero, square roots of negatives, infinities and NaN follow IEEE 754 (a zero divisor counts as +0)", "image sides below 32768",
               "sorting uses the libstdc++ implementation that is compiled in, with at most 16 triangles"]
VALUES = {"nan": NAN, "inf": INF, "ninf": -INF, "big": F(1.7e308), "nbig": F(-1.7e308)}


def base(tex=0, n=2, m=None, texsize=(2, 2), cw=True, strict=True, culling=True, persp=False, sigma=F(1), integer=True, two=False, nc=1, flags=1, rev=False, unused=False):
    ij = [[a - F(1, 3), b - F(2, 7)] for a, b in SHAPES["heron"]]
    faces = [[0, 1, 2]]
    if two:
        ij += [[F(-1, 2), F(-1, 4)], [F(11, 5), F(-3, 4)], [F(3, 4), F(13, 4)]]
        faces.append([3, 4, 5])
    if cw == rev:
        faces = [[a, c, b] for a, b, c in faces]
    nv, nt = len(ij), len(faces)
    th, tw = texsize
    return dict(faces=faces, faces_uv=[[0, 1, 2]] * nt, ij=ij, depths=[F(2), F(3), F(5, 2)] + [F(4), F(1), F(6)] * two, uv=[[F(-1, 3), F(1, 2)], [F(2, 3), F(3, 4)], [F(1, 2), F(7, 4)]],
                shade=[F(i + 1, 3) for i in range(nv)], colors=[[F(i + 2 + k) for k in range(nc)] for i in range(nv)], edgeflags=[[flags] * 3] * nt, textured=[tex] + [0] * two, shaded=[tex] + [0] * two,
                texture=[[[F(x + 3 * y + k + 1, 4) for k in range(nc)] for x in range(tw)] for y in range(th)], nb_colors=nc, height=n, width=m or n, clockwise=cw, backface_culling=culling,
                strict_edge=strict, perspective_correct=persp, integer_pixel_centers=integer, sigma=sigma, background_color=[F(1, 7)] * nc)


SLOTS = ["ij00", "ij01", "ij21", "depth0", "uv00", "uv11", "shade0", "color0", "sigma", "tex00", "bg0"]


def put(d, slot, v):
    def at(key, *idx):
        a = d[key] = [list(map(lambda q: list(q) if isinstance(q, list) else q, r)) if isinstance(r, list) else r for r in d[key]]
        for i in idx[:-1]:
            a = a[i]
        a[idx[-1]] = v
    if slot.startswith("ij"):
        at("ij", int(slot[2]), int(slot[3]))
    elif slot.startswith("uv"):
        at("uv", int(slot[2]), int(slot[3]))
    elif slot.startswith("depth"):
        at("depths", int(slot[5]))
    elif slot.startswith("shade"):
        at("shade", int(slot[5]))
    elif slot.startswith("color"):
        at("colors", int(slot[5]), 0)
    elif slot == "sigma":
        d["sigma"] = v
    elif slot == "tex00":
        at("texture", 0, 0, 0)
    elif slot == "bg0":
        at("background_color", 0)


def J(name, sy, sets=(), err=False, mode="", **kw):
    return (name, dict(sy=sy, sets=list(sets), err=err, mode=mode, kw=kw))


def jobs(tier):
    o = []
    T = tier == "thorough"
    for ts in ((1, 1), (1, 3), (3, 1), (2, 2)):
        o.append(J(f"uv_{ts[0]}x{ts[1]}", ["uv00", "uv01"], tex=1, texsize=ts, flags=0))
        o.append(J(f"uvedge_{ts[0]}x{ts[1]}", ["uv00"], tex=1, texsize=ts, strict=ts[0] == 1, persp=ts == (3, 1), n=1 + (ts[0] == 1)))
    for i, slots in enumerate((["ij00", "ij01"], ["ij10", "ij11"], ["ij20", "ij21"])):
        for strict in (True, False):
            o.append(J(f"vertex{i}_s{int(strict)}", slots, strict=strict, n=2, flags=0, culling=strict, tex=int(i == 1)))
    for i, (a, b) in enumerate((("ij00", "depth0"), ("ij11", "sigma"), ("ij20", "uv20"))):
        o.append(J(f"edge{i}", [a], tex=int(i == 2), n=2, cw=i != 1, strict=i != 1))
        o.append(J(f"edgepersp{i}", [a], tex=int(i == 1), n=2, persp=True, cw=i != 0, rev=False))
        if i != 1 or T:
            o.append(J(f"mixed{i}", [a, b], tex=int(i == 2), n=1, m=2, integer=i != 1))
    o += [J("sigma", ["sigma"], tex=1), J("sigma_error", ["sigma"], err=True), J("depth", ["depth0", "depth1"], two=True), J("depth_persp", ["depth0", "depth1"], persp=True, n=1),
          J("error_edge", ["ij00"], err=True), J("error_edge_tex", ["ij01"], err=True, tex=1), J("thin", ["ij00"], n=1, m=3, tex=1), J("tall", ["ij01"], n=3, m=1), J("one", ["ij11"], n=1), J("channels", ["ij10"], n=2, nc=3, tex=1)]
    for k, (v, val) in enumerate(sorted(VALUES.items())):
        for i, slot in enumerate(SLOTS):
            for tex in (0, 1):
                if (slot in ("uv00", "uv11", "shade0", "tex00") and not tex) or (slot == "color0" and tex):
                    continue
                if not T and slot in ("tex00", "bg0", "color0") and v not in ("nan", "inf"):
                    continue
                var = ["ij10", "ij11", "depth1", "ij20"][(i + k) % 4] if slot[:2] in ("ij", "de") else ["sigma" if slot != "sigma" else "depth0", "depth1", "depth2"][(i + k) % 3]
                o.append(J(f"{slot}_{v}_t{tex}", [var], [(slot, v)], tex=tex, strict=(i + k + tex) % 2 == 0, cw=(i + k) % 3 != 0, err=(i + k) % 5 == 4, n=2))
                if slot[:2] in ("ij", "de") or T:
                    o.append(J(f"{slot}_{v}_t{tex}_persp", [var], [(slot, v)], tex=tex, strict=(i + k + tex) % 2 == 1, culling=(i + k) % 2 == 0, persp=True, n=2, cw=k % 2 == 0))
    for i, (a, b) in enumerate((("ij00", "ij11"), ("ij01", "ij20"))):
        for v in ("nan", "inf", "ninf"):
            for w in ("inf", "nan"):
                o.append(J(f"pair{i}_{v}_{w}", ["ij21" if i == 0 else "ij10"], [(a, v), (b, w)], tex=i, culling=i == 0))
    for i, sc in enumerate(("1e155", "1e300", "1e-160", "1e-310")):
        o.append(J(f"range_{sc}", ["sigma"], mode=sc, tex=i % 2, n=2))
        o.append(J(f"rangenoedge_{sc}", ["ij01"], mode=sc, tex=1 - i % 2, flags=0, strict=i >= 2, n=2))
    if T:
        for i, slots in enumerate((["ij00", "ij01"], ["ij10", "ij11"], ["ij20", "ij21"])):
            for tex in (0, 1):
                o.append(J(f"T_vertex{i}_t{tex}", slots, n=3, flags=0, tex=tex, strict=tex == 0))
                o.append(J(f"T_vertexedge{i}_t{tex}", slots, n=1, tex=tex, strict=tex == 1))
            o.append(J(f"T_edge{i}", [slots[0]], n=3, two=True, tex=1))
            o.append(J(f"T_edge{i}_y", [slots[1]], n=3, two=True, tex=1, cw=False))
    return o


def problems(values):
    return [k for k, v in values.items() if any(x is irexec.UNDEF for x in v)]


def build_scene(kw, sets, sy, mode, v):
    d = base(**kw)
    scale = F(float(mode)) if mode else 1
    if mode:
        d["ij"] = [[q * scale for q in p] for p in d["ij"]]
    for slot, val in sets:
        put(d, slot, VALUES[val])
    for slot, x in zip(sy, v):
        put(d, slot, x * scale if mode and slot.startswith("ij") else x)
    return Scene2(**d)


def execute(s, err):
    """forward then backward; the values that the caller gets"""
    n = s.height * s.width
    obs = [[[F(1, 2)] * s.nb_colors for _ in range(s.width)] for _ in range(s.height)] if err else None
    o = render.ir_forward(s, obs)
    out = dict(image=o.image, z=o.z)
    if err:
        out["err"] = o.err
    if not s.perspective_correct and s.backface_culling and not problems(out):
        b = render.ir_backward(s, o.image, o.z, None if err else [F(1)] * (n * s.nb_colors), obs, o.err, [F(1)] * n if err else None)
        out.update({k + "_b": getattr(b, k + "_b") for k in ("uv", "ij", "shade", "colors", "texture")})
    return out


def run_job(j, sy, sets, err, mode, kw):
    irexec.set_mode(ieee=True, overflow=bool(mode) or any(v.endswith("big") and q.startswith("ij") for q, v in sets))

    def prog(vx):
        s = build_scene(kw, sets, sy, mode, vx)
        return s, execute(s, err)

    def check(path, res):
        s, out = res
        path.q.stats.add("obligations")
        bad = problems(out)
        if bad:
            return report(path, f"{', '.join(bad)} contains values that were never written")
        path.q.stats.add("discharged")
        j.sample({"path_witness": [str(x) for x in path.ctx.witness], "branches": len(path.ctx.lits)})
        if len(path.ctx.lits) % 5 == 0:
            nat = render.native(s.at(path.ctx.witness), None)
            j.trace(nat.rc == 0)
        return None

    def report(path, what):
        points = [path.q.interior(path.lits()), path.ctx.witness] + path.q.dyadic(path.lits())
        for w in points:
            if w is None:
                continue
            try:
                s = build_scene(kw, sets, sy, mode, [sym.value_at(v, w) for v in e.vars])
                m = sanitized(s, err)
            except (OverflowError, ValueError, TypeError):
                continue
            if m:
                return j.violation(f"{j.name}:{what[:40]}", f"{what}; sanitizer: {m}", dict(scene=s.describe(), error_mode=err), True)
        s = build_scene(kw, sets, sy, mode, [sym.value_at(v, path.ctx.witness) for v in e.vars])
        return j.violation(f"{j.name}:{what[:40]}", what, dict(scene=s.describe(), error_mode=err), False)

    def on_cut(path, cut):
        if isinstance(cut, (Event, irexec.UBEvent)):
            return report(path, f"{type(cut).__name__}: {cut}")
        return None

    def pre(v):
        o = []
        for slot, x in zip(sy, v):
            big = F(10) ** 60 if slot.startswith("ij") and kw.get("flags", 1) else BIG
            o += [(x - big, "<"), (x + big, ">")] if not mode else [(x - 10, "<"), (x - 1, ">")]
        return o

    e = j.explorer(sy, pre)
    if e.run(prog, check, on_cut) is False:
        j.incomplete.append(j.name)


def sanitized(s, err):
    """run the scene under the sanitizers -> what they report, or None"""
    def a(x):
        f = flat(x)
        return [str(len(f))] + [repr(float(q)) if not isinstance(q, (int, bool)) else str(int(q)) for q in f]
    t = []
    for k in ("faces", "faces_uv", "depths", "uv", "ij", "shade", "colors", "edgeflags", "textured", "shaded"):
        t += a(getattr(s, k))
    t += [str(int(x)) for x in (len(s.faces), len(s.ij), s.clockwise, s.backface_culling, len(s.uv), s.height, s.width, s.nb_colors)]
    t += a(s.texture) + [str(s.texture_height), str(s.texture_width), "-1"] + a(s.background_color)
    t += [str(int(x)) for x in (s.strict_edge, s.perspective_correct, s.integer_pixel_centers)] + [repr(float(s.sigma))]
    n = s.height * s.width
    back = not s.perspective_correct and s.backface_culling
    t += (a([0.5] * (n * s.nb_colors)) if err else ["-1"]) + (["-1"] if err else a([1.0] * (n * s.nb_colors))) + (a([1.0] * n) if err else ["-1"]) + [str(int(back))]
    with tempfile.TemporaryDirectory(prefix="vf_asan") as d:
        p = os.path.join(d, "scene")
        with open(p, "w") as f:
            f.write(" ".join(t))
        for exe in build.sanitized_paths():
            try:
                r = subprocess.run([exe, p], capture_output=True, text=True, timeout=60, env={"ASAN_OPTIONS": "detect_leaks=0", "PATH": "/usr/bin:/bin"})
            except subprocess.TimeoutExpired:
                return "does not terminate within 60 s"
            if r.returncode in (97, 98):
                return "an exception was thrown"
            if r.returncode:
                lines = [ln.strip() for ln in r.stderr.splitlines() if "ERROR" in ln or "WARNING" in ln or "runtime error" in ln or "#1" in ln]
                return " ".join(lines[:2])[:300] or f"exit {r.returncode}"
    return None
