"""Path exploration (generational search) and obligations decided by z3 (cvc5 as second opinion on unknown).

explore(): executes the program on a witness, then asks the solver for an input of every unexplored sibling
branch; when the work list is empty and no query was inconclusive, the explored paths cover every input that
satisfies the preconditions.  At the end of each path the property is decided for *all* inputs of the path by
asking the solver for  path /\\ not property.
"""
import os
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

import sym  # noqa: E402
from sym import VT, Num, Ctx, Cut, Event, pvars, primitive, is_const  # noqa: E402

ALL = (-1, 0, 1)


class Stats(dict):
    def add(self, k, v=1):
        self[k] = self.get(k, 0) + v

    def merge(self, o):
        for k, v in o.items():
            if isinstance(v, (int, float)):
                self[k] = self.get(k, 0) + v
            elif isinstance(v, list):
                self.setdefault(k, [])
                self[k] += v
            elif isinstance(v, dict):
                self.setdefault(k, Stats())
                Stats.merge(self[k], v)


def zvar(i):
    v = VT.z3[i]
    if v is None:
        v = z3.Real(f"{VT.names[i]}!{i}")
        VT.z3[i] = v
    return v


def zpoly(p):
    key = frozenset(p.items())
    e = VT.z3cache.get(key)
    if e is not None:
        return e
    terms = []
    for m, c in p.items():
        k = z3.RealVal(str(c)) if c != 1 or m == 0 else None
        fs = [] if k is None else [k]
        i = 0
        while m:
            ex = m & 0xFF
            for _ in range(ex):
                fs.append(zvar(i))
            m >>= 8
            i += 1
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    e = z3.Sum(terms) if len(terms) > 1 else terms[0] if terms else z3.RealVal(0)
    VT.z3cache[key] = e
    return e


def zlit(p, signs):
    key = (frozenset(p.items()), tuple(sorted(signs)))
    f = VT.z3cache.get(key)
    if f is None:
        f = VT.z3cache[key] = _zlit(p, key[1])
    return f


def _zlit(p, s):
    e = zpoly(p)
    if s == (-1,):
        return e < 0
    if s == (1,):
        return e > 0
    if s == (0,):
        return e == 0
    if s == (-1, 0):
        return e <= 0
    if s == (0, 1):
        return e >= 0
    if s == (-1, 1):
        return e != 0
    if s == ():
        return z3.BoolVal(False)
    return z3.BoolVal(True)


def linear(p):
    for m in p:
        if m == 0:
            continue
        # single variable with exponent one
        if m & (m - 1) or (m.bit_length() - 1) % 8:
            return False
    return True


_U = {}


def univar(p):
    """(variable, root) when p is a*x+b"""
    n = len(p)
    if n > 2 or (n == 2 and 0 not in p):
        return None
    m = max(p)
    if m == 0 or m & (m - 1) or (m.bit_length() - 1) % 8:
        return None
    return m, Fraction(-p.get(0, 0)) / p[m], p[m] > 0


def _range(u, signs):
    """solution set of a*x+b having one of the signs, as (lo, lo open, hi, hi open) (hull)"""
    m, r, pos = u
    s = signs if pos else tuple(-v for v in signs)
    lo = None if -1 in s else (r, 0 not in s)
    hi = None if 1 in s else (r, 0 not in s)
    return lo, hi


def _narrow(box, p, signs):
    u = univar(p)
    if u is None:
        return
    lo, hi = _range(u, signs)
    a, b = box.get(u[0], (None, None))
    if lo is not None and (a is None or lo > a):
        a = lo
    if hi is not None and (b is None or hi[0] < b[0] or (hi[0] == b[0] and hi[1])):
        b = hi
    box[u[0]] = (a, b)


def _excluded(box, p, signs):
    """no value in the box gives p one of the signs"""
    u = univar(p)
    if u is None or u[0] not in box:
        return False
    a, b = box[u[0]]
    m, r, pos = u
    s = signs if pos else tuple(-v for v in signs)
    # position of the interval with respect to the root
    if 1 in s and (b is None or b[0] > r):
        return False
    if -1 in s and (a is None or a[0] < r):
        return False
    if 0 in s and (a is None or a[0] < r or (a[0] == r and not a[1])) and (b is None or b[0] > r or (b[0] == r and not b[1])):
        return False
    return True


_MON = {}


def _mono(m):
    """variable standing for a monomial (the monomial itself for a single variable)"""
    v = _MON.get(m)
    if v is None:
        if not (m & (m - 1)) and not (m.bit_length() - 1) % 8:
            v = zvar((m.bit_length() - 1) // 8)
        else:
            v = z3.Real(f"mon!{m}")
        _MON[m] = v
    return v


def abstracted(lits):
    """linear relaxation: every monomial is an independent variable (even powers are not negative)"""
    fs, mons = [], set()
    for p, s in lits:
        e = z3.Sum([z3.RealVal(str(c)) * _mono(m) if m else z3.RealVal(str(c)) for m, c in p.items()])
        mons.update(m for m in p if m)
        s = tuple(sorted(s))
        fs.append({(-1,): e < 0, (1,): e > 0, (0,): e == 0, (-1, 0): e <= 0, (0, 1): e >= 0, (-1, 1): e != 0, (): z3.BoolVal(False)}.get(s, z3.BoolVal(True)))
    for m in mons:
        q, even = m, True
        while q:
            if q & 1:
                even = False
                break
            q >>= 8
        if even:
            fs.append(_mono(m) >= 0)
    return fs


def sqvars_closure(polys):
    need = set()
    todo = []
    for p in polys:
        todo += [i for i in pvars(p) if i in VT.sq]
    while todo:
        i = todo.pop()
        if i in need:
            continue
        need.add(i)
        todo += [j for j in pvars(VT.sq[i]) if j in VT.sq]
    return need


class Query:
    """solver front end with statistics"""

    def __init__(self, stats, timeout=20000):
        self.stats = stats
        self.timeout = timeout
        self.inconclusive = []

    def _model(self, m, nvars, lits):
        w = []
        exact = True
        for i in range(nvars):
            if i in VT.sq:
                w.append(None)
                continue
            v = m.eval(zvar(i), model_completion=True)
            if z3.is_rational_value(v):
                w.append(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            elif z3.is_algebraic_value(v):
                a = v.approx(40)
                w.append(Fraction(a.numerator_as_long(), a.denominator_as_long()))
                exact = False
            else:
                w.append(Fraction(0))
        return w, exact

    def solve(self, lits, extra=(), what="branch"):
        """lits: list of (poly, signs); extra: z3 formulas.  -> ('sat', witness) | ('unsat',None) | ('unknown',None)"""
        polys = [p for p, s in lits]
        t = time.time()
        sq = sqvars_closure(polys)
        lin = not sq and all(linear(p) for p in polys) and not extra
        fs = [zlit(p, s) for p, s in lits]
        for i in sq:
            fs.append(zvar(i) * zvar(i) == zpoly(VT.sq[i]))
            fs.append(zvar(i) >= 0)
        fs += list(extra)
        nv = len(VT.names)
        res = z3.unknown
        m = None
        tries = ["default"] if lin else ["nlsat", "default", "cvc5"]
        if not lin and not extra and len(lits) > 1 and sum(len(p) for p in polys) < 6000:
            # most queries are easy for nlsat; otherwise the linear relaxation often suffices
            q0 = z3.Tactic("qfnra-nlsat").solver()
            q0.set("timeout", 150)
            q0.add(fs)
            try:
                res = q0.check()
            except z3.Z3Exception:
                res = z3.unknown
            if res == z3.sat:
                m = q0.model()
            if res != z3.unknown:
                tries = []
            ss = z3.SolverFor("QF_LRA")
            ss.set("timeout", 1500)
            try:
                if tries:
                    ss.add(abstracted(lits))
                if tries and ss.check() == z3.unsat:
                    self.stats.add("queries")
                    self.stats.add("q_" + what)
                    self.stats.add("linear_relaxation_unsat")
                    self.stats.add("solver_s", time.time() - t)
                    return "unsat", None
            except z3.Z3Exception:
                pass
        for k in tries:
            if k == "cvc5":
                r = self._cvc5(fs)
                res = r
                if r == z3.unsat:
                    break
                continue
            s = z3.Solver() if k == "default" else z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", self.timeout)
            s.add(fs)
            try:
                res = s.check()
            except z3.Z3Exception:
                res = z3.unknown
            if res == z3.sat:
                m = s.model()
                break
            if res == z3.unsat:
                break
        dt = time.time() - t
        self.stats.add("queries")
        self.stats.add("q_" + what)
        self.stats.add("solver_s", dt)
        if res == z3.unsat:
            return "unsat", None
        if res == z3.sat and m is not None:
            w, exact = self._model(m, nv, lits)
            if not exact:
                w2 = self.repair(w, lits)
                if w2 is None:
                    self.stats.add("irrational_models")
                    return "irrational", w
                w = w2
            return "sat", w
        return "unknown", None

    def _cvc5(self, fs):
        try:
            import cvc5
            s = z3.Solver()
            s.add(fs)
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            slv = cvc5.Solver(tm) if tm else cvc5.Solver()
            slv.setOption("tlimit-per", str(self.timeout))
            slv.setLogic("QF_NRA")
            sm = cvc5.SymbolManager(tm) if tm else cvc5.SymbolManager(slv)
            ip = cvc5.InputParser(slv, sm)
            ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic QF_NRA)\n" + s.to_smt2().split("\n", 1)[1].replace("(check-sat)", "(check-sat)"), "q")
            out = ""
            while True:
                c = ip.nextCommand()
                if c.isNull():
                    break
                out += c.invoke(slv, sm) or ""
            if "error" in out:
                return z3.unknown
            if "unsat" in out:
                return z3.unsat
        except Exception:
            pass
        return z3.unknown

    def holds(self, w, lits):
        c = Ctx(list(w))
        for i in sorted(VT.sq):
            while len(c.witness) <= i:
                c.witness.append(None)
            if c.witness[i] is None:
                try:
                    c.witness[i] = sym._fsqrt(sym.peval(VT.sq[i], c.witness))
                except (TypeError, ValueError):
                    continue
        try:
            return all(c.wsign(p) in s for p, s in lits)
        except TypeError:
            return False

    def repair(self, w, lits):
        """the model had irrational coordinates: try rational neighbours"""
        if self.holds(w, lits):
            return w
        return None

    def interior(self, lits, extra_lits=()):
        """a witness away from every boundary when there is one (used for replays)"""
        allp = list(lits) + list(extra_lits)
        for eps in (Fraction(1, 4), Fraction(1, 16), Fraction(1, 100), Fraction(1, 10000)):
            ll = []
            for p, s in allp:
                s = tuple(sorted(s))
                if s in ((1,), (0, 1)):
                    ll.append((sym.psub(p, {0: eps}), (0, 1)))
                elif s in ((-1,), (-1, 0)):
                    ll.append((sym.padd(p, {0: eps}), (-1, 0)))
                else:
                    ll.append((p, s))
            # keep the values moderate
            for B in (64, 4096):
                bl = []
                for i in range(len(VT.names)):
                    if i in VT.sq:
                        continue
                    bl.append(({1 << (8 * i): 1, 0: -B}, (-1, 0)))
                    bl.append(({1 << (8 * i): 1, 0: B}, (0, 1)))
                r, w = self.solve(ll + bl, what="replay_point")
                if r == "sat":
                    return w
        return None

    def dyadic(self, lits, den=64):
        """points with coordinates in Z/den (exact in floating point) that satisfy the literals, for replays on boundaries"""
        out = []
        n = len(VT.names)
        for d in (8, den, 1024):
            s = z3.Solver()
            s.set("timeout", 4000)
            for i in range(n):
                if i in VT.sq:
                    return out
                s.add(zvar(i) * d == z3.ToReal(z3.Int(f"d{i}")))
            s.add([zlit(p, sg) for p, sg in lits])
            self.stats.add("queries")
            if s.check() == z3.sat:
                w, exact = self._model(s.model(), n, None)
                if w is not None:
                    out.append(w)
                    break
        return out


class Violation(Exception):
    def __init__(self, what, witness, info=None):
        super().__init__(what)
        self.what, self.witness, self.info = what, witness, info


class Path:
    """handed to the check at the end of a path"""

    def __init__(self, ctx, q, npre):
        self.ctx, self.q = ctx, q
        self.npre = npre

    def lits(self):
        return list(self.ctx.pre) + list(self.ctx.lits)

    def nonzero(self, x):
        """literal list for x != 0, or None when x is identically zero"""
        if isinstance(x, Num):
            if not x.v[0]:
                return None
            return (x.v[0], (-1, 1))
        return None if x == 0 else ({0: 1}, (1,))

    def prove(self, negations, what):
        """negations: list of conjunctions (lists of (poly, signs)); the property is that none is satisfiable
        on this path.  Returns None or the failing (conjunction, witness)."""
        self.q.stats.add("obligations")
        for conj in negations:
            c2 = []
            false = False
            for p, s in conj:
                if is_const(p):
                    c = p.get(0, 0)
                    if ((c > 0) - (c < 0)) not in s:
                        false = True
                    continue
                c2.append((p, s))
            if false:
                self.q.stats.add("discharged_by_normalisation")
                continue
            r, w = self.q.solve(self.lits() + c2, what="obligation")
            if r == "unsat":
                continue
            if r in ("sat", "irrational"):
                wi = self.q.interior(self.lits(), c2)
                return (c2, wi if wi is not None else w)
            self.q.stats.add("inconclusive")
            self.q.inconclusive.append(what)
        self.q.stats.add("discharged")
        return None

    def prove_zero(self, xs, what):
        """every x in xs is zero on the whole path"""
        conj = []
        n = 0
        for x in xs:
            if isinstance(x, sym.SInt):
                x = x.conc()
            if isinstance(x, float) or not isinstance(x, Num):
                n += 1
                if x != 0:
                    conj.append([({0: 1}, (1,))])
                continue
            if not x.v[0]:
                n += 1
                continue
            conj.append([(x.v[0], (-1, 1))])
        self.q.stats.add("identities_normalised", n)
        return self.prove(conj, what)


def cmp_lit(x, rel):
    """(poly, signs) for  x rel 0  where x has a polynomial value or a denominator of known sign"""
    n, den = x.v if isinstance(x, Num) else sym.lift(x)
    s = 1
    if den:
        s = sym.den_sign(den)
    S = {"<": (-1,), "<=": (-1, 0), "=": (0,), ">": (1,), ">=": (0, 1), "!=": (-1, 1)}[rel]
    if s < 0:
        S = tuple(sorted(-v for v in S))
    return (n, S)


class Explorer:
    def __init__(self, names, pre=None, max_paths=100000, deadline=None, timeout=20000, stats=None, reset=True):
        """names: symbolic real inputs; pre: function(vars)-> list of (expr, rel)"""
        if reset:
            sym.reset()
        self.vars = [Num.var(n) for n in names]
        self.stats = stats if stats is not None else Stats()
        self.q = Query(self.stats, timeout)
        Ctx.cur = Ctx([Fraction(0)] * len(self.vars))
        self.pre = []
        for e, rel in (pre(self.vars) if pre else []):
            l = cmp_lit(e, rel)
            if is_const(l[0]):
                continue
            self.pre.append(l)
        self.max_paths = max_paths
        self.deadline = deadline
        self.complete = False
        self.samples = []

    def known0(self):
        k = {}
        for p, s in self.pre:
            c, q = primitive(p)
            ss = tuple(sorted(s)) if c > 0 else tuple(sorted(-v for v in s))
            key = frozenset(q.items())
            old = k.get(key, ALL)
            k[key] = tuple(v for v in old if v in ss)
        return k

    def run(self, fn, check=None, on_cut=None):
        """fn(vars) is executed on every path; check(path, result) -> None or violation"""
        st = self.stats
        r, w = self.q.solve(self.pre, what="precondition")
        if r != "sat":
            raise RuntimeError(f"precondition is {r}: vacuous scenario")
        st.add("reachable_preconditions")
        work = [(w, 0)]
        base = self.known0()
        n = 0
        while work:
            if self.deadline and time.time() > self.deadline:
                st.add("deadline_hit")
                return False
            w, bound = work.pop()
            c = Ctx(list(w), bound)
            c.known = dict(base)
            c.pre = self.pre
            nsym = len(VT.names)
            while len(c.witness) < nsym:
                c.witness.append(None)
            for i in sorted(VT.sq):
                if c.witness[i] is None:
                    try:
                        c.witness[i] = sym._fsqrt(sym.peval(VT.sq[i], c.witness))
                    except (TypeError, ValueError):
                        pass
            Ctx.cur = c
            cut = None
            res = None
            try:
                res = fn(self.vars)
            except (Cut, Event) as e:
                cut = e
            n += 1
            st.add("paths")
            path = Path(c, self.q, len(self.pre))
            if cut is not None:
                st.add("cut_paths")
                d = st.setdefault("cut_reasons", Stats())
                d.add((type(cut).__name__ + ": " if isinstance(cut, Event) else "") + str(cut))
                if isinstance(cut, Event) and on_cut is None:
                    raise cut
                if on_cut is not None:
                    v = on_cut(path, cut)
                    if v is not None:
                        return v
            elif check is not None:
                v = check(path, res)
                if v is not None:
                    return v
            if n >= self.max_paths:
                st.add("path_limit_hit")
                return False
            self._siblings(c, bound, len(c.lits), work)
        self.complete = not self.q.inconclusive and not st.get("inconclusive_branches")
        return None

    def _siblings(self, c, bound, nlit, work):
        st = self.stats
        lits = c.lits[:nlit]
        if bound >= nlit:
            return
        polys = [p for p, s in self.pre + lits]
        sq = sqvars_closure(polys)
        lin = not sq and all(linear(p) for p in polys)
        nv = len(VT.names)
        s = z3.Solver()
        s.set("timeout", self.q.timeout if lin else 1500)
        s.add([zlit(p, sg) for p, sg in self.pre])
        for i in sq:
            s.add(zvar(i) * zvar(i) == zpoly(VT.sq[i]), zvar(i) >= 0)
        s.add([zlit(p, sg) for p, sg in lits[:bound]])
        seen = {}
        box = {}
        for p, sg in self.pre:
            _narrow(box, p, sg)
        for i in range(nlit):
            p, sg = lits[i]
            key = frozenset(p.items())
            poss = seen.get(key)
            if poss is None:
                poss = self._base(key)
            neg = tuple(v for v in poss if v not in sg)
            seen[key] = tuple(v for v in poss if v in sg)
            if i < bound:
                _narrow(box, p, sg)
                continue
            if neg and _excluded(box, p, neg):
                st.add("siblings_excluded_by_intervals")
                neg = ()
            if neg:
                t = time.time()
                s.push()
                s.add(zlit(p, neg))
                r = s.check()
                w = None
                if r == z3.sat:
                    w, exact = self.q._model(s.model(), nv, None)
                    if not exact and not self.q.holds(w, self.pre + lits[:i] + [(p, neg)]):
                        w = None
                s.pop()
                st.add("queries")
                st.add("q_branch")
                st.add("solver_s", time.time() - t)
                if w is not None:
                    work.append((w, i + 1))
                elif r != z3.unsat:
                    if lin:
                        st.add("inconclusive_branches")
                    else:
                        r, w = self.q.solve(self.pre + lits[:i] + [(p, neg)])
                        if r == "sat":
                            work.append((w, i + 1))
                        elif r == "irrational":
                            st.add("irrational_branches")
                        elif r == "unknown":
                            st.add("inconclusive_branches")
            s.add(zlit(p, sg))
            _narrow(box, p, sg)

    def _base(self, key):
        if not hasattr(self, "_b"):
            self._b = self.known0()
        return self._b.get(key, ALL)
