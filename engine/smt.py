"""
From polynomials over atoms to SMT queries (z3, with cvc5 as second opinion).

Two encodings of the same query are used:

* linear: every non-linear monomial is a free real with its interval as bounds;
  relations (reciprocals, implicit linear systems) are added together with the
  products of them that can touch the goal.  Everything this encoding excludes
  is really excluded, so ``unsat`` is a proof within the variables' bounds.
* full: monomials are real products (non-linear real arithmetic).

Transcendental functions are atoms constrained by their sign, monotonicity,
tangents and piecewise chords, all of which are true facts, so ``unsat`` is again
sound; a ``sat`` answer is only a candidate until it is replayed on the real code.
"""

import math
import os
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import numpy as np  # noqa: E402
import z3  # noqa: E402

from .poly import ONE, PolyCtx  # noqa: E402
from .terms import INF, Sym, SymBool, _f, as_bool  # noqa: E402

z3.set_param("memory_max_size", 3000)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.linear = 0
        self.nonlinear = 0
        self.time = 0.0
        self.cross = 0
        self.cross_disagree = 0
        self.feas = 0

    def as_dict(self):
        return dict(self.__dict__)

    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k) + v)


STATS = Stats()


def rv(fr):
    fr = Fraction(fr)
    return z3.Q(fr.numerator, fr.denominator)


def _fr_down(x):
    return Fraction(x) - abs(Fraction(x)) / 10**13


def _fr_up(x):
    return Fraction(x) + abs(Fraction(x)) / 10**13


class Encoder:
    """Builds one z3 query in linear or full mode"""

    def __init__(self, pctx, linear):
        self.pc = pctx
        self.linear = linear
        self.cons = []
        self.atomvar = {}
        self.recip = {}
        self.monovar = {}
        self.done_atoms = set()
        self.pending = []
        self.fun_atoms = {"exp": [], "log": [], "pow": []}
        self.max_pairs = 30

    # ------------------------------------------------------------- variables
    def atom(self, aid):
        v = self.atomvar.get(aid)
        if v is not None:
            return v
        at = self.pc.atoms[aid]
        name = at.data if at.kind == "var" else f"{at.kind}!{aid}"
        if at.isint:
            v = z3.ToReal(z3.Int(name))
        else:
            v = z3.Real(name)
        self.atomvar[aid] = v
        if at.lo != -INF:
            self.cons.append(v >= rv(Fraction(at.lo)))
        if at.hi != INF:
            self.cons.append(v <= rv(Fraction(at.hi)))
        if at.kind != "var":
            self.pending.append(at)
        return v

    def rec(self, aid):
        v = self.recip.get(aid)
        if v is None:
            a = self.atom(aid)
            v = z3.Real(f"recip!{aid}")
            self.recip[aid] = v
            lo, hi = self.pc.mono_iv(((aid, -1),))
            if lo != -INF:
                self.cons.append(v >= rv(Fraction(lo)))
            if hi != INF:
                self.cons.append(v <= rv(Fraction(hi)))
            self.cons.append(v * a == 1)
        return v

    def mono(self, m):
        if m == ONE:
            return None
        v = self.monovar.get(m)
        if v is not None:
            return v
        if len(m) == 1 and m[0][1] == 1:
            v = self.atom(m[0][0])
        elif self.linear:
            for a, _ in m:
                self.atom(a)
            v = z3.Real("mono!" + "!".join(f"{a}^{e}" for a, e in m))
            lo, hi = self.pc.mono_iv(m)
            if lo != -INF:
                self.cons.append(v >= rv(Fraction(lo)))
            if hi != INF:
                self.cons.append(v <= rv(Fraction(hi)))
        else:
            v = None
            for a, e in m:
                base = self.atom(a) if e > 0 else self.rec(a)
                for _ in range(abs(e)):
                    v = base if v is None else v * base
        self.monovar[m] = v
        return v

    def expr(self, p):
        terms = []
        for m, c in p.items():
            if m == ONE:
                terms.append(rv(c))
            else:
                v = self.mono(m)
                terms.append(v if c == 1 else rv(c) * v)
        if not terms:
            return rv(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def boolean(self, b):
        b = as_bool(b)
        if b.op == "const":
            return z3.BoolVal(b.args[0])
        if b.op == "cmp":
            op, d = b.args
            e = self.expr(self.pc.frozen.get(d.nid) or self.pc.poly(d))
            if op == "<":
                return e < 0
            if op == "<=":
                return e <= 0
            if op == "==":
                return e == 0
            return e != 0
        if b.op == "not":
            return z3.Not(self.boolean(b.args[0]))
        sub = [self.boolean(x) for x in b.args]
        return z3.And(*sub) if b.op == "and" else z3.Or(*sub)

    # ---------------------------------------------------------- atom meaning
    def flush(self):
        while self.pending:
            at = self.pending.pop()
            if at.aid in self.done_atoms:
                continue
            self.done_atoms.add(at.aid)
            v = self.atomvar[at.aid]
            if at.kind == "def":
                self.cons.append(v == self.expr(at.data))
            elif at.kind == "inv":
                prod = self.pc.mul_raw(at.data, {((at.aid, 1),): Fraction(1)})
                self.cons.append(self.expr(prod) == 1)
            elif at.kind == "ite":
                c, pa, pb = at.data
                cb = self.boolean(c)
                self.cons.append(z3.Implies(cb, v == self.expr(pa)))
                self.cons.append(z3.Implies(z3.Not(cb), v == self.expr(pb)))
            elif at.kind == "floor":
                e = self.expr(at.data)
                self.cons.append(v <= e)
                self.cons.append(v + 1 > e)
            elif at.kind == "sqrt1":
                self.cons.append(v >= 0)
                sq = self.expr({((at.data, 1),): Fraction(1)})
                if not self.linear:
                    self.cons.append(v * v == sq)
                self._concave(v, sq, self.pc.atoms[at.data].iv, math.sqrt, lambda x: 0.5 / math.sqrt(x))
            elif at.kind == "pow":
                q, fr = at.data
                e = self.expr(q)
                f = float(fr)
                iv = self.pc.interval(q)
                self.cons.append(v >= 0)
                if fr == Fraction(1, 2) and not self.linear:
                    self.cons.append(v * v == e)
                self._concave(v, e, iv, lambda x: x**f, lambda x: f * x ** (f - 1))
                for (oe, ov, ofr) in self.fun_atoms["pow"][: self.max_pairs]:
                    if ofr == fr:
                        self.cons.append((e <= oe) == (v <= ov))
                self.fun_atoms["pow"].append((e, v, fr))
            elif at.kind == "exp":
                e = self.expr(at.data)
                self.cons.append(v > 0)
                self._convex_exp(v, e, self.pc.interval(at.data))
                for oe, ov in self.fun_atoms["exp"][: self.max_pairs]:
                    self.cons.append((e <= oe) == (v <= ov))
                self.fun_atoms["exp"].append((e, v))
            elif at.kind == "log":
                e = self.expr(at.data)
                iv = self.pc.interval(at.data)
                self._concave(v, e, iv, math.log, lambda x: 1.0 / x)
                for oe, ov in self.fun_atoms["log"][: self.max_pairs]:
                    self.cons.append((e <= oe) == (v <= ov))
                self.fun_atoms["log"].append((e, v))

    def _points(self, lo, hi, n=9, geometric=False):
        if geometric and lo > 0:
            r = (hi / lo) ** (1.0 / (n - 1))
            pts = [lo * r**k for k in range(n - 1)] + [hi]
        else:
            pts = [lo + (hi - lo) * k / (n - 1) for k in range(n)]
        return sorted(set(pts))

    def _convex_exp(self, v, e, iv):
        lo, hi = iv
        self.cons.append(v >= 1 + e)
        if lo == -INF or hi == INF or hi - lo < 1e-300:
            return
        lo2, hi2 = max(lo, -60.0), min(hi, 60.0)
        if lo2 >= hi2:
            return
        pts = self._points(lo2, hi2)
        for x in pts:
            ex = math.exp(x)
            self.cons.append(v >= rv(_fr_down(ex)) * (1 + e - rv(Fraction(x))))
        for x, y in zip(pts, pts[1:]):
            ex, ey = math.exp(x), math.exp(y)
            sl = _fr_up((ey - ex) / (y - x) * (1 + 1e-9))
            self.cons.append(
                z3.Implies(
                    z3.And(e >= rv(Fraction(x)), e <= rv(Fraction(y))),
                    v <= rv(_fr_up(ex)) + rv(sl) * (e - rv(Fraction(x))),
                )
            )

    def _concave(self, v, e, iv, fn, dfn):
        lo, hi = iv
        if fn is math.log:
            self.cons.append(v <= e - 1)
            lo = max(lo, 1e-9)
        else:
            lo = max(lo, 0.0)
            one = rv(1)
            self.cons.append(z3.Implies(e >= one, z3.And(v >= 1, v <= e)))
            self.cons.append(z3.Implies(e <= one, z3.And(v <= 1, v >= e)))
        hi = min(hi, 1e9)
        if lo >= hi:
            return
        pts = self._points(lo, hi, geometric=lo > 0)
        for x in pts:
            if x > 0:
                fx = fn(x)
                eps = abs(Fraction(fx)) / 10**13 + Fraction(1, 10**14)
                self.cons.append(
                    v <= rv(Fraction(fx) + eps) + rv(Fraction(dfn(x))) * (e - rv(Fraction(x)))
                    + rv(Fraction(1, 10**12))
                )
        for x, y in zip(pts, pts[1:]):
            fx, fy = fn(x), fn(y)
            sl = (fy - fx) / (y - x)
            self.cons.append(
                z3.Implies(
                    z3.And(e >= rv(Fraction(x)), e <= rv(Fraction(y))),
                    v
                    >= rv(Fraction(fx) - Fraction(1, 10**11))
                    + rv(Fraction(sl)) * (e - rv(Fraction(x))),
                )
            )


def _relevant_products(pc, relations, goal_monos, rounds=2, cap=4000):
    """Relations times cofactors that bring them next to the goal monomials"""
    out = []
    seen = set()
    monos = set(goal_monos)
    index = {}
    for ri, r in enumerate(relations):
        for t in r:
            if t == ONE:
                continue
            index.setdefault(t[0][0], []).append((ri, t))
    for _ in range(rounds):
        new = set()
        for m in list(monos):
            md = dict(m)
            cand = []
            for a, _e in m:
                cand.extend(index.get(a, ()))
            for ri, t in cand:
                ok = all(
                    (e > 0 and md.get(a, 0) >= e) or (e < 0 and md.get(a, 0) <= e)
                    for a, e in t
                )
                if not ok:
                    continue
                cof = pc.mono_mul(m, pc.mono_inv(t))
                key = (ri, cof)
                if key in seen:
                    continue
                seen.add(key)
                prod = {pc.mono_mul(mm, cof): c for mm, c in relations[ri].items()}
                out.append(prod)
                new.update(prod)
                if len(out) > cap:
                    return out
        if not new - monos:
            break
        monos |= new
    return out


def _substitute(p, fixed):
    """p with some variables replaced by the constants they equal"""
    out = {}
    for m, c in p.items():
        if any(a in fixed for a, _ in m):
            if any(a in fixed and fixed[a] == 0 and e < 0 for a, e in m):
                return p
            for a, e in m:
                if a in fixed:
                    c = c * fixed[a] ** e
            m = tuple((a, e) for a, e in m if a not in fixed)
        c = out.get(m, 0) + c
        if c:
            out[m] = c
        else:
            out.pop(m, None)
    return out


def poly_vars(pctx, p, out, seen):
    """names of the variables a polynomial depends on (through its atoms)"""
    for m in p:
        for a, _ in m:
            if a in seen:
                continue
            seen.add(a)
            at = pctx.atoms[a]
            if at.kind == "var":
                out.add(at.data)
            else:
                _data_vars(pctx, at.data, out, seen)


def _data_vars(pctx, data, out, seen):
    if isinstance(data, dict):
        poly_vars(pctx, data, out, seen)
    elif isinstance(data, (tuple, list)):
        for x in data:
            _data_vars(pctx, x, out, seen)
    elif hasattr(data, "op") and not hasattr(data, "nid"):
        cond_vars(pctx, data, out, seen)
    elif isinstance(data, int) and not isinstance(data, bool) and data < len(pctx.atoms):
        poly_vars(pctx, {((data, 1),): 1}, out, seen)


def cond_vars(pctx, c, out, seen):
    if c.op == "cmp":
        d = c.args[1]
        if hasattr(d, "nid"):
            poly_vars(pctx, pctx.frozen.get(d.nid) or pctx.poly(d), out, seen)
    elif c.op != "const":
        for x in c.args:
            if hasattr(x, "op"):
                cond_vars(pctx, x, out, seen)


def cone(pctx, relations, conds):
    """the relations that share variables, transitively, with the conditions"""
    vs, seen = set(), set()
    for c in conds:
        cond_vars(pctx, c, vs, seen)
    vs = {v for v in vs if v.startswith("sol")}
    if not vs:
        return []
    rel = []
    for r in relations:
        rv_, sn = set(), set()
        poly_vars(pctx, r, rv_, sn)
        rel.append((r, {v for v in rv_ if v.startswith("sol")}))
    keep = []
    changed = True
    while changed:
        changed = False
        rest = []
        for r, rv_ in rel:
            if rv_ & vs:
                keep.append(r)
                if not rv_ <= vs:
                    vs |= rv_
                changed = True
            else:
                rest.append((r, rv_))
        rel = rest
    return keep


def _check(s):
    try:
        return s.check()
    except z3.Z3Exception:  # out of memory and the like: no verdict
        return z3.unknown


class Query:
    """
    Is there a valuation satisfying all of ``assumptions`` (SymBools), the
    ``relations`` (polynomials equal to zero) and one of the ``violations``?

    violations: list of ("bool", SymBool) or ("eq", poly_d, poly_b, atol, rtol)
    """

    def __init__(self, pctx, assumptions, relations, violations):
        self.pc = pctx
        self.assumptions = assumptions
        self.relations = list(relations)
        fixed = {}
        for a in assumptions:
            if getattr(a, "op", None) == "cmp" and a.args[0] == "==" and not isinstance(a.args[1], (int, float)):
                p = pctx.frozen.get(a.args[1].nid) or pctx.poly(a.args[1])
                v = [m for m in p if m != ONE]
                if len(v) == 1 and len(v[0]) == 1 and v[0][0][1] == 1:
                    fixed[v[0][0][0]] = -p.get(ONE, Fraction(0)) / p[v[0]]
                else:
                    self.relations.append(p)
        if fixed:
            self.relations = [_substitute(r, fixed) for r in self.relations]
            violations = [
                ("eq", _substitute(v[1], fixed), v[2] and _substitute(v[2], fixed)) + tuple(v[3:]) if v[0] == "eq" else v
                for v in violations
            ]
        self.violations = violations
        self.simplified = None

    def _viol(self, enc, v, factor):
        if v[0] == "bool":
            return enc.boolean(v[1])
        _, d, b, atol, rtol = v
        atol = Fraction(atol) * Fraction(factor)
        rtol = Fraction(rtol) * Fraction(factor)
        if not d:
            return z3.BoolVal(False) if atol >= 0 else z3.BoolVal(True)
        e = enc.expr(d)
        if rtol and b is not None and b:
            eb = enc.expr(b)
            pos = z3.And(e > rv(atol) + rv(rtol) * eb, e > rv(atol) - rv(rtol) * eb)
            neg = z3.And(-e > rv(atol) + rv(rtol) * eb, -e > rv(atol) - rv(rtol) * eb)
        else:
            pos, neg = e > rv(atol), e < rv(-atol)
        return z3.Or(pos, neg)

    def build(self, linear, factor=1, relaxed=False):
        enc = Encoder(self.pc, linear)
        if linear:
            if self.simplified is None:
                self.simplified = [self._simplify(v) for v in self.violations]
            violations = self.simplified
        else:
            violations = self.violations
        viol = [self._viol(enc, v, factor) for v in violations]
        viol = [v for v in viol if not z3.is_false(v)] or [z3.BoolVal(False)]
        goal = z3.Or(*viol) if len(viol) > 1 else viol[0]
        for a in self.assumptions:
            enc.cons.append(enc.boolean(a))
        goal_monos = list(enc.monovar)
        enc.flush()
        if relaxed:
            return enc, goal
        if linear:
            for r in self.relations:
                enc.cons.append(enc.expr(r) == 0)
            rels = list(self.relations)
            for at in self.pc.atoms:
                if at.kind == "inv" and at.aid in enc.atomvar:
                    prod = self.pc.mul_raw(at.data, {((at.aid, 1),): Fraction(1)})
                    rels.append(self.pc.add(prod, {ONE: Fraction(-1)}))
            if rels and not z3.is_false(goal):
                for p in _relevant_products(self.pc, rels, goal_monos):
                    enc.cons.append(enc.expr(p) == 0)
        else:
            for r in self.relations:
                enc.cons.append(enc.expr(r) == 0)
        enc.flush()
        return enc, goal

    def _inv_relations(self, d):
        """defining relations of the reciprocals occurring in d (transitively)"""
        out, seen = [], set()
        todo = [d] + list(self.relations)
        while todo:
            p = todo.pop()
            for m in p:
                for a, _e in m:
                    at = self.pc.atoms[a]
                    if at.kind == "inv" and a not in seen:
                        seen.add(a)
                        prod = self.pc.mul_raw(at.data, {((a, 1),): Fraction(1)})
                        r = self.pc.add(prod, {ONE: Fraction(-1)})
                        out.append(r)
                        todo.append(at.data)
        return out

    def _reduce(self, d, atol):
        """
        Subtract a combination of the relations (all equal to zero) from d so
        that what is left is as small as possible over the variables' bounds.
        The multipliers are found numerically, the subtraction is exact, so the
        result equals d wherever the relations hold.
        """
        rels = [r for r in self.relations if r] + self._inv_relations(d)
        if not rels:
            return d
        size = lambda q: max((abs(x) for x in self.pc.interval(q)), default=0)
        best = d
        last = -1
        for rounds in (0, 1, 2, 3):
            prods = list(rels)
            if rounds:
                prods += _relevant_products(self.pc, rels, list(d), rounds=rounds, cap=2500)
            if len(prods) == last:
                continue
            last = len(prods)
            r = self._reduce_with(d, prods, atol)
            if size(r) < size(best):
                best = r
            if size(best) <= 0.9 * float(atol) or len(prods) > 2500:
                break
        return best

    def _reduce_with(self, d, prods, atol):
        uniq, keys = [], set()
        for p in prods:
            k = frozenset(p.items())
            if k not in keys:
                keys.add(k)
                uniq.append(p)
        prods = uniq
        monos = {}
        for p in prods + [d]:
            for m in p:
                monos.setdefault(m, len(monos))
        if len(prods) > 4000 or len(monos) > 6000:
            return d
        w = np.ones(len(monos))
        for m, i in monos.items():
            lo, hi = self.pc.mono_iv(m)
            mag = max(abs(lo), abs(hi))
            w[i] = mag if 0 < mag < 1e12 else (1.0 if mag == 0 else 1e12)
        a = np.zeros((len(monos), len(prods)))
        for j, p in enumerate(prods):
            for m, c in p.items():
                a[monos[m], j] = _f(c) * w[monos[m]]
        scale = np.abs(a).max(axis=0)
        scale[scale == 0] = 1.0
        a = a / scale
        best = d
        cur = d
        for _ in range(3):
            rhs = np.zeros(len(monos))
            for m, c in cur.items():
                rhs[monos[m]] = _f(c) * w[monos[m]]
            if not np.all(np.isfinite(rhs)):
                return best
            lam = np.linalg.lstsq(a, rhs, rcond=1e-14)[0] / scale
            nxt = dict(cur)
            for j, p in enumerate(prods):
                if lam[j] == 0 or not math.isfinite(lam[j]):
                    continue
                lj = Fraction(lam[j])
                for m, c in p.items():
                    nv = nxt.get(m, 0) - lj * c
                    if nv:
                        nxt[m] = nv
                    else:
                        nxt.pop(m, None)
            size = lambda q: max((abs(x) for x in self.pc.interval(q)), default=0)
            if size(nxt) < size(best):
                best = nxt
            cur = nxt
            if size(best) <= float(atol):
                break
        return best

    def _simplify(self, v):
        """Rewrite an equality violation into an equivalent or weaker one"""
        if v[0] != "eq" or not v[1]:
            return v
        v = self._lumped(self._simplify_inv(v))
        _, d, b, atol, rtol = v
        if not d or not (self.relations or any(self.pc.atoms[a].kind == "inv" for m in d for a, _ in m)):
            return v
        lo, hi = self.pc.interval(d)
        if max(abs(lo), abs(hi)) <= atol:
            return v
        r = self._lump(self._reduce(d, atol), atol)
        return ("eq", r, b, atol, rtol)

    def _lumped(self, v):
        """
        Long polynomials: replace the expected value in the relative tolerance
        by the smallest size it can have, and rounding-size terms by one
        variable. Both only make the violation easier to satisfy.
        """
        _, d, b, atol, rtol = v
        if len(d) + len(b or ()) < 40:
            return v
        if b:
            lo, hi = self.pc.interval(b)
            low = lo if lo > 0 else (-hi if hi < 0 else 0.0)
            atol, rtol, b = float(atol) + 0.999999 * float(rtol) * low, 0, None
        lo, hi = self.pc.interval(d)
        if max(abs(lo), abs(hi)) <= 0.99 * float(atol):
            return ("eq", self.pc.opaque((lo, hi)), None, atol, 0)
        return ("eq", self._lump(d, atol), b, atol, rtol)

    def _lump(self, d, atol):
        """Replace the rounding-size terms of d by one variable with their range"""
        small, big = {}, {}
        for m, c in d.items():
            lo, hi = self.pc.mono_iv(m)
            mag = max(abs(lo), abs(hi)) * abs(_f(c))
            (small if mag <= float(atol) * 1e-3 else big)[m] = c
        if len(small) < 8:
            return d
        lo, hi = self.pc.interval(small)
        if max(abs(lo), abs(hi)) > float(atol) * 0.5:
            return d
        big.update(self.pc.opaque((lo, hi)))
        return big

    def _simplify_inv(self, v):
        """Clear denominators of an equality violation when that helps"""
        if v[0] != "eq" or not v[1]:
            return v
        _, d, b, atol, rtol = v
        if not any(self.pc.atoms[a].kind == "inv" for m in d for a, _ in m):
            return v
        lo, hi = self.pc.interval(d)
        if max(abs(lo), abs(hi)) <= atol:
            return v
        cl = self.pc.cleared(d)
        if cl is None:
            return v
        q, mult = cl
        if not q:
            return ("eq", {}, None, atol, 0)
        mlo, mhi = self.pc.mono_iv(mult)
        mm = max(abs(mlo), abs(mhi))
        if mm == INF or mm == 0:
            return v
        # |d| = |q|*|mult| <= |q|*mm; weaker statement, still sound for unsat
        qlo, qhi = self.pc.interval(q)
        if max(abs(qlo), abs(qhi)) * mm <= atol:
            return ("eq", self.pc.scale(q, Fraction(mm)), None, atol, 0)
        return v

    # ------------------------------------------------------------------ solve
    def solve(self, timeout_ms=20000, factor=1, full=True, lin_timeout=None, quick_relaxed=False):
        """returns ('unsat'|'sat'|'unknown', model dict or None, how)"""
        lin_model = None
        for relaxed in (True, False):
            if not relaxed and not self.relations and not self._has_inv():
                break
            enc, goal = self.build(True, factor, relaxed)
            s = z3.Solver()
            s.set("timeout", int(lin_timeout or timeout_ms))
            s.add(*enc.cons)
            s.add(goal)
            t0 = time.time()
            r = _check(s)
            STATS.time += time.time() - t0
            STATS.queries += 1
            STATS.linear += 1
            if r == z3.unsat:
                STATS.unsat += 1
                self.last = s
                return "unsat", None, "linear"
            if r == z3.sat:
                lin_model = self._model(s, enc)
            if relaxed and quick_relaxed:
                break
        if not full:
            return ("sat" if lin_model else "unknown"), lin_model, "linear"
        enc, goal = self.build(False, factor)
        s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        s.add(*enc.cons)
        s.add(goal)
        t0 = time.time()
        r = _check(s)
        STATS.time += time.time() - t0
        STATS.queries += 1
        STATS.nonlinear += 1
        self.last = s
        if r == z3.unsat:
            STATS.unsat += 1
            return "unsat", None, "nonlinear"
        if r == z3.sat:
            STATS.sat += 1
            return "sat", self._model(s, enc), "nonlinear"
        STATS.unknown += 1
        return "unknown", lin_model, "nonlinear"

    def _has_inv(self):
        return any(
            v[0] == "eq" and any(self.pc.atoms[a].kind == "inv" for m in v[1] for a, _ in m)
            for v in (self.simplified or self.violations)
        )

    def _model(self, s, enc):
        m = s.model()
        out = {}
        for aid, v in enc.atomvar.items():
            at = self.pc.atoms[aid]
            if at.kind != "var":
                continue
            val = m.eval(v, model_completion=True)
            out[at.data] = _num(val)
        return out


def _num(val):
    if z3.is_rational_value(val) or z3.is_int_value(val):
        return float(Fraction(val.numerator_as_long(), val.denominator_as_long())) if not z3.is_int_value(val) else float(val.as_long())
    if z3.is_algebraic_value(val):
        a = val.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    try:
        return float(str(val))
    except ValueError:
        return 0.0


def cross_check(solver, timeout_s=20):
    """Ask cvc5 (and the other z3 build) for a second opinion on a query"""
    smt = solver.to_smt2()
    smt = "(set-logic ALL)\n" + smt.split("\n", 1)[1] if smt.startswith("; ") else "(set-logic ALL)\n" + smt
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(smt)
        name = f.name
    try:
        r = subprocess.run(
            ["cvc5", f"--tlimit={int(timeout_s * 1000)}", name],
            capture_output=True,
            text=True,
            timeout=timeout_s + 10,
        )
        out = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
        if "(error" in r.stdout + r.stderr:
            out = "error"
    except (subprocess.TimeoutExpired, FileNotFoundError):
        out = "unknown"
    finally:
        os.unlink(name)
    return out
