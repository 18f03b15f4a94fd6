"""
Polynomials over atoms: the normal form between the term DAG and SMT.

A polynomial is ``{monomial: Fraction}``; a monomial is a sorted tuple of
``(atom_id, exponent)``.  Exponents may be negative for atoms which the path
condition keeps away from zero.
"""

import math
from fractions import Fraction

from .terms import (
    INF,
    Sym,
    Unsupported,
    _exp,
    _f,
    iadd,
    iinv,
    imul,
    ipow_int,
)

MAX_TERMS = 3000
ONE = ()


class Atom:
    __slots__ = ("aid", "kind", "data", "lo", "hi", "isint")

    def __init__(self, aid, kind, data, iv, isint=False):
        self.aid = aid
        self.kind = kind
        self.data = data
        self.lo, self.hi = iv
        self.isint = isint

    @property
    def iv(self):
        return (self.lo, self.hi)


def close(c1, c2, rel=Fraction(1, 10**12)):
    if c1 == c2:
        return True
    return abs(c1 - c2) <= rel * max(abs(c1), abs(c2))


class PolyCtx:
    """Registry of atoms and memo of DAG node -> polynomial"""

    def __init__(self):
        self.atoms = []
        self.varatom = {}
        self.memo = {}
        self.cuts = {}
        self.frozen = {}
        self.inv_index = {}
        self.def_index = {}
        self.exp_index = {}
        self.log_index = {}
        self.pow_index = {}
        self.misc_index = {}

    # ------------------------------------------------------------ atoms
    def _new(self, kind, data, iv, isint=False):
        a = Atom(len(self.atoms), kind, data, iv, isint)
        self.atoms.append(a)
        return a

    def var(self, node):
        a = self.varatom.get(node.nid)
        if a is None:
            a = self._new("var", node.args[0], (node.args[1], node.args[2]), node.isint)
            self.varatom[node.nid] = a
        return a

    def opaque(self, iv):
        """a quantity of which only the interval is known"""
        a = self._new("cut", None, iv)
        return {((a.aid, 1),): Fraction(1)}

    def cut(self, nodes):
        """Let the solver see these nodes as variables (forget their definition)"""
        hit = False
        for node in nodes:
            p = self.memo.get(node.nid)
            if p is None or len(p) > 1:
                self.cuts[node.nid] = self.opaque(node.iv)
                hit = True
        if hit:
            self.memo = dict(self.cuts)

    def freeze(self, node):
        """The polynomial a condition has now, kept for the queries"""
        if node.nid not in self.frozen:
            self.frozen[node.nid] = self.poly(node)

    # ------------------------------------------------------- poly algebra
    def mono_mul(self, m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            e2 = d.get(a, 0) + e
            if e2:
                d[a] = e2
            else:
                d.pop(a, None)
        return tuple(sorted(d.items()))

    def add(self, p, q):
        if len(p) < len(q):
            p, q = q, p
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def scale(self, p, c):
        if c == 0:
            return {}
        return {m: v * c for m, v in p.items()}

    def mul(self, p, q):
        if len(p) * len(q) > MAX_TERMS:
            if len(p) >= len(q):
                p = self.named(p)
            if len(p) * len(q) > MAX_TERMS:
                q = self.named(q)
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return self.reduce_sqrt(r)

    def reduce_sqrt(self, p):
        """s**2 -> base for square-root atoms of single atoms"""
        todo = None
        for m in p:
            for a, e in m:
                at = self.atoms[a]
                if at.kind == "sqrt1" and abs(e) >= 2:
                    todo = True
        if not todo:
            return p
        r = {}
        for m, c in p.items():
            d = {}
            for a, e in m:
                at = self.atoms[a]
                if at.kind == "sqrt1" and abs(e) >= 2:
                    half, rest = (abs(e) // 2), abs(e) % 2
                    s = 1 if e > 0 else -1
                    d[at.data] = d.get(at.data, 0) + s * half
                    if rest:
                        d[a] = d.get(a, 0) + s * rest
                else:
                    d[a] = d.get(a, 0) + e
            mm = tuple(sorted((a, e) for a, e in d.items() if e))
            v = r.get(mm, 0) + c
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
        return r

    def named(self, p):
        a = self._find_close(self.def_index, p)
        if a is None:
            a = self._new("def", p, self.interval(p))
            self._store(self.def_index, p, a)
        return {((a.aid, 1),): Fraction(1)}

    def key(self, p):
        return tuple(sorted(p.items()))

    def const(self, p):
        if not p:
            return Fraction(0)
        if len(p) == 1 and ONE in p:
            return p[ONE]
        return None

    # ---------------------------------------------------------- intervals
    def mono_iv(self, m):
        iv = (1.0, 1.0)
        for a, e in m:
            iv = imul(iv, ipow_int(self.atoms[a].iv, e))
        return iv

    def interval(self, p):
        lo = hi = 0.0
        iv = (0.0, 0.0)
        for m, c in p.items():
            f = _f(c)
            civ = (f, f) if Fraction(f) == c else (
                math.nextafter(f, -INF),
                math.nextafter(f, INF),
            )
            iv = iadd(iv, imul(civ, self.mono_iv(m)))
        return iv

    # --------------------------------------------------------- conversion
    def poly(self, node):
        if not isinstance(node, Sym):
            from .terms import to_frac

            c = to_frac(node)
            return {ONE: c} if c else {}
        memo = self.memo
        stack = [node]
        while stack:
            n = stack[-1]
            if n.nid in memo:
                stack.pop()
                continue
            subs = [a for a in n.args if isinstance(a, Sym) and a.nid not in memo]
            if subs:
                stack.extend(subs)
                continue
            stack.pop()
            memo[n.nid] = self._conv(n)
        return memo[node.nid]

    def _conv(self, n):
        g = lambda a: self.memo[a.nid]
        op = n.op
        if op == "const":
            return {ONE: n.args[0]} if n.args[0] else {}
        if op == "var":
            return {((self.var(n).aid, 1),): Fraction(1)}
        if op == "add":
            return self.add(g(n.args[0]), g(n.args[1]))
        if op == "mul":
            return self.mul(g(n.args[0]), g(n.args[1]))
        if op == "div":
            return self.mul(g(n.args[0]), self.inverse_node(n.args[1]))
        if op == "exp":
            return self.exp(g(n.args[0]))
        if op == "log":
            return self.log(g(n.args[0]), n.args[0].iv)
        if op == "pow":
            return self.pow(g(n.args[0]), n.args[1], n.args[0].iv)
        if op in ("ite", "floor"):
            return self._opaque(n)
        raise Unsupported(op)

    def inverse_node(self, n):
        """1/n, factor by factor when n is a product or quotient"""
        if isinstance(n, Sym) and n.op == "mul":
            return self.mul(self.inverse_node(n.args[0]), self.inverse_node(n.args[1]))
        if isinstance(n, Sym) and n.op == "div":
            return self.mul(self.inverse_node(n.args[0]), self.poly(n.args[1]))
        return self.inverse(self.poly(n), n.iv)

    def _opaque(self, n):
        if n.op == "floor":
            p = self.memo[n.args[0].nid]
            k = ("floor", self.key(p))
            data = p
        else:
            # condition polynomials are converted by the encoder
            pa, pb = self.memo[n.args[1].nid], self.memo[n.args[2].nid]
            if self.key(pa) == self.key(pb):
                return pa
            k = ("ite", n.args[0].key, self.key(pa), self.key(pb))
            data = (n.args[0], pa, pb)
        a = self.misc_index.get(k)
        if a is None:
            a = self._new(n.op, data, n.iv, n.isint)
            self.misc_index[k] = a
        else:
            a.lo = max(a.lo, n.lo)
            a.hi = min(a.hi, n.hi)
        return {((a.aid, 1),): Fraction(1)}

    # ---------------------------------------------------------- functions
    def _lead(self, p):
        """Deterministic leading monomial"""
        return max(p, key=lambda m: (sum(abs(e) for _, e in m), m))

    def _content(self, p):
        """Common monomial factor (only where exponents agree in sign)"""
        it = iter(p)
        first = dict(next(it))
        for m in it:
            d = dict(m)
            for a in list(first):
                e = d.get(a, 0)
                f = first[a]
                if e == 0 or (e > 0) != (f > 0):
                    del first[a]
                else:
                    first[a] = min(e, f) if e > 0 else max(e, f)
            if not first:
                break
        # negative exponents present in some terms only: pull out the lowest
        low = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    low[a] = min(low.get(a, 0), e)
        for a, e in low.items():
            first[a] = e
        return tuple(sorted(first.items()))

    def normalise(self, p):
        """p = c * mono * q with q having leading coefficient 1"""
        cont = self._content(p)
        invc = tuple((a, -e) for a, e in cont)
        q = {self.mono_mul(m, invc): c for m, c in p.items()}
        lead = self._lead(q)
        c = q[lead]
        q = {m: v / c for m, v in q.items()}
        return c, cont, q

    def _find_close(self, index, q, extra=None):
        key = (tuple(sorted(q)), extra)
        for other, atom in index.get(key, ()):
            if all(close(q[m], other[m]) for m in q):
                return atom
        return None

    def _store(self, index, q, atom, extra=None):
        index.setdefault((tuple(sorted(q)), extra), []).append((q, atom))

    def mono_inv(self, m):
        return tuple((a, -e) for a, e in m)

    def inverse(self, p, iv=(-INF, INF)):
        if not p:
            raise ZeroDivisionError
        if len(p) == 1:
            ((m, c),) = p.items()
            rest, extra = [], {ONE: Fraction(1)}
            for a, e in m:
                if self.atoms[a].kind == "inv" and e > 0:
                    for _ in range(e):
                        extra = self.mul(extra, self.atoms[a].data)
                else:
                    rest.append((a, -e))
            return self.mul({tuple(rest): 1 / c}, extra)
        c, cont, q = self.normalise(p)
        atom = self._find_close(self.inv_index, q)
        if atom is None:
            ivq = self.interval(q)
            # tighten with the DAG interval divided by content
            civ = imul((_f(c), _f(c)), self.mono_iv(cont))
            alt = imul(iv, iinv(civ))
            ivq = (max(ivq[0], alt[0]), min(ivq[1], alt[1]))
            atom = self._new("inv", q, iinv(ivq))
            self._store(self.inv_index, q, atom)
        m = self.mono_mul(self.mono_inv(cont), ((atom.aid, 1),))
        return {m: 1 / c}

    def exp(self, p):
        r = {ONE: Fraction(1)}
        for m, c in p.items():
            if m == ONE:
                r = self.scale(r, Fraction(math.exp(_f(c))))
                continue
            sgn = 1 if c > 0 else -1
            atom = None
            for c2, at in self.exp_index.get(m, ()):
                ratio = abs(c) / c2
                n = round(ratio)
                if 1 <= n <= 12 and close(abs(c), n * c2):
                    atom = at
                    sgn *= n
                    break
            if atom is None:
                base = imul((_f(abs(c)), _f(abs(c))), self.mono_iv(m))
                atom = self._new(
                    "exp",
                    {m: abs(c)},
                    (
                        max(0.0, math.nextafter(_exp(base[0]), -INF)),
                        math.nextafter(_exp(base[1]), INF),
                    ),
                )
                self.exp_index.setdefault(m, []).append((abs(c), atom))
            r = self.mul(r, {((atom.aid, sgn),): Fraction(1)})
        return r

    def _positive_mono(self, m):
        return all(self.atoms[a].lo > 0 or e % 2 == 0 for a, e in m) and all(
            self.atoms[a].lo > 0 for a, e in m
        )

    def log(self, p, iv):
        c, cont, q = self.normalise(p)
        if c < 0 or not self._positive_mono(cont):
            # keep as one opaque argument
            cont, q, c = ONE, p, Fraction(1)
            lead = self._lead(q)
            if q[lead] > 0:
                c = q[lead]
                q = {m: v / c for m, v in q.items()}
        r = {}
        if c != 1:
            r = {ONE: Fraction(math.log(_f(c)))}
        for a, e in cont:
            r = self.add(r, self.scale(self._log_atom({((a, 1),): Fraction(1)}), Fraction(e)))
        if not (len(q) == 1 and ONE in q and q[ONE] == 1):
            if len(q) == 1 and ONE in q:
                r = self.add(r, {ONE: Fraction(math.log(_f(q[ONE])))})
            else:
                r = self.add(r, self._log_atom(q, iv if c == 1 and cont == ONE else None))
        return r

    def _log_atom(self, q, iv=None):
        if len(q) == 1:
            ((m, c),) = q.items()
            if c == 1 and len(m) == 1:
                at = self.atoms[m[0][0]]
                if at.kind == "exp":
                    return self.scale(at.data, Fraction(m[0][1]))
                if at.kind == "inv" and m[0][1] == 1:
                    return self.scale(self._log_atom(at.data), Fraction(-1))
        atom = self._find_close(self.log_index, q)
        if atom is None:
            b = self.interval(q)
            if iv is not None:
                b = (max(b[0], iv[0]), min(b[1], iv[1]))
            lo = math.nextafter(math.log(b[0]), -INF) if b[0] > 0 else -INF
            hi = math.nextafter(math.log(b[1]), INF) if 0 < b[1] < INF else INF
            atom = self._new("log", q, (lo, hi))
            self._store(self.log_index, q, atom)
        return {((atom.aid, 1),): Fraction(1)}

    def pow(self, p, e, iv):
        """p**e for non-integer Fraction e, p >= 0"""
        if not p:
            return {}
        c, cont, q = self.normalise(p)
        if c < 0 or not self._positive_mono(cont):
            cont, q, c = ONE, p, Fraction(1)
        r = {ONE: Fraction(_f(c) ** _f(e)) if c != 1 else Fraction(1)}
        for a, k in cont:
            r = self.mul(r, self._pow_atom({((a, 1),): Fraction(1)}, e * k, None))
        if not (len(q) == 1 and ONE in q):
            r = self.mul(r, self._pow_atom(q, e, iv if c == 1 and cont == ONE else None))
        elif q[ONE] != 1:
            r = self.scale(r, Fraction(_f(q[ONE]) ** _f(e)))
        return r

    def _pow_atom(self, q, e, iv):
        if e.denominator == 1:
            res = {ONE: Fraction(1)}
            base = q if e > 0 else self.inverse(q)
            for _ in range(abs(int(e))):
                res = self.mul(res, base)
            return res
        if len(q) == 1:
            ((m, c),) = q.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                at = self.atoms[m[0][0]]
                if at.kind == "exp":
                    return self.exp(self.scale(at.data, e))
                if at.kind == "inv":
                    return self._pow_atom(at.data, -e, None)
                if at.kind == "pow":
                    return self._pow_atom(at.data[0], e * at.data[1], None)
        # split the integer part
        n = math.floor(e) if e > 0 else math.ceil(e)
        frac = e - n
        res = {ONE: Fraction(1)}
        if n:
            base = q if n > 0 else self.inverse(q)
            for _ in range(abs(n)):
                res = self.mul(res, base)
        sgn = 1 if frac > 0 else -1
        fr = abs(frac)
        single = (
            len(q) == 1
            and list(q.values())[0] == 1
            and len(list(q)[0]) == 1
            and list(q)[0][0][1] == 1
        )
        atom = self._find_close(self.pow_index, q, fr)
        if atom is None:
            b = self.interval(q)
            if iv is not None:
                b = (max(b[0], iv[0]), min(b[1], iv[1]))
            lo = max(0.0, math.nextafter(max(b[0], 0.0) ** _f(fr), -INF))
            hi = math.nextafter(max(b[1], 0.0) ** _f(fr), INF) if b[1] < INF else INF
            if fr == Fraction(1, 2) and single:
                atom = self._new("sqrt1", list(q)[0][0][0], (lo, hi))
            else:
                atom = self._new("pow", (q, fr), (lo, hi))
            self._store(self.pow_index, q, atom, fr)
        return self.mul(res, {((atom.aid, sgn),): Fraction(1)})

    # -------------------------------------------------- clearing denominators
    def cleared(self, p, limit=20000):
        """
        p = q * prod(inv atoms) with q free of ``inv`` atoms; returns
        (q, multiplier monomial) or None when it would get too large
        """
        mult = ONE
        guard = 0
        while True:
            worst = {}
            for m in p:
                for a, e in m:
                    if self.atoms[a].kind == "inv":
                        worst[a] = max(worst.get(a, 0), e)
            if not worst:
                return p, mult
            # the most recent inverse atom first: its base may contain others
            a = max(worst)
            e = worst[a]
            base = self.atoms[a].data
            r = {}
            powers = [{ONE: Fraction(1)}]
            for _ in range(e):
                powers.append(self.mul_raw(powers[-1], base))
            for m, c in p.items():
                d = dict(m)
                k = d.pop(a, 0)
                mm = tuple(sorted(d.items()))
                for m2, c2 in powers[e - k].items():
                    m3 = self.mono_mul(mm, m2)
                    v = r.get(m3, 0) + c * c2
                    if v:
                        r[m3] = v
                    else:
                        r.pop(m3, None)
                if len(r) > limit:
                    return None
            p = r
            mult = self.mono_mul(mult, ((a, e),))
            guard += 1
            if guard > 60:
                return None

    def mul_raw(self, p, q):
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r
