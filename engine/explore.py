"""
Path exploration, obligations, replay and validation.

A *harness* is a function ``h(ctx, **config)`` written once and run in two ways:

* with a :class:`SymCtx`, on the symbolic copy of the package: inputs are
  symbolic, every feasible path is followed and the assertions become SMT
  queries;
* with a :class:`ConcreteCtx`, on the real package: inputs are floats and the
  assertions are evaluated.  This is how counterexamples are replayed and how
  the translation is validated.
"""

import math
import random
import time
import traceback
from fractions import Fraction

import numpy as np

from . import loader, seq, smt, textio
from . import terms as T
from .poly import PolyCtx, close
from .terms import INF, PathError, Sym, SymBool, Unsupported

DEF_RTOL = 1e-9
DEF_ATOL = 1e-10
TOLERANCE = [1.0]  # scaled down by --stress to measure the rounding margin


class Infeasible(BaseException):
    """The path condition became unsatisfiable"""


class PathLimit(Exception):
    pass


class StopPath(BaseException):
    """The harness ends this path"""


class Obligation:
    __slots__ = ("label", "kind", "a", "b", "rtol", "atol", "cond", "pd", "pb")

    def __init__(self, label, kind, a=None, b=None, rtol=0, atol=0, cond=None):
        self.label = label
        self.kind = kind
        self.a = a
        self.b = b
        self.rtol = rtol
        self.atol = atol
        self.cond = cond
        self.pd = self.pb = None


def flatten(x):
    if isinstance(x, (Sym, SymBool)):
        return [x]
    if hasattr(x, "to_numpy"):
        x = x.to_numpy()
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out.extend(flatten(v))
        return out
    return [x]


class BaseCtx:
    symbolic = False
    _scratch = None

    def reals(self, name, n, lo, hi):
        return np.array([self.real(f"{name}{i}", lo, hi) for i in range(n)], dtype=object if self.symbolic else float)

    def array(self, values):
        """1-d array of mixed symbolic and concrete values"""
        if self.symbolic:
            out = np.empty(len(values), dtype=object)
            for i, v in enumerate(values):
                out[i] = v
            return out
        return np.array([float(v) for v in values])


    def scratch(self):
        """a directory of this run's own; from here on values turned to text can be read back"""
        if self._scratch is None:
            self._scratch = textio.Scratch()
            if self.symbolic:
                textio.ACTIVE[0] = True
        return self._scratch.get()

    def text(self, v):
        """a value the way it stands in a file"""
        return textio.token(v)

    def close_files(self):
        textio.clear()
        if self._scratch is not None:
            self._scratch.close()
            self._scratch = None


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, ex):
        self.ex = ex

    def mod(self, name=""):
        return loader.sym_module(name)

    def fresh(self):
        """as in a new process: nothing kept by the modules reaches what follows"""
        loader.fresh(loader.SYM)

    def real(self, name, lo, hi):
        v = T.new_var(name, lo, hi)
        self.ex.variables[name] = (float(lo), float(hi), False)
        return v

    def int(self, name, lo, hi):
        v = T.new_var(name, lo, hi, True)
        self.ex.variables[name] = (float(lo), float(hi), True)
        return v

    def sequence(self, n, element):
        """a list of n elements, n symbolic"""
        return seq.SymSeq(0, n, element)

    def choose(self, name, options):
        """a symbolic choice among concrete alternatives (one path each)"""
        v = self.int(name, 0, len(options) - 1)
        return options[self.ex.concretize_int(v)]

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise Infeasible()
            return
        self.ex.assume(cond)

    def cut(self, x):
        """
        From here on reason about this intermediate value as an arbitrary value
        of its range (assume/guarantee step of a chain). Sound: the solver sees
        more behaviours, never fewer.
        """
        nodes = [v for v in flatten(x) if isinstance(v, Sym)]
        self.ex.cuts += len(nodes)
        for c in self.ex.pc:
            self.ex.touch(c)
        self.ex.pctx.cut(nodes)
        return x

    def close(self, a, b, tol=1e-9):
        """
        Is it already plain (from the variables' ranges) that two intermediate
        values agree? Used to decide whether a chain may be cut there.
        """
        d = self.ex.pctx.poly(T.mk_add(a, T.mk_mul(Fraction(-1), b)))
        lo, hi = self.ex.pctx.interval(d)
        return max(abs(lo), abs(hi)) <= tol

    def cap_solutions(self, bound):
        """
        Only consider executions whose linear-system solutions stay within
        this bound (a stated bound of the exploration)
        """
        self.ex.solcap = bound

    def solutions(self):
        """solutions of the linear systems met so far on this path, in order"""
        return [x.copy() for x in self.ex.solved.values()]

    def eq(self, label, a, b, rtol=DEF_RTOL, atol=DEF_ATOL):
        fa, fb = flatten(a), flatten(b)
        if len(fa) != len(fb):
            self.ex.obligations.append(
                Obligation(f"{label}: length {len(fa)} vs {len(fb)}", "bool", cond=T.bconst(False))
            )
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            lab = label if len(fa) == 1 else f"{label}[{i}]"
            self._eq1(lab, x, y, rtol, atol)

    def _eq1(self, lab, x, y, rtol, atol):
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            ok = _close(x, y, rtol, atol)
            self.ex.obligations.append(Obligation(lab, "bool", a=x, b=y, cond=T.bconst(ok)))
            return
        for v in (x, y):
            if not isinstance(v, (Sym, SymBool)) and (
                v is None or not T.is_num(v) or not math.isfinite(float(v))
            ):
                self.ex.obligations.append(Obligation(lab + " (not a finite number)", "bool", cond=T.bconst(False)))
                return
        o = Obligation(lab, "eq", x, y, rtol, atol)
        if x is y and isinstance(x, Sym):
            # one and the same term (terms are hash-consed): the difference is 0 whatever the size
            o.pd, o.pb, o.rtol = {}, None, 0
            self.ex.obligations.append(o)
            return
        # polynomials now: a later cut() must not forget what this is about
        o.pd = self.ex.pctx.poly(T.mk_add(x, T.mk_mul(Fraction(-1), y)))
        o.pb = self.ex.pctx.poly(y) if rtol else None
        self.ex.obligations.append(o)

    def true(self, label, cond):
        if isinstance(cond, np.ndarray):
            for i, c in enumerate(cond.reshape(-1)):
                self.true(f"{label}[{i}]", c)
            return
        cond = T.as_bool(cond)
        self.ex.touch(cond)
        self.ex.obligations.append(Obligation(label, "bool", cond=cond))

    def le(self, label, a, b, slack=1e-9):
        for i, (x, y) in enumerate(zip(*_bc(a, b))):
            self.true(f"{label}[{i}]", x <= y + slack)

    def lt(self, label, a, b):
        for i, (x, y) in enumerate(zip(*_bc(a, b))):
            self.true(f"{label}[{i}]", x < y)

    def same(self, label, a, b):
        """exact equality of non-numeric data"""
        self.true(label, a == b)

    def exp(self, x):
        return T.sym_exp(x) if isinstance(x, Sym) else math.exp(x)

    def log(self, x):
        return T.sym_log(x) if isinstance(x, Sym) else math.log(x)

    def sqrt(self, x):
        return T.sym_pow(x, Fraction(1, 2)) if isinstance(x, Sym) else math.sqrt(x)

    def power(self, x, e):
        return T.sym_pow(x, e) if isinstance(x, Sym) or isinstance(e, Sym) else x**e

    def max(self, a, b):
        return T.sym_max(a, b)

    def min(self, a, b):
        return T.sym_min(a, b)

    def abs(self, a):
        return T.sym_abs(a)

    def ite(self, c, a, b):
        return T.sym_ite(c if isinstance(c, SymBool) else bool(c), a, b)

    def both(self, *conds):
        return T.bool_and(*conds)

    def either(self, *conds):
        return T.bool_or(*conds)


def _bc(a, b):
    fa, fb = flatten(a), flatten(b)
    if len(fa) == 1:
        fa = fa * len(fb)
    if len(fb) == 1:
        fb = fb * len(fa)
    return fa, fb


def _close(x, y, rtol, atol):
    try:
        x, y = float(x), float(y)
    except (TypeError, ValueError):
        return False
    if not (math.isfinite(x) and math.isfinite(y)):
        return False
    return abs(x - y) <= (atol + rtol * abs(y)) * TOLERANCE[0]


class ConcreteCtx(BaseCtx):
    """Runs a harness on the real code with given values"""

    def __init__(self, values, rng=None, style="mid"):
        self.values = dict(values)
        self.rng = rng
        self.style = style
        self.failures = []
        self.observed = []
        self.checked = 0
        self.used = {}

    def mod(self, name=""):
        return loader.real_module(name)

    def fresh(self):
        loader.fresh(loader.REAL)

    def real(self, name, lo, hi):
        if name in self.values:
            v = min(max(self.values[name], lo), hi)
        elif self.style == "random" and self.rng is not None:
            u = self.rng.random()
            if u < 0.1:
                v = lo
            elif u < 0.2:
                v = hi
            elif u < 0.6 and lo > 0:
                v = math.exp(self.rng.uniform(math.log(lo), math.log(hi)))
            else:
                v = self.rng.uniform(lo, hi)
        elif self.style == "lo":
            v = lo
        elif self.style == "hi":
            v = hi
        else:
            v = 0.5 * (lo + hi)
        self.used[name] = self.values[name] = float(v)
        return float(v)

    def int(self, name, lo, hi):
        if name in self.values:
            v = int(round(self.values[name]))
            v = min(max(v, int(lo)), int(hi))
        elif self.style == "random" and self.rng is not None:
            v = self.rng.randint(int(lo), int(hi))
        else:
            v = int(lo) if self.style != "hi" else int(hi)
        self.used[name] = self.values[name] = v
        return v

    def sequence(self, n, element):
        return [element(i) for i in range(n)]

    def choose(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, cond):
        if not bool(cond):
            raise Infeasible()

    def cut(self, x):
        return x

    def close(self, a, b, tol=1e-9):
        return False

    def cap_solutions(self, bound):
        pass

    def solutions(self):
        return []

    def eq(self, label, a, b, rtol=DEF_RTOL, atol=DEF_ATOL):
        fa, fb = flatten(a), flatten(b)
        if len(fa) != len(fb):
            self.failures.append(f"{label}: length {len(fa)} vs {len(fb)}")
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            lab = label if len(fa) == 1 else f"{label}[{i}]"
            self.checked += 1
            self.observed.append((lab, x, y))
            if not _close(x, y, rtol, atol):
                self.failures.append(f"{lab}: got {x!r}, expected {y!r}")

    def true(self, label, cond):
        if isinstance(cond, np.ndarray):
            for i, c in enumerate(cond.reshape(-1)):
                self.true(f"{label}[{i}]", c)
            return
        self.checked += 1
        self.observed.append((label, None, None))
        if not bool(cond):
            self.failures.append(label)

    def le(self, label, a, b, slack=1e-9):
        for i, (x, y) in enumerate(zip(*_bc(a, b))):
            self.checked += 1
            self.observed.append((label, None, None))
            if not x <= y + slack:
                self.failures.append(f"{label}[{i}]: {x!r} <= {y!r} fails")

    def lt(self, label, a, b):
        for i, (x, y) in enumerate(zip(*_bc(a, b))):
            self.checked += 1
            self.observed.append((label, None, None))
            if not x < y:
                self.failures.append(f"{label}[{i}]: {x!r} < {y!r} fails")

    def same(self, label, a, b):
        self.checked += 1
        self.observed.append((label, None, None))
        if not a == b:
            self.failures.append(f"{label}: got {a!r}, expected {b!r}")

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def power(self, x, e):
        return x**e

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def abs(self, a):
        return abs(a)

    def ite(self, c, a, b):
        return a if c else b

    def both(self, *conds):
        return all(bool(c) for c in conds)

    def either(self, *conds):
        return any(bool(c) for c in conds)


class PathResult:
    def __init__(self):
        self.pc = []
        self.obligations = []
        self.relations = []
        self.implicit = []
        self.error = None
        self.trace = None


class Explorer:
    """Re-executes a harness once per feasible path"""

    def __init__(self, harness, config, max_paths=400, time_limit=300):
        self.harness = harness
        self.config = config
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.variables = {}
        self.paths = []
        self.decisions_total = 0

    # ------------------------------------------------------------- running
    def run(self):
        T.reset_terms()
        self.pctx = PolyCtx()
        self.feas_cache = {}
        self.stack = [[]]
        self.cuts = 0
        while self.stack:
            if len(self.paths) >= self.max_paths:
                raise PathLimit(f"more than {self.max_paths} paths")
            if time.time() > self.deadline:
                raise PathLimit("exploration time limit")
            self.prefix = self.stack.pop()
            if self.cuts:
                self.pctx = PolyCtx()
            self.cuts = 0
            self.pos = 0
            self.pc = []
            self.trail = []
            self.decided = {}
            self.compared = {}
            self.obligations = []
            self.relations = []
            self.implicit = []
            self.nfresh = 0
            self.solcap = 1e7
            self.solved = {}
            res = PathResult()
            T.Current.explorer = self
            try:
                ctx = SymCtx(self)
                ctx.fresh()
                self.harness(ctx, **self.config)
            except Infeasible:
                continue
            except StopPath:
                pass
            except (Unsupported, PathLimit):
                raise
            except RecursionError:
                raise Unsupported("recursion limit")
            except Exception as e:  # the code under test raised
                res.error = e
                res.trace = traceback.format_exc()
            finally:
                T.Current.explorer = None
                ctx.close_files()
            res.pctx = self.pctx
            res.pc = list(self.pc)
            res.obligations = self.obligations
            res.relations = self.relations
            res.implicit = self.implicit
            self.paths.append(res)
        return self.paths

    def touch(self, cond):
        """Convert the atoms of a condition to polynomials now (see cut)"""
        if cond.op == "cmp":
            for v in cond.args:
                if isinstance(v, Sym):
                    self.pctx.freeze(v)
        elif cond.op != "const":
            for c in cond.args:
                if isinstance(c, SymBool):
                    self.touch(c)

    # ----------------------------------------------------------- decisions
    def assume(self, cond):
        cond = T.as_bool(cond)
        if cond.op == "const":
            if not cond.args[0]:
                raise Infeasible()
            return
        self.pc.append(cond)

    def feasible(self, extra):
        key = (tuple(c.key for c in self.pc), tuple(e.key for e in extra))
        r = self.feas_cache.get(key)
        if r is None:
            conds = self.pc + list(extra)
            q = smt.Query(self.pctx, conds, smt.cone(self.pctx, self.relations, conds), [("bool", T.bconst(True))])
            ans, _, _ = q.solve(timeout_ms=4000, lin_timeout=4000)
            smt.STATS.feas += 1
            r = ans != "unsat"
            self.feas_cache[key] = r
        return r

    def decide(self, cond):
        if cond.op == "const":
            return cond.args[0]
        if cond.key in self.decided:
            return self.decided[cond.key]
        neg = T.bool_not(cond)
        if neg.key in self.decided:
            return not self.decided[neg.key]
        if self.pos < len(self.prefix):
            key, val = self.prefix[self.pos]
            if key != cond.key:
                raise Unsupported("the exploration is not repeatable")
        else:
            if time.time() > self.deadline:
                raise PathLimit("exploration time limit")
            twin = self._twin(cond)
            if twin is not None:
                t_ok, f_ok = twin, not twin
            else:
                t_ok = self.feasible([cond])
                f_ok = self.feasible([neg])
            self.decisions_total += 1
            if t_ok and f_ok:
                self.stack.append(self.trail + [(cond.key, False)])
                val = True
            elif t_ok:
                val = True
            elif f_ok:
                val = False
            else:
                raise Infeasible()
        self.pos += 1
        self.trail.append((cond.key, val))
        self.decided[cond.key] = val
        if self._twin(cond) is None:
            self.pc.append(cond if val else neg)
        self._remember(cond, val)
        return val

    def _normal(self, cond):
        if cond.op != "cmp" or cond.args[0] not in ("<", "<=") or not isinstance(cond.args[1], Sym):
            return None
        p = self.pctx.frozen.get(cond.args[1].nid) or self.pctx.poly(cond.args[1])
        if len(p) < 2:
            return None
        return p

    def _remember(self, cond, val):
        p = self._normal(cond)
        if p is not None:
            self.compared.setdefault(frozenset(p), []).append((p, val))

    def _twin(self, cond):
        """
        The code and the reference often compare the same quantity, computed in
        a different order: the two polynomials then differ by rounding of their
        coefficients only (not at all would be an identical condition, which
        the solver settles). Such a comparison goes the way the first one went.
        """
        p = self._normal(cond)
        if p is None:
            return None
        for q, val in self.compared.get(frozenset(p), ()):
            lead = max(p, key=lambda m: (len(m), m))
            r = p[lead] / q[lead]
            if all(c == r * q[m] for m, c in p.items()):
                continue
            if all(close(c, r * q[m]) for m, c in p.items()):
                return val if r > 0 else not val
        return None

    def concretize_int(self, sym):
        if not isinstance(sym, Sym):
            return int(sym)
        lo, hi = sym.lo, sym.hi
        if abs(lo) == INF or abs(hi) == INF or hi - lo > 500:
            raise Unsupported("integer with too large a range")
        for v in range(math.ceil(lo), math.floor(hi) + 1):
            if v == math.floor(hi):
                c = T.compare("==", sym, v)
                if isinstance(c, SymBool):
                    if not bool(c):
                        raise Infeasible()
                elif not c:
                    raise Infeasible()
                return v
            if bool(T.compare("==", sym, v)):
                return v
        raise Infeasible()

    # ----------------------------------------------------- implicit systems
    def implicit_linear(self, rows, rhs):
        n = len(rhs)
        # the solver is a function: the same system has the same solution
        key = (
            tuple(tuple(sorted((j, self._pkey(c)) for j, c in row.items())) for row in rows),
            tuple(self._pkey(d) for d in rhs),
        )
        if key in self.solved:
            return self.solved[key].copy()
        if all(k in (("c", 0), ("p", frozenset())) for k in key[1]):
            return np.zeros(n)  # the solver refuses singular systems
        tag = f"sol{self.nfresh}"
        self.nfresh += 1
        bound = min(self._solution_bound(rows, rhs), self.solcap)
        x = np.empty(n, dtype=object)
        for j in range(n):
            x[j] = T.new_var(f"{tag}_{j}", -bound, bound)
        for row, d in zip(rows, rhs):
            e = -T.lift(d)
            for j, c in row.items():
                e = e + c * x[j]
            self.relations.append(self.pctx.poly(e) if isinstance(e, Sym) else {(): T.to_frac(e)})
        self.implicit.append((tag, rows, list(rhs)))
        self.solved[key] = x
        return x.copy()

    def _pkey(self, c):
        if not isinstance(c, Sym):
            return ("c", T.to_frac(c))
        return ("p", frozenset(self.pctx.poly(c).items()))

    def _solution_bound(self, rows, rhs):
        """max-norm bound from strict row diagonal dominance when it is there"""
        best = 0.0
        for i, (row, d) in enumerate(zip(rows, rhs)):
            dom = row[i]
            for j, c in row.items():
                if j != i:
                    dom = dom - T.sym_abs(c)
            lo = self.pctx.interval(self.pctx.poly(dom))[0] if isinstance(dom, Sym) else dom
            if isinstance(dom, Sym):
                lo = max(lo, dom.lo)
            if isinstance(d, Sym):
                dmax = max(abs(d.lo), abs(d.hi))
            else:
                dmax = abs(d)
            if lo <= 1e-6:
                return 1e7
            best = max(best, dmax / lo)
        return min(best * 1.0001 + 1e-9, 1e7)


def eval_path(path, env):
    """Extend env with the implicit solutions along the path; None if pc fails"""
    env = dict(env)
    cache = {}
    for tag, rows, rhs in path.implicit:
        n = len(rhs)
        a = np.zeros((n, n))
        for i, row in enumerate(rows):
            for j, c in row.items():
                a[i, j] = T.evaluate(c, env, cache)
        b = np.array([T.evaluate(d, env, cache) for d in rhs], dtype=float)
        sol = np.linalg.solve(a, b)
        for j in range(n):
            env[f"{tag}_{j}"] = float(sol[j])
    for c in path.pc:
        if not T.evaluate(c, env, cache):
            return None
    return env, cache
