"""
Symbolic scalars for executing the real ciceroscm code.

A ``Sym`` is a node of a hash-consed term DAG over the reals.  Python and numpy
operators on a ``Sym`` build terms instead of computing numbers; comparing two
of them gives a ``SymBool`` whose truth value is decided by the path explorer
(:mod:`engine.explore`), which forks the execution when both outcomes are
possible.  Terms are turned into polynomials over *atoms* (variables,
exponentials, logarithms, non-integer powers, reciprocals, if-then-else terms)
and from there into SMT queries (:mod:`engine.smt`).
"""

import math
from fractions import Fraction

import numpy as np

INF = float("inf")


class Unsupported(Exception):
    """The code under analysis did something the encoding does not cover"""


class PathError(Exception):
    """Path-local arithmetic failure (division by zero, log of non-positive)"""


class Current:
    """Holder for the active explorer (one at a time per process)"""

    explorer = None


def explorer():
    if Current.explorer is None:
        raise Unsupported("symbolic value used outside an exploration")
    return Current.explorer


_TABLE = {}
_NODES = []


def reset_terms():
    _TABLE.clear()
    _NODES.clear()


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, Fraction)) and not (
        isinstance(x, (bool, np.bool_))
    )


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported("non-finite constant in symbolic arithmetic")
    return Fraction(x)


def _f(x):
    """Fraction or float to float without overflow errors"""
    try:
        return float(x)
    except OverflowError:
        return INF if x > 0 else -INF


# ---------------------------------------------------------------- intervals
def _slack(lo, hi):
    """Outward rounding"""
    if lo != -INF:
        lo = math.nextafter(lo, -INF)
    if hi != INF:
        hi = math.nextafter(hi, INF)
    return lo, hi


def imul(a, b):
    def m(x, y):
        if x == 0 or y == 0:
            return 0.0
        return x * y

    c = [m(a[0], b[0]), m(a[0], b[1]), m(a[1], b[0]), m(a[1], b[1])]
    return _slack(min(c), max(c))


def iadd(a, b):
    return _slack(a[0] + b[0], a[1] + b[1])


def iinv(a):
    if a[0] > 0 or a[1] < 0:
        lo = 1.0 / a[1] if a[1] not in (INF, -INF) else 0.0
        hi = 1.0 / a[0] if a[0] not in (INF, -INF) else 0.0
        return _slack(lo, hi)
    if a[0] == 0 and a[1] > 0:
        return _slack(1.0 / a[1] if a[1] != INF else 0.0, INF)
    if a[1] == 0 and a[0] < 0:
        return _slack(-INF, 1.0 / a[0] if a[0] != -INF else 0.0)
    return (-INF, INF)


def ipow_int(a, n):
    if n == 0:
        return (1.0, 1.0)
    if n < 0:
        return iinv(ipow_int(a, -n))

    def p(x):
        try:
            return x**n
        except OverflowError:
            return INF if (x > 0 or n % 2 == 0) else -INF

    lo, hi = p(a[0]), p(a[1])
    if n % 2 == 1:
        return _slack(lo, hi)
    if a[0] >= 0:
        return _slack(lo, hi)
    if a[1] <= 0:
        return _slack(hi, lo)
    return (0.0, math.nextafter(max(lo, hi), INF))


def _exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


class Sym:
    """A real-valued symbolic scalar"""

    __slots__ = ("op", "args", "lo", "hi", "nid", "_poly", "isint", "__weakref__")
    __array_priority__ = 1000

    def __new__(cls, op, args, iv, isint=False):
        # never compare symbolic values themselves here: == on them decides a branch
        key = (op,) + tuple(
            [
                ("s", a.nid) if a.__class__ is Sym else a.key if a.__class__ is SymBool else a
                for a in args
            ]
        )
        node = _TABLE.get(key)
        if node is not None:
            return node
        node = object.__new__(cls)
        node.op = op
        node.args = args
        node.lo, node.hi = iv
        node.nid = len(_NODES)
        node._poly = None
        node.isint = isint
        _NODES.append(node)
        _TABLE[key] = node
        return node

    # -------------------------------------------------------------- basics
    @property
    def iv(self):
        return (self.lo, self.hi)

    def __hash__(self):
        return hash(("sym", self.nid))

    def __repr__(self):
        if self.op == "var":
            return self.args[0]
        if self.op == "const":
            return str(float(self.args[0]))
        return f"<{self.op}#{self.nid}>"

    def __str__(self):
        from . import textio

        return textio.token(self) if textio.ACTIVE[0] else repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # ---------------------------------------------------------- arithmetic
    def __add__(self, other):
        return binop("add", self, other)

    def __radd__(self, other):
        return binop("add", other, self)

    def __sub__(self, other):
        return binop("sub", self, other)

    def __rsub__(self, other):
        return binop("sub", other, self)

    def __mul__(self, other):
        return binop("mul", self, other)

    def __rmul__(self, other):
        return binop("mul", other, self)

    def __truediv__(self, other):
        return binop("div", self, other)

    def __rtruediv__(self, other):
        return binop("div", other, self)

    def __neg__(self):
        return mk_mul(Fraction(-1), self)

    def __pos__(self):
        return self

    def __pow__(self, other):
        return binop("pow", self, other)

    def __rpow__(self, other):
        return binop("pow", other, self)

    def __abs__(self):
        return sym_abs(self)

    def __floordiv__(self, other):
        return binop("fdiv", self, other)

    def __rfloordiv__(self, other):
        return binop("fdiv", other, self)

    def __mod__(self, other):
        return binop("mod", self, other)

    def __rmod__(self, other):
        return binop("mod", other, self)

    # ---------------------------------------------------------- comparison
    def __lt__(self, other):
        return compare("<", self, other)

    def __le__(self, other):
        return compare("<=", self, other)

    def __gt__(self, other):
        return compare(">", self, other)

    def __ge__(self, other):
        return compare(">=", self, other)

    def __eq__(self, other):
        if other is self:
            return True
        if isinstance(other, (str, bytes, type(None), dict, list, tuple)):
            return False
        return compare("==", self, other)

    def __ne__(self, other):
        if other is self:
            return False
        if isinstance(other, (str, bytes, type(None), dict, list, tuple)):
            return True
        return compare("!=", self, other)

    def __bool__(self):
        return bool(compare("!=", self, 0))

    # ---------------------------------------------------------- conversions
    def __float__(self):
        raise Unsupported("float() forced on a symbolic value")

    def __int__(self):
        return explorer().concretize_int(mk_trunc(self))

    def __index__(self):
        if self.isint:
            return explorer().concretize_int(self)
        raise TypeError("symbolic real used as index")

    def __round__(self, ndigits=None):
        if ndigits is None:
            return explorer().concretize_int(mk_floor(self + Fraction(1, 2)))
        raise Unsupported("round() to digits on a symbolic value")

    def __floor__(self):
        return explorer().concretize_int(mk_floor(self))

    def __ceil__(self):
        return -explorer().concretize_int(mk_floor(-self))

    def __trunc__(self):
        return int(self)

    def is_integer(self):
        return bool(mk_floor(self) == self)

    def __format__(self, spec):
        return str(self)

    # numpy object-array ufunc hooks
    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def log10(self):
        return sym_log(self) / math.log(10)

    def log2(self):
        return sym_log(self) / math.log(2)

    def log1p(self):
        return sym_log(1 + self)

    def expm1(self):
        return sym_exp(self) - 1

    def sqrt(self):
        return sym_pow(self, Fraction(1, 2))

    def floor(self):
        return mk_floor(self)

    def ceil(self):
        return -mk_floor(-self)

    def rint(self):
        return mk_floor(self + Fraction(1, 2))

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def item(self):
        return self

    def astype(self, _dtype=None):
        return self

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def copy(self):
        return self

    def sign(self):
        return sym_sign(self)


def const_node(fr):
    f = _f(fr)
    if Fraction(f) == fr if abs(f) != INF else False:
        iv = (f, f)
    else:
        iv = _slack(f, f)
    return Sym("const", (fr,), iv)


def lift(x):
    """Sym node of a python number or Sym"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return sym_ite(x, 1, 0)
    return const_node(to_frac(x))


def new_var(name, lo, hi, isint=False):
    return Sym("var", (name, float(lo), float(hi)), (float(lo), float(hi)), isint)


def _const_of(x):
    """Fraction value if constant else None"""
    if isinstance(x, Sym):
        return x.args[0] if x.op == "const" else None
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    return to_frac(x)


def unwrap(x):
    """Constant nodes back to python floats"""
    if isinstance(x, Sym) and x.op == "const":
        return _f(x.args[0])
    return x


def binop(op, a, b):
    for x, left in ((a, True), (b, False)):
        if isinstance(x, np.ndarray):
            return _array_op(op, a, b)
        if not isinstance(x, (Sym, SymBool)) and not is_num(x) and not isinstance(
            x, (bool, np.bool_)
        ):
            return NotImplemented
        if isinstance(x, (float, np.floating)):
            if math.isnan(x):
                return float("nan")
            if math.isinf(x):
                if op == "div" and not left:
                    return 0.0
                raise Unsupported("infinite operand in symbolic arithmetic")
    if op == "add":
        return mk_add(a, b)
    if op == "sub":
        return mk_add(a, mk_mul(Fraction(-1), b))
    if op == "mul":
        return mk_mul(a, b)
    if op == "div":
        return mk_div(a, b)
    if op == "pow":
        return sym_pow(a, b)
    if op == "fdiv":
        return mk_floor(mk_div(a, b))
    if op == "mod":
        q = mk_floor(mk_div(a, b))
        return mk_add(a, mk_mul(Fraction(-1), mk_mul(q, b)))
    raise AssertionError(op)


_PYOPS = {
    "add": lambda x, y: x + y,
    "sub": lambda x, y: x - y,
    "mul": lambda x, y: x * y,
    "div": lambda x, y: x / y,
    "pow": lambda x, y: x**y,
    "fdiv": lambda x, y: x // y,
    "mod": lambda x, y: x % y,
}


def _array_op(op, a, b):
    aa, bb = np.broadcast_arrays(
        _objarr(a) if not isinstance(a, np.ndarray) else a.astype(object),
        _objarr(b) if not isinstance(b, np.ndarray) else b.astype(object),
    )
    out = np.empty(aa.shape, dtype=object)
    for idx in np.ndindex(*aa.shape):
        out[idx] = _PYOPS[op](aa[idx], bb[idx])
    return out


def _objarr(x):
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def mk_add(a, b):
    ca, cb = _const_of(a), _const_of(b)
    if ca is not None and cb is not None:
        return const_result(ca + cb)
    if ca is not None and ca == 0:
        return b
    if cb is not None and cb == 0:
        return a
    a, b = lift(a), lift(b)
    if b.nid < a.nid:
        a, b = b, a
    return Sym("add", (a, b), iadd(a.iv, b.iv), a.isint and b.isint or _intlike(a, b))


def _intlike(a, b):
    def ok(x):
        return x.isint or (x.op == "const" and x.args[0].denominator == 1)

    return ok(a) and ok(b) and (a.isint or b.isint)


def const_result(fr):
    return _f(fr) if Fraction(_f(fr)) == fr else const_node(fr)


def mk_mul(a, b):
    ca, cb = _const_of(a), _const_of(b)
    if ca is not None and cb is not None:
        return const_result(ca * cb)
    if ca is not None:
        if ca == 0:
            return 0.0
        if ca == 1:
            return b
    if cb is not None:
        if cb == 0:
            return 0.0
        if cb == 1:
            return a
    a, b = lift(a), lift(b)
    if b.nid < a.nid:
        a, b = b, a
    if a is b:
        iv = ipow_int(a.iv, 2)
    else:
        iv = imul(a.iv, b.iv)
    return Sym("mul", (a, b), iv, _intlike(a, b))


def mk_div(a, b):
    ca, cb = _const_of(a), _const_of(b)
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError("division by zero")
        return mk_mul(a, Fraction(1) / cb)
    if ca is not None and ca == 0:
        # still needs b != 0
        require_nonzero(b)
        return 0.0
    a, b = lift(a), lift(b)
    if a is b:
        require_nonzero(b)
        return 1.0
    require_nonzero(b)
    iv = imul(a.iv, iinv(b.iv))
    return Sym("div", (a, b), iv)


def require_nonzero(b):
    if b.lo > 0 or b.hi < 0:
        return
    if bool(b == 0):
        raise ZeroDivisionError("symbolic division by zero")


def tighten(node, lo=None, hi=None):
    if lo is not None and lo > node.lo:
        node.lo = lo
    if hi is not None and hi < node.hi:
        node.hi = hi
    return node


def sym_exp(x):
    c = _const_of(x)
    if c is not None:
        return math.exp(_f(c))
    lo = max(0.0, math.nextafter(_exp(x.lo), -INF))
    hi = math.nextafter(_exp(x.hi), INF)
    return Sym("exp", (x,), (lo, hi))


def sym_log(x):
    c = _const_of(x)
    if c is not None:
        if c <= 0:
            raise PathError("log of non-positive constant")
        return math.log(_f(c))
    if x.lo <= 0:
        if not bool(x > 0):
            raise PathError("log of non-positive value")
    lo = -INF if x.lo <= 0 else math.nextafter(math.log(x.lo), -INF)
    hi = INF if x.hi == INF else math.nextafter(math.log(x.hi), INF) if x.hi > 0 else INF
    return Sym("log", (x,), (lo, hi))


def sym_pow(a, b):
    cb = _const_of(b)
    ca = _const_of(a)
    if ca is not None and cb is not None:
        return float(_f(ca) ** _f(cb))
    if cb is None:
        # a**b = exp(b log a)
        return sym_exp(lift(b) * sym_log(a)) if ca is None else sym_exp(
            lift(b) * math.log(_f(ca))
        )
    if cb.denominator == 1:
        n = int(cb)
        if n == 0:
            return 1.0
        if n == 1:
            return a
        if n < 0:
            require_nonzero(lift(a))
            return mk_div(1, sym_pow(a, -n))
        if n <= 16:
            base = lift(a)
            res = base
            for _ in range(n - 1):
                res = mk_mul(res, base)
            if isinstance(res, Sym):
                iv = ipow_int(base.iv, n)
                tighten(res, *iv)
            return res
    base = lift(a)
    if base.lo < 0:
        if bool(base < 0):
            raise PathError("fractional power of a negative value")
    e = _f(cb)

    def p(v):
        v = max(v, 0.0)
        try:
            return v**e
        except (OverflowError, ZeroDivisionError):
            return INF

    lo, hi = sorted((p(base.lo), p(base.hi)))
    lo = max(0.0, math.nextafter(lo, -INF))
    hi = math.nextafter(hi, INF)
    return Sym("pow", (base, cb), (lo, hi))


def mk_floor(x):
    c = _const_of(x)
    if c is not None:
        return float(math.floor(c))
    x = lift(x)
    if x.isint:
        return x
    lo = math.floor(x.lo) if abs(x.lo) != INF else -INF
    hi = math.floor(x.hi) if abs(x.hi) != INF else INF
    if lo == hi:
        return float(lo)
    return Sym("floor", (x,), (float(lo), float(hi)), True)


def mk_trunc(x):
    c = _const_of(x)
    if c is not None:
        return float(math.trunc(c))
    x = lift(x)
    if x.isint:
        return x
    if x.lo >= 0 or bool(x >= 0):
        return mk_floor(x)
    return -mk_floor(-x)


def sym_ite(cond, a, b):
    if isinstance(cond, (bool, np.bool_)):
        return a if cond else b
    if cond.op == "const":
        return a if cond.args[0] else b
    if a is b:
        return a
    if not isinstance(a, (Sym, SymBool)) and not isinstance(b, (Sym, SymBool)):
        if is_num(a) and is_num(b):
            if (math.isnan(a) if isinstance(a, (float, np.floating)) else False) or (
                math.isnan(b) if isinstance(b, (float, np.floating)) else False
            ):
                return a if bool(cond) else b
            if a == b:
                return a
    for v in (a, b):
        if isinstance(v, (float, np.floating)) and not math.isfinite(v):
            return a if bool(cond) else b
    a, b = lift(a), lift(b)
    if a is b:
        return a
    return Sym(
        "ite",
        (cond, a, b),
        (min(a.lo, b.lo), max(a.hi, b.hi)),
        a.isint and b.isint,
    )


def sym_max(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return max(a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (float, np.floating)):
            if math.isnan(x):
                return x
            if x == -INF:
                return y
            if x == INF:
                return x
    a, b = lift(a), lift(b)
    if a.lo >= b.hi:
        return unwrap(a)
    if b.lo >= a.hi:
        return unwrap(b)
    res = sym_ite(compare(">=", a, b), a, b)
    if isinstance(res, Sym):
        tighten(res, max(a.lo, b.lo), max(a.hi, b.hi))
    return res


def sym_min(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return min(a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (float, np.floating)):
            if math.isnan(x):
                return x
            if x == INF:
                return y
            if x == -INF:
                return x
    a, b = lift(a), lift(b)
    if a.hi <= b.lo:
        return unwrap(a)
    if b.hi <= a.lo:
        return unwrap(b)
    res = sym_ite(compare("<=", a, b), a, b)
    if isinstance(res, Sym):
        tighten(res, min(a.lo, b.lo), min(a.hi, b.hi))
    return res


def sym_abs(x):
    if not isinstance(x, Sym):
        return abs(x)
    if x.lo >= 0:
        return x
    if x.hi <= 0:
        return -x
    if x.op == "mul":
        # |c y| = |c| |y|
        for c, y in (x.args, x.args[::-1]):
            k = _const_of(c)
            if k is not None:
                return mk_mul(const_node(abs(k)), sym_abs(y))
    res = sym_ite(compare(">=", x, 0), x, -x)
    if isinstance(res, Sym):
        tighten(res, 0.0, max(-x.lo, x.hi))
    return res


def sym_sign(x):
    if not isinstance(x, Sym):
        return float(np.sign(x))
    return sym_ite(compare(">", x, 0), 1.0, sym_ite(compare("<", x, 0), -1.0, 0.0))


# ------------------------------------------------------------------- booleans
class SymBool:
    """A symbolic truth value"""

    __slots__ = ("op", "args", "key")
    __array_priority__ = 1000

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self.key = (op,) + tuple(
            a.key if isinstance(a, SymBool) else ("s", a.nid) if isinstance(a, Sym) else a
            for a in args
        )

    def __bool__(self):
        return explorer().decide(self)

    def __and__(self, other):
        return bool_and(self, other)

    __rand__ = __and__

    def __or__(self, other):
        return bool_or(self, other)

    __ror__ = __or__

    def __invert__(self):
        return bool_not(self)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, other):
        if isinstance(other, (bool, np.bool_)):
            return self if other else bool_not(self)
        if isinstance(other, SymBool):
            return bool(self) == bool(other)
        return compare("==", lift(self), other)

    def __ne__(self, other):
        r = self.__eq__(other)
        return (not r) if isinstance(r, bool) else bool_not(r)

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return lift(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return o - lift(self)

    def logical_not(self):
        return bool_not(self)

    def __repr__(self):
        return f"<SymBool {self.op}>"


def bconst(v):
    return SymBool("const", (bool(v),))


def as_bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return compare("!=", x, 0)
    return bconst(bool(x))


def compare(op, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        aa, bb = np.broadcast_arrays(
            a.astype(object) if isinstance(a, np.ndarray) else _objarr(a),
            b.astype(object) if isinstance(b, np.ndarray) else _objarr(b),
        )
        out = np.empty(aa.shape, dtype=object)
        for idx in np.ndindex(*aa.shape):
            out[idx] = compare(op, aa[idx], bb[idx])
        return out
    for x in (a, b):
        if not isinstance(x, (Sym, SymBool)) and not is_num(x) and not isinstance(
            x, (bool, np.bool_)
        ):
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            if math.isnan(x):
                return op == "!="
            if op in ("==", "!="):
                return op == "!="
            big = x > 0
            if x is b:
                return (op in ("<", "<=")) if big else (op in (">", ">="))
            return (op in (">", ">=")) if big else (op in ("<", "<="))
    if isinstance(a, SymBool):
        a = lift(a)
    if isinstance(b, SymBool):
        b = lift(b)
    d = mk_add(a, mk_mul(Fraction(-1), b))
    if op == ">":
        return _cmp0("<", -d if isinstance(d, Sym) else -d)
    if op == ">=":
        return _cmp0("<=", -d)
    return _cmp0(op, d)


def _cmp0(op, d):
    if not isinstance(d, Sym):
        return {"<": d < 0, "<=": d <= 0, "==": d == 0, "!=": d != 0}[op]
    if d.op == "const":
        v = d.args[0]
        return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[op]
    if op == "<":
        if d.hi < 0:
            return True
        if d.lo >= 0:
            return False
    elif op == "<=":
        if d.hi <= 0:
            return True
        if d.lo > 0:
            return False
    elif op == "==":
        if d.lo > 0 or d.hi < 0:
            return False
    elif op == "!=":
        if d.lo > 0 or d.hi < 0:
            return True
    return SymBool("cmp", (op, d))


def bool_not(x):
    if not isinstance(x, SymBool):
        return not x
    if x.op == "const":
        return bconst(not x.args[0])
    if x.op == "not":
        return x.args[0]
    if x.op == "cmp" and x.args[0] in ("==", "!="):
        return SymBool("cmp", ("!=" if x.args[0] == "==" else "==", x.args[1]))
    return SymBool("not", (x,))


def bool_and(*xs):
    out = []
    for x in xs:
        if not isinstance(x, SymBool):
            if not x:
                return False
            continue
        if x.op == "const":
            if not x.args[0]:
                return False
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool("and", tuple(out))


def bool_or(*xs):
    out = []
    for x in xs:
        if not isinstance(x, SymBool):
            if x:
                return True
            continue
        if x.op == "const":
            if x.args[0]:
                return True
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool("or", tuple(out))


def contains_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(contains_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(contains_sym(v) for v in x)
    if isinstance(x, dict):
        return any(contains_sym(v) for v in x.values())
    return False


# -------------------------------------------------------- concrete evaluation
def evaluate(node, env, cache=None):
    """Evaluate a Sym/SymBool with floats (used by translator validation)"""
    if cache is None:
        cache = {}
    if not isinstance(node, (Sym, SymBool)):
        return node
    if isinstance(node, SymBool):
        if node.op == "const":
            return node.args[0]
        if node.op == "cmp":
            v = evaluate(node.args[1], env, cache)
            return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[node.args[0]]
        if node.op == "not":
            return not evaluate(node.args[0], env, cache)
        vals = [evaluate(a, env, cache) for a in node.args]
        return all(vals) if node.op == "and" else any(vals)
    # iterative to avoid recursion limits
    stack = [node]
    while stack:
        n = stack[-1]
        if n.nid in cache:
            stack.pop()
            continue
        subs = [a for a in n.args if isinstance(a, Sym) and a.nid not in cache]
        if subs:
            stack.extend(subs)
            continue
        stack.pop()
        g = lambda a: cache[a.nid]
        if n.op == "const":
            v = _f(n.args[0])
        elif n.op == "var":
            v = env[n.args[0]]
        elif n.op == "add":
            v = g(n.args[0]) + g(n.args[1])
        elif n.op == "mul":
            v = g(n.args[0]) * g(n.args[1])
        elif n.op == "div":
            v = g(n.args[0]) / g(n.args[1])
        elif n.op == "exp":
            v = math.exp(g(n.args[0]))
        elif n.op == "log":
            v = math.log(g(n.args[0]))
        elif n.op == "pow":
            v = g(n.args[0]) ** _f(n.args[1])
        elif n.op == "floor":
            v = float(math.floor(g(n.args[0])))
        elif n.op == "ite":
            c = evaluate(n.args[0], env, cache)
            v = g(n.args[1]) if c else g(n.args[2])
        else:
            raise Unsupported(n.op)
        cache[n.nid] = v
    return cache[node.nid]
