"""
Sequences of arbitrary length: a list whose number of elements is a symbolic
integer. It can be measured (len), sliced and walked; walking and counting loops
fork on whether there is a next element.
"""

import builtins

from . import terms as T
from .terms import Sym, Unsupported

_real_isinstance = builtins.isinstance


def _sym(x):
    return _real_isinstance(x, Sym)


class SymSeq:
    """elements start <= i < stop of a list; element i is element(i)"""

    def __init__(self, start, stop, element):
        self.start, self.stop, self.element = start, stop, element

    @property
    def length(self):
        return self.stop - self.start

    def __bool__(self):
        return bool(self.length > 0)

    def __getitem__(self, key):
        n = self.length
        if _real_isinstance(key, slice):
            if key.step not in (None, 1):
                raise Unsupported("stepped slice of a sequence of symbolic length")

            def place(i, default):
                if i is None:
                    return default
                if bool(i < 0):
                    i = i + n
                    if bool(i < 0):
                        i = 0
                return n if bool(i > n) else i

            a, b = place(key.start, 0), place(key.stop, n)
            if bool(b < a):
                b = a
            return SymSeq(self.start + a, self.start + b, self.element)
        if bool(key < 0):
            key = key + n
        if bool(key < 0) or bool(key >= n):
            raise IndexError("list index out of range")
        return self.element(self.start + key)

    def __iter__(self):
        i = 0
        while bool(self.length > i):
            yield self.element(self.start + i)
            i += 1

    def __len__(self):
        return int(self.length) if not _sym(self.length) else self.length.__index__()

    def copy(self):
        return SymSeq(self.start, self.stop, self.element)

    def __deepcopy__(self, memo):
        return self


def sym_len(x):
    if _real_isinstance(x, SymSeq):
        return x.length
    return builtins.len(x)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        if bool(self.step > 0):
            while bool(i < self.stop):
                yield i
                i = i + self.step
        elif bool(self.step < 0):
            while bool(i > self.stop):
                yield i
                i = i + self.step
        else:
            raise ValueError("range() arg 3 must not be zero")


class _RangeMeta(type):
    def __instancecheck__(cls, obj):
        return _real_isinstance(obj, (builtins.range, SymRange))


class sym_range(metaclass=_RangeMeta):
    def __new__(cls, *args):
        if not any(_sym(a) for a in args):
            return builtins.range(*args)
        if builtins.len(args) == 1:
            return SymRange(0, args[0], 1)
        return SymRange(args[0], args[1], args[2] if builtins.len(args) == 3 else 1)
