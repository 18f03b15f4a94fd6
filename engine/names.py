"""Strings in which some characters are symbolic digits, and an int() that reads them"""
import builtins

from .terms import Sym, Unsupported


class SymText:
    """a short string: characters are literals or symbolic digits (integers 0 to 9)"""

    def __init__(self, chars):
        self.chars = tuple(chars)

    def _lit(self):
        return builtins.all(isinstance(c, str) for c in self.chars)

    def _made(self, chars):
        t = SymText(chars)
        return "".join(t.chars) if t._lit() else t

    def __len__(self):
        return len(self.chars)

    def __getitem__(self, i):
        c = self.chars[i]
        if isinstance(i, slice):
            return self._made(c)
        return c if isinstance(c, str) else SymText((c,))

    def __iter__(self):
        return (self[i] for i in range(len(self.chars)))

    def _digitlike(self, part):
        return builtins.any(ch.isdigit() for ch in part)

    def __contains__(self, part):
        if not isinstance(part, str) or self._digitlike(part):
            raise Unsupported("search for digits in a symbolic name")
        return part in "".join(c if isinstance(c, str) else "\0" for c in self.chars)

    def _plain(self):
        return "".join(c if isinstance(c, str) else "\0" for c in self.chars)

    def startswith(self, part, *a):
        if self._digitlike("".join(part) if isinstance(part, tuple) else part):
            raise Unsupported("search for digits in a symbolic name")
        return self._plain().startswith(part, *a)

    def endswith(self, part, *a):
        if self._digitlike("".join(part) if isinstance(part, tuple) else part):
            raise Unsupported("search for digits in a symbolic name")
        return self._plain().endswith(part, *a)

    def split(self, sep, maxsplit=-1):
        if self._digitlike(sep):
            raise Unsupported("split at digits")
        out, pos = [], 0
        for piece in self._plain().split(sep, maxsplit):
            out.append(self._made(self.chars[pos : pos + len(piece)]))
            pos += len(piece) + len(sep)
        return out

    def replace(self, old, new):
        parts = self.split(old)
        out = []
        for k, p in enumerate(parts):
            if k:
                out += list(new)
            out += list(p.chars if isinstance(p, SymText) else p)
        return self._made(out)

    def find(self, part):
        return self._plain().find(part)

    def index(self, part):
        return self._plain().index(part)

    def isdigit(self):
        return builtins.all(not isinstance(c, str) or c.isdigit() for c in self.chars)

    isnumeric = isdecimal = isdigit

    def isalpha(self):
        return builtins.all(isinstance(c, str) and c.isalpha() for c in self.chars)

    def __eq__(self, other):
        return self is other or (isinstance(other, SymText) and self.chars == other.chars)

    def __hash__(self):
        return hash(tuple(c if isinstance(c, str) else id(c) for c in self.chars))

    def __str__(self):
        return "".join(c if isinstance(c, str) else "#" for c in self.chars)

    def __getattr__(self, name):
        raise Unsupported(f"str.{name} of a symbolic name")


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, builtins.int)


class symint(builtins.int, metaclass=_Meta):
    """int() that reads symbolic digits"""

    def __new__(cls, x=0, *a):
        if isinstance(x, SymText):
            v = 0
            if not x.isdigit():
                raise ValueError(f"invalid literal for int(): {x}")
            for c in x.chars:
                v = 10 * v + (builtins.int(c) if isinstance(c, str) else c)
            return v
        if isinstance(x, Sym) and x.isint:
            return x
        return builtins.int(x, *a)
