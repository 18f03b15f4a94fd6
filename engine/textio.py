"""
Numbers in text files. A symbolic value is written to a file as a number that
stands for it; the real parsers read the file, and the numbers that stand for
values are exchanged for them afterwards. The stand-ins are decimals that are
exact as floats.
"""

import json
import shutil
import tempfile

import numpy as np
import pandas as pd

from .terms import Sym

BASE = 730000000.5
_by_number = {}
_by_term = {}
WRITTEN = [0]
ACTIVE = [False]  # values turned to text are stand-ins (a harness works with files)


def token(x):
    """the text a value has in a file"""
    if not isinstance(x, Sym):
        return repr(float(x))
    n = _by_term.get(x.nid)
    if n is None:
        n = BASE + len(_by_term)
        _by_term[x.nid] = n
        _by_number[n] = x
    WRITTEN[0] += 1
    return repr(n)


def clear():
    ACTIVE[0] = False
    _by_number.clear()
    _by_term.clear()


def restore_array(a):
    if not _by_number or getattr(a, "dtype", None) is None or a.dtype.kind != "f":
        return a
    if not np.isin(a, list(_by_number)).any():
        return a
    out = a.astype(object)
    flat = out.reshape(-1)
    for i, v in enumerate(flat):
        flat[i] = _by_number.get(float(v), v)
    return out


def restore_frame(df):
    if not _by_number:
        return df
    if isinstance(df, pd.Series):
        new = restore_array(df.to_numpy())
        return df if new.dtype != object or df.dtype == object else pd.Series(new, index=df.index, name=df.name)
    if not isinstance(df, pd.DataFrame):
        return df
    cols = {}
    for i in range(df.shape[1]):
        col = df.iloc[:, i]
        if col.dtype.kind == "f" and np.isin(col.to_numpy(), list(_by_number)).any():
            cols[i] = restore_array(col.to_numpy())
    if not cols:
        return df
    out = df.astype({df.columns[i]: object for i in cols}) if df.columns.is_unique else df.astype(object)
    for i, v in cols.items():
        out.isetitem(i, pd.Series(v, index=df.index, dtype=object))
    return out


class PandasProxy:
    """pandas, where reading a file gives back the symbolic values in it"""

    def __getattr__(self, name):
        return getattr(pd, name)

    def read_csv(self, *a, **k):
        return restore_frame(pd.read_csv(*a, **k))

    def read_table(self, *a, **k):
        return restore_frame(pd.read_table(*a, **k))

    def read_fwf(self, *a, **k):
        return restore_frame(pd.read_fwf(*a, **k))


PD = PandasProxy()


class JsonProxy:
    """json, with the same stand-ins for values"""

    def __getattr__(self, name):
        return getattr(json, name)

    @classmethod
    def _out(cls, x):
        if isinstance(x, Sym):
            return float(token(x))
        if isinstance(x, dict):
            return {k: cls._out(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [cls._out(v) for v in x]
        return x

    @classmethod
    def _in(cls, x):
        if isinstance(x, float):
            return _by_number.get(x, x)
        if isinstance(x, dict):
            return {k: cls._in(v) for k, v in x.items()}
        if isinstance(x, list):
            return [cls._in(v) for v in x]
        return x

    def dump(self, obj, f, **k):
        json.dump(self._out(obj), f, **k)

    def dumps(self, obj, **k):
        return json.dumps(self._out(obj), **k)

    def load(self, f, **k):
        return self._in(json.load(f, **k))

    def loads(self, text, **k):
        return self._in(json.loads(text, **k))


JSON = JsonProxy()


class Scratch:
    """a directory of the check's own, removed afterwards"""

    def __init__(self):
        self.path = None

    def get(self):
        if self.path is None:
            self.path = tempfile.mkdtemp(prefix="verif-")
        return self.path

    def close(self):
        if self.path is not None:
            shutil.rmtree(self.path, ignore_errors=True)
            self.path = None


def _patch_pandas():
    """reductions of object columns must not turn values into floats"""
    from pandas.core import nanops

    old = nanops._ensure_numeric

    def ensure(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and any(isinstance(v, Sym) for v in x.reshape(-1)):
            return x
        return old(x)

    nanops._ensure_numeric = ensure


_patch_pandas()
