"""
Load a second copy of the package from /repo's current source, in which numpy,
math, scipy.linalg and a few builtins are the symbolic-aware stand-ins.

The copy is called ``symciceroscm``; the unmodified package stays importable
under its own name and is what counterexamples are replayed on.
"""

import builtins
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import nplib, seq, textio

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
REAL = "ciceroscm"
SYM = "symciceroscm"
ENCODED_FILES = {}

if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)
sys.dont_write_bytecode = True

#: replacements a harness may install: {"module.name": {"attr": object}}
OVERRIDES = {}


def _sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name == "numpy" or name.startswith("numpy."):
            return nplib.NP
        if name == "pandas":
            return textio.PD
        if name == "json":
            return textio.JSON
        if name == "math":
            return nplib.MATH
        if name == "scipy.linalg":
            if fromlist:
                return nplib.SLA
        if name == REAL or name.startswith(REAL + "."):
            name = SYM + name[len(REAL) :]
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(builtins.__dict__)
    d["__import__"] = _sym_import
    d["isinstance"] = nplib.sym_isinstance
    d["float"] = nplib.symfloat
    d["max"] = nplib.sym_bmax
    d["min"] = nplib.sym_bmin
    d["len"] = seq.sym_len
    d["range"] = seq.sym_range
    return d


_CODE = {}


def compiled(src, path):
    """the code object of this very text (read anew every time), compiled once"""
    if (path, src) not in _CODE:
        _CODE[path, src] = compile(src, path, "exec", dont_inherit=True)
    return _CODE[path, src]


class SymLoader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "r", encoding="utf-8") as f:
            src = f.read()
        ENCODED_FILES[self.path] = hashlib.sha256(src.encode()).hexdigest()[:16]
        module.__file__ = self.path
        module.__dict__["__builtins__"] = make_builtins()
        if self.path.endswith("_version.py"):
            module.__dict__["get_versions"] = lambda: {"version": "symbolic"}
            return
        code = compiled(src, self.path)
        exec(code, module.__dict__)


class SymFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != SYM and not fullname.startswith(SYM + "."):
            return None
        rel = fullname[len(SYM) :].replace(".", "/").lstrip("/")
        base = os.path.join(REPO_SRC, REAL, rel) if rel else os.path.join(REPO_SRC, REAL)
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if os.path.exists(init):
                return _pkg_spec(fullname, init, base)
            # namespace-style package without __init__
            spec = importlib.util.spec_from_loader(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_loader(
                fullname, SymLoader(base + ".py"), origin=base + ".py"
            )
        return None


class FreshSourceLoader(importlib.machinery.SourceFileLoader):
    """Compiles the current source, never a cached .pyc"""

    def get_code(self, fullname):
        return compiled(self.get_data(self.path), self.path)


class RealFinder(importlib.abc.MetaPathFinder):
    """The unmodified package, always from /repo's current source"""

    def find_spec(self, fullname, path=None, target=None):
        if fullname != REAL and not fullname.startswith(REAL + "."):
            return None
        rel = fullname[len(REAL) :].replace(".", "/").lstrip("/")
        base = os.path.join(REPO_SRC, REAL, rel) if rel else os.path.join(REPO_SRC, REAL)
        init = os.path.join(base, "__init__.py")
        if os.path.isdir(base):
            if os.path.exists(init):
                return importlib.util.spec_from_file_location(
                    fullname,
                    init,
                    loader=FreshSourceLoader(fullname, init),
                    submodule_search_locations=[base],
                )
            spec = importlib.util.spec_from_loader(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=FreshSourceLoader(fullname, base + ".py")
            )
        return None


def _pkg_spec(fullname, init, base):
    spec = importlib.util.spec_from_loader(fullname, SymLoader(init), origin=init, is_package=True)
    spec.submodule_search_locations = [base]
    return spec


def install():
    if not any(isinstance(f, SymFinder) for f in sys.meta_path):
        sys.meta_path.insert(0, SymFinder())
        sys.meta_path.insert(0, RealFinder())


def fresh(name=None):
    """
    Forget the loaded copies of the package (both, or the one called name), so
    that nothing kept in module or class variables reaches what runs next.
    """
    for top in (REAL, SYM) if name is None else (name,):
        for k in [k for k in sys.modules if k == top or k.startswith(top + ".")]:
            del sys.modules[k]


def sym_module(name=""):
    install()
    return importlib.import_module(SYM + ("." + name if name else ""))


def real_module(name=""):
    install()
    mod = importlib.import_module(REAL + ("." + name if name else ""))
    top = importlib.import_module(REAL)
    f = os.path.abspath(top.__file__)
    if not f.startswith(os.path.abspath(REPO_SRC) + os.sep):
        raise RuntimeError(f"the imported ciceroscm is not /repo's: {f}")
    return mod
