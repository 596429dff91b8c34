"""Loads the package under test (and sigpropy's TimeSeries) from source with
its imports bound to the models, so that its own statements run on symbolic
values.  The source text is read on every run."""

import ast
import builtins
import importlib
import os
import sys
import types

from . import core as C
from . import libs
from . import npf
from . import strs
from .arr import SArr
from .core import Unsupported

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = os.path.join(REPO, "swprocess")
SIGPROPY = None

_isinstance = builtins.isinstance


def sigpropy_dir():
    global SIGPROPY
    if SIGPROPY is None:
        import glob
        SIGPROPY = glob.glob("/opt/venv/lib/python3*/site-packages/sigpropy")[0]
    return SIGPROPY


class Rewrite(ast.NodeTransformer):
    """Bare except must not swallow path control; f-strings keep symbols."""

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None or (_isinstance(n.type, ast.Name) and n.type.id == "BaseException"):
            n.type = ast.copy_location(ast.Name("Exception", ast.Load()), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        call = ast.Call(ast.Name("__symx_fstr__", ast.Load()), [n], [])
        return ast.copy_location(call, n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(n.elt, n.generators)
        return ast.copy_location(ast.Call(ast.Name("__symx_set__", ast.Load()), [g], []), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("__symx_set__", ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_FormattedValue(self, n):
        # nested format specs are JoinedStr nodes and must stay so
        n.value = self.visit(n.value)
        return n


def _fstr(s):
    return strs.SStr(s) if strs.is_symstr(s) else s


class CodeIndex:
    """Which functions of the target ran (for the evidence)."""
    ran = {}


# ------------------------------------------------------------ builtins

def _s_isinstance(o, cls):
    if _isinstance(cls, tuple):
        return builtins.any(_s_isinstance(o, c) for c in cls)
    if cls is builtins.float:
        cls = strs.sfloat
    elif cls is builtins.int:
        cls = strs.sint
    elif cls is builtins.bool:
        cls = strs.sbool
    return _isinstance(o, cls)


def _minmax(which):
    f = builtins.max if which else builtins.min

    def g(*a, **k):
        if "key" in k or _isinstance(a[0], str):
            return f(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            raise ValueError(f"{'max' if which else 'min'}() iterable argument is empty")
        raws = [C.raw_of(x) for x in xs]
        if builtins.any(C.kind(r) not in "bif" for r in raws) or not builtins.any(
                C.is_sym(r) for r in raws):
            return f(xs)
        if builtins.any(C.is_special(r) for r in raws):
            return f(xs)
        best = raws[0]
        kinds = {C.kind(r) for r in raws}
        if len(kinds) > 1:
            return f(xs)
        for r in raws[1:]:
            best = C.ite(C.gt(r, best) if which else C.lt(r, best), r, best)
        return C.wrap(best, getattr(xs[0], "npy", False))
    return g


def _s_round(x, n=None):
    if _isinstance(x, float) and n is None:
        return builtins.round(x)
    if n is not None:
        n = n.__index__() if not _isinstance(n, int) else n
    if _isinstance(x, float):
        return C.SNum(C.frac_of_float(x)).__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, n)


def _s_abs(x):
    return builtins.abs(x)


def _s_type(*a):
    if len(a) == 1:
        x = a[0]
        if _isinstance(x, C.SNum) and not x.npy:
            return strs.sfloat if C.kind(x.raw) == "f" else strs.sint
        if _isinstance(x, C.SBool):
            return strs.sbool
        if _isinstance(x, strs.SStr):
            return strs.sstr
        t = builtins.type(x)
        return {float: strs.sfloat, int: strs.sint, bool: strs.sbool,
                str: strs.sstr}.get(t, t)
    return builtins.type(*a)


class _TypeMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1:
            return _s_type(a[0])
        return builtins.type(*a, **k)

    def __instancecheck__(cls, o):
        return _isinstance(o, builtins.type)


class s_type(metaclass=_TypeMeta):
    pass


class SymSet:
    """A set with symbolic members: they are told apart by comparison."""

    def __init__(self, xs=()):
        self.xs = []
        for x in xs:
            self.add(x)

    def add(self, x):
        if x not in self:
            self.xs.append(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def discard(self, x):
        self.xs = [y for y in self.xs if not (y is x or y == x)]

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def __contains__(self, x):
        return builtins.any(y is x or builtins.bool(y == x) for y in self.xs)

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(list(self.xs))

    def copy(self):
        s = SymSet()
        s.xs = list(self.xs)
        return s

    def union(self, *its):
        s = self.copy()
        s.update(*its)
        return s

    def intersection(self, o):
        return SymSet(x for x in self.xs if x in o)

    def difference(self, o):
        return SymSet(x for x in self.xs if x not in o)

    def issubset(self, o):
        return builtins.all(x in o for x in self.xs)

    def isdisjoint(self, o):
        return not builtins.any(x in self for x in o)

    __or__, __and__, __sub__, __le__ = union, intersection, difference, issubset

    def __eq__(self, o):
        return len(self) == len(o) and self.issubset(o)

    __hash__ = None


class _SetMeta(type):
    kind = builtins.set

    def __call__(cls, xs=()):
        xs = list(xs)
        if builtins.any(_isinstance(x, C.SNum) and C.is_sym(x.raw) for x in xs):
            return SymSet(xs)
        return cls.kind(xs)

    def __instancecheck__(cls, o):
        return _isinstance(o, (cls.kind, SymSet))


class s_set(metaclass=_SetMeta):
    pass


class _FrozenMeta(_SetMeta):
    kind = builtins.frozenset


class s_frozenset(metaclass=_FrozenMeta):
    pass


def make_builtins(importer):
    b = types.ModuleType("builtins")
    b.__dict__.update(builtins.__dict__)
    b.float, b.int, b.bool, b.str = strs.sfloat, strs.sint, strs.sbool, strs.sstr
    b.isinstance = _s_isinstance
    b.min, b.max = _minmax(False), _minmax(True)
    b.round = _s_round
    b.type = s_type
    b.set, b.frozenset, b.__symx_set__ = s_set, s_frozenset, s_set
    b.open = libs.vopen
    b.input = libs.vinput
    b.print = lambda *a, **k: None
    b.__import__ = importer
    b.__symx_fstr__ = _fstr
    return b


class Loader:
    def __init__(self):
        self.mods = {}
        self.ext = {}
        self.ext.update(libs.scipy_modules())
        self.ext.update(libs.obspy_modules())
        self.ext.update(libs.mpl_modules())
        nprandom = npf.random
        self.ext.update({
            "numpy": npf, "numpy.random": nprandom, "numpy.linalg": npf.linalg,
            "numpy.fft": npf.fft, "re": strs.re_module, "json": libs.json_module,
            "os": libs.os_module, "os.path": libs.os_module.path,
            "warnings": libs.warnings_module, "logging": libs.logging_module,
        })
        pl = types.ModuleType("pathlib")
        pl.Path = pl.PosixPath = libs.VPath
        pl.PurePath = libs.VPath
        self.ext["pathlib"] = pl
        pd = libs._Lazy("pandas", None, read_csv=libs.read_csv, DataFrame=libs.Frame)
        self.ext["pandas"] = pd
        self.builtins = make_builtins(self._import)
        self.files = {}
        self.funcs = {}

    # ---- import protocol for the target's own import statements ----
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = f"{pkg}.{name}" if name else pkg
        else:
            full = name
        mod = self.load(full)
        if not fromlist:
            top = full.split(".")[0]
            return mod if top == full else self.load(top)
        for n in fromlist:
            if n == "*":
                continue
            try:
                getattr(mod, n)
            except AttributeError:
                try:
                    sub = self.load(f"{full}.{n}")
                except ImportError:
                    raise ImportError(f"cannot import name {n!r} from {full!r}")
                setattr(mod, n, sub)
        return mod

    def load(self, full):
        top = full.split(".")[0]
        if full in self.mods:
            return self.mods[full]
        if top == "swprocess":
            return self._source(full, PKG)
        if top == "sigpropy":
            if full == "sigpropy":
                m = types.ModuleType("sigpropy")
                m.__path__ = []
                self.mods[full] = m
                m.TimeSeries = self._source("sigpropy.timeseries", sigpropy_dir()).TimeSeries
                return m
            return self._source(full, sigpropy_dir())
        if full in self.ext:
            return self.ext[full]
        if top in ("numpy", "scipy", "obspy", "matplotlib", "pandas", "numba"):
            raise Unsupported(f"module {full}")
        return importlib.import_module(full)

    def _source(self, full, base):
        parts = full.split(".")[1:]
        path = os.path.join(base, *parts)
        if os.path.isdir(path):
            fn = os.path.join(path, "__init__.py")
            ispkg = True
        else:
            fn = path + ".py"
            ispkg = False
        if not os.path.exists(fn):
            raise ImportError(f"No module named {full!r}")
        m = types.ModuleType(full)
        m.__file__ = fn
        m.__package__ = full if ispkg else full.rpartition(".")[0]
        if ispkg:
            m.__path__ = [path]
        m.__dict__["__builtins__"] = self.builtins.__dict__
        self.mods[full] = m
        with open(fn, encoding="utf-8") as f:
            text = f.read()
        self.files[fn] = text
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(text, fn)
        self._index(tree, fn)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        code = compile(tree, fn, "exec")
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[full]
            raise
        if not ispkg or parts:
            pkg, _, leaf = full.rpartition(".")
            if pkg in self.mods:
                setattr(self.mods[pkg], leaf, m)
        return m

    def _index(self, tree, fn):
        def walk(n, q):
            for ch in ast.iter_child_nodes(n):
                if _isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.funcs[(fn, ch.lineno)] = q + ch.name
                    for d in ch.decorator_list:
                        self.funcs[(fn, d.lineno)] = q + ch.name
                    walk(ch, q + ch.name + ".")
                elif _isinstance(ch, ast.ClassDef):
                    walk(ch, q + ch.name + ".")
                else:
                    walk(ch, q)
        walk(tree, os.path.basename(fn)[:-3] + ":")


def fresh():
    """A freshly executed copy of the package."""
    ld = Loader()
    pkg = ld.load("swprocess")
    return ld, pkg
