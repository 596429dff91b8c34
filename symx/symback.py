"""Symbolic backend of the harness interface."""

import builtins
from fractions import Fraction

import z3

from . import core as C
from . import libs
from . import npf
from . import strs
from .arr import SArr
from .core import E, Unsupported, PathEnd
from .harness import Base

_isinstance = builtins.isinstance


class Cond:
    """A property condition: exact truth and its negation with a margin."""
    __slots__ = ("raw", "far", "pure", "tol")

    def __init__(self, raw, far=None, pure=False, tol=None):
        self.raw = raw          # bool or z3 Bool
        self.far = far          # list of (a, b) real pairs that must be equal
        self.tol = tol          # float tolerance of the concrete comparison
        self.pure = pure        # True: the condition is exactly those equalities

    def __bool__(self):
        return C.truth(self.raw)

    def __and__(self, o):
        o = cond(o)
        far = None
        if self.far is not None or o.far is not None:
            far = (self.far or []) + (o.far or [])
        return Cond(C.land(self.raw, o.raw), far,
                    (self.pure or self.raw is True) and (o.pure or o.raw is True),
                    min([t for t in (self.tol, o.tol) if t is not None], default=None))

    __rand__ = __and__

    def __or__(self, o):
        return Cond(C.lor(self.raw, cond(o).raw))

    __ror__ = __or__

    def __invert__(self):
        return Cond(C.lnot(self.raw))


def cond(c):
    if _isinstance(c, Cond):
        return c
    if _isinstance(c, SArr):
        if c.data.ndim == 0:
            return Cond(C.raw_of(c.data[()]))
        return Cond(C.land(*[x for x in c.data.flat]))
    r = C.raw_of(c)
    if C.kind(r) == "b":
        return Cond(r)
    if r is None or _isinstance(r, (list, dict, tuple, str)):
        return Cond(bool(r))
    if C.kind(r) in "if":
        return Cond(C.ne(r, 0))
    return Cond(bool(r))


def _plain(x):
    """Nested lists / dicts of raw values."""
    if _isinstance(x, SArr):
        return _plain_nd(x.data)
    if _isinstance(x, Cond):
        return x.raw
    if _isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if _isinstance(x, dict):
        return {k: _plain(v) for k, v in x.items()}
    if _isinstance(x, range):
        return list(x)
    return C.raw_of(x)


def _plain_nd(d):
    if d.ndim == 0:
        return _plain(d[()])
    return [_plain_nd(d[i]) if d.ndim > 1 else _plain(d[i]) for i in range(d.shape[0])]


class Far(list):
    """Pairs of numbers compared; impure once anything else is compared."""
    impure = False


def deep_eq(a, b, far):
    """Raw boolean: a equals b (nan equals nan)."""
    if _isinstance(a, list) or _isinstance(b, list):
        if not (_isinstance(a, list) and _isinstance(b, list)) or len(a) != len(b):
            far.impure = True
            return False
        return C.land(*[deep_eq(x, y, far) for x, y in zip(a, b)])
    if _isinstance(a, dict) or _isinstance(b, dict):
        if not (_isinstance(a, dict) and _isinstance(b, dict)) or set(a) != set(b):
            far.impure = True
            return False
        return C.land(*[deep_eq(a[k], b[k], far) for k in a])
    ka, kb = C.kind(a), C.kind(b)
    if ka == "O" or kb == "O":
        far.impure = True
        if _isinstance(a, str) and _isinstance(b, str):
            return strs.raw_eq(a, b)
        r = (a is b) or (a == b)
        return r if _isinstance(r, bool) else cond(r).raw
    if ka == "c" or kb == "c":
        a, b = C.to_kind(a, "c"), C.to_kind(b, "c")
        return C.land(deep_eq(a.re, b.re, far), deep_eq(a.im, b.im, far))
    if C.is_special(a) or C.is_special(b):
        if C.is_special(a) and C.is_special(b):
            far.impure = True
            return a == b or (a != a and b != b)
        far.impure = True
        return False
    if ka != "b" or kb != "b":
        far.append((a, b))
    else:
        far.impure = True
    return C.eq(a, b)


class SymH(Base):
    symbolic = True

    def __init__(self, runner):
        self.r = runner
        self.sw = runner.pkg
        self.ld = runner.ld
        self.np = npf
        self.plt = libs.plt
        self.nchecks = 0

    def mod(self, name):
        return self.ld.load("swprocess." + name)

    # ------------------------------------------------------------- inputs
    def _reg(self, name, term):
        if name in E.inputs:
            raise RuntimeError(f"input {name} used twice")
        E.inputs[name] = term
        E.input_order.append(name)

    def real(self, name, lo=None, hi=None, npy=False):
        v = z3.Real(name)
        self._reg(name, v)
        b = [C.raw_of(x) for x in (lo, hi) if x is not None]
        if len(b) == 2 and not any(C.is_z(x) or C.is_special(x) for x in b):
            E.bounds[v.get_id()] = max(abs(x) for x in b)
            E.ranges[name] = (Fraction(b[0]), Fraction(b[1]))
        if lo is not None:
            E.add(v >= C.zreal(C.raw_of(lo)))
        if hi is not None:
            E.add(v <= C.zreal(C.raw_of(hi)))
        return C.SNum(v, npy)

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self._reg(name, v)
        E.add(v >= lo)
        E.add(v <= hi)
        E.ranges[name] = (lo, hi)
        return C.SNum(v)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, v)
        return C.SBool(v)

    def choice(self, name, options):
        """One of the options: decided by the path explorer."""
        options = list(options)
        v = z3.Int(name)
        self._reg(name, v)
        E.add(v >= 0)
        E.add(v < len(options))
        if len(options) == 1:
            return options[0]
        i = E.fork([v == k for k in range(len(options))])
        return options[i]

    def digit(self, name, lo=0, hi=9):
        v = z3.Int(name)
        self._reg(name, v)
        E.add(v >= lo)
        E.add(v <= hi)
        E.ranges[name] = (lo, hi)
        return strs.mk(strs.digit_char(v))

    def digits(self, name, n, first_nonzero=False):
        s = ""
        for i in range(n):
            s = s + self.digit(f"{name}{i}", 1 if (first_nonzero and i == 0) else 0)
        return s

    def num(self, s):
        """Value of a decimal string (oracle side)."""
        return strs.tofloat(s)

    # --------------------------------------------------------- conditions
    def require(self, c, sure=False):
        """Assume c.  sure: satisfiable for certain (the replays show it)."""
        r = cond(c).raw
        if r is False:
            raise PathEnd("requirement")
        if r is True:
            return
        E.add(r)
        if not sure and E.check() == z3.unsat:
            raise PathEnd("requirement")

    def eq(self, a, b, tol=None):
        far = Far()
        raw = deep_eq(_plain(a), _plain(b), far)
        return Cond(raw, far, not far.impure, tol)

    same = eq

    def le(self, a, b, tol=None):
        return Cond(C.le(C.raw_of(a), C.raw_of(b)))

    def lt(self, a, b, tol=None):
        return Cond(C.lt(C.raw_of(a), C.raw_of(b)))

    def gap(self, a, b, margin):
        """a < b by a clear margin."""
        return Cond(C.lt(C.add(C.raw_of(a), C.raw_of(margin)), C.raw_of(b)))

    def not_(self, c):
        return Cond(C.lnot(cond(c).raw))

    def all_(self, cs):
        out = Cond(True)
        for c in cs:
            out = out & c
        return out

    def any_(self, cs):
        return Cond(C.lor(*[cond(c).raw for c in cs]))

    def implies(self, a, b):
        return Cond(C.lor(C.lnot(cond(a).raw), cond(b).raw))

    def ite(self, c, a, b):
        return C.wrap(C.ite(cond(c).raw, C.raw_of(a), C.raw_of(b)))

    def is_nan(self, x):
        return bool(C.isnan(C.raw_of(x)))

    def tolist(self, x):
        if _isinstance(x, SArr):
            return x.tolist()
        return list(x)

    def val(self, x):
        """Scalar with python (not numpy) semantics."""
        return C.wrap(C.raw_of(x))

    def check(self, c, label):
        self.nchecks += 1
        self.r.obligation(cond(c), label)

    def observe(self, name, x):
        self.r.observed[name] = _plain(x)

    def prefer(self, c):
        pass

    # -------------------------------------------------------- environment
    def write_text(self, name, text):
        libs.fs.files[libs._fname(name)] = str.__str__(text)
        return name

    def read_text(self, name):
        return strs.mk(libs.fs.files[libs._fname(name)])

    def exists(self, name):
        n = libs._fname(name)
        return n in libs.fs.files or n in libs.fs.dirs or n in libs.fs.streams

    def load_json(self, name):
        return libs.json_module.loads(libs.fs.files[libs._fname(name)])

    def dump_json(self, name, obj):
        libs.fs.files[libs._fname(name)] = libs.json_module.dumps(obj)

    def stream(self, name, specs):
        libs.fs.streams[name] = specs
        return name

    def reads(self):
        return list(libs.fs.reads)

    def saved(self):
        return [(n, f) for n, f, _ in libs.fs.writes]

    def written(self, name):
        n = libs._dn(name)
        for m, _, st in libs.fs.writes[::-1]:
            if libs._dn(m) == n:
                return [(C.wrap(t.stats.starttime.t), t.stats.delta, t.data.tolist()) for t in st]
        return None

    def mkdir(self, name):
        libs.fs.dirs.add(libs._dn(name))

    def make_stream(self, specs):
        return libs.Stream([libs.make_trace(s) for s in specs])

    def table(self, name, rows):
        libs.fs.tables[name] = rows
        return name

    def answers(self, xs):
        it = iter(xs)

        def nxt():
            try:
                return next(it)
            except StopIteration:
                raise PathEnd("no more scripted answers")
        libs.Stdin.script = nxt

    def prompts(self):
        return len(libs.Stdin.prompts)

    def utc(self, *a):
        return libs.UTCDateTime(*a)

    def stop(self):
        raise PathEnd("harness bound")
