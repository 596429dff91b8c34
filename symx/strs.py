"""Symbolic strings: concrete length, characters drawn from a symbolic digit.

A symbolic character is a private-use code point bound (per path) to a z3
integer in 0..9, so every native string operation that only moves characters
around stays correct.  Comparison, hashing, number parsing and regular
expression matching interpret the bound value.
"""

import builtins
import re as _re
import re._constants as sc
import re._parser as sp
from fractions import Fraction

import z3

from . import core as C
from .core import E, Unsupported

_isinstance = builtins.isinstance
_str, _float, _int, _bool = builtins.str, builtins.float, builtins.int, builtins.bool

PUA0 = 0xE000
PUA1 = 0xF800


def chars():
    if getattr(E, "chars_owner", None) is not E.decisions:
        E.chars_owner = E.decisions
        E.chars = {}
    return E.chars


def digit_char(z):
    """A symbolic character standing for the decimal digit z (z3 Int)."""
    c = chars()
    cp = PUA0 + len(c)
    c[cp] = z
    return chr(cp)


def is_symstr(s):
    for ch in _str.__iter__(s):
        if PUA0 <= ord(ch) < PUA1:
            return True
    return False


def mk(s):
    s = _str(s) if type(s) is not _str else s
    return SStr(s) if is_symstr(s) else s


def _ceq(a, b):
    """Condition that characters a and b are equal."""
    if a == b:
        return True
    sa, sb = PUA0 <= ord(a) < PUA1, PUA0 <= ord(b) < PUA1
    if not sa and not sb:
        return False
    c = chars()
    if sa and sb:
        return C.simp(c[ord(a)] == c[ord(b)])
    if sb:
        a, b = b, a
    if b not in "0123456789":
        return False
    return C.simp(c[ord(a)] == _int(b))


def str_eq(a, b):
    a, b = _str.__str__(a), _str.__str__(b)
    if len(a) != len(b):
        return False
    return C.land(*[_ceq(x, y) for x, y in zip(a, b)])


def _wrapm(name):
    f = getattr(_str, name)

    def g(self, *a, **k):
        if name in ("find", "index", "count", "startswith", "endswith",
                    "replace", "split", "rsplit", "partition", "rpartition",
                    "removeprefix", "removesuffix"):
            # native matching is only exact when the argument has no digit
            for x in a:
                xs = x if _isinstance(x, tuple) else (x,)
                for y in xs:
                    if _isinstance(y, _str) and (is_symstr(y) or any(
                            ch in "0123456789" for ch in y)):
                        if name in ("startswith", "endswith") and len(a) == 1:
                            y = _str.__str__(y)
                            s = _str.__str__(self)
                            s = s[:len(y)] if name == "startswith" else s[max(0, len(s) - len(y)):]
                            return C.wrap(str_eq(s, y))
                        raise Unsupported(f"str.{name} against digits")
        return _back(f(_str.__str__(self), *a, **k))
    g.__name__ = name
    return g


def _back(x):
    if _isinstance(x, _str):
        return mk(x)
    if _isinstance(x, list):
        return [_back(v) for v in x]
    if _isinstance(x, tuple):
        return tuple(_back(v) for v in x)
    return x


class SStr(_str):
    """str subclass with at least one symbolic character."""

    def __eq__(self, o):
        if not _isinstance(o, _str):
            return False
        return C.truth(str_eq(self, o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(concretize(self))

    def __str__(self):
        return self

    def __add__(self, o):
        return mk(_str.__add__(_str.__str__(self), o))

    def __radd__(self, o):
        return mk(o + _str.__str__(self))

    def __getitem__(self, i):
        return mk(_str.__getitem__(self, i))

    def __iter__(self):
        for ch in _str.__iter__(self):
            yield mk(ch)

    def __format__(self, spec):
        return _str.__format__(_str.__str__(self), spec)

    def __lt__(self, o):
        raise Unsupported("ordering of symbolic strings")

    def isdigit(self):
        return all(ch.isdigit() or PUA0 <= ord(ch) < PUA1 for ch in _str.__iter__(self))

    def __float__(self):
        raise Unsupported("native float of a symbolic string")

    def __contains__(self, o):
        if is_symstr(o) or any(ch in "0123456789" for ch in o):
            n = len(o)
            s = _str.__str__(self)
            return C.truth(C.lor(*[str_eq(s[i:i + n], o)
                                   for i in range(len(s) - n + 1)]))
        return _str.__contains__(self, o)


for _n in ("split", "rsplit", "strip", "lstrip", "rstrip", "splitlines", "replace",
           "join", "lower", "upper", "capitalize", "partition", "rpartition",
           "find", "index", "count", "startswith", "endswith", "zfill", "center",
           "ljust", "rjust", "removeprefix", "removesuffix", "title", "translate"):
    setattr(SStr, _n, _wrapm(_n))


def concretize(s):
    """A plain string equal to s on this path (one path per value)."""
    out = []
    c = chars()
    for ch in _str.__iter__(s):
        if PUA0 <= ord(ch) < PUA1:
            out.append(_str(E.concretize_int(c[ord(ch)])))
        else:
            out.append(ch)
    return "".join(out)


def raw_eq(a, b):
    """Equality condition of two strings, for properties."""
    return str_eq(a, b)


_NUM = _re.compile(r"\s*([+-]?)(?:(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?)\s*\Z")


def _shape(s):
    return "".join("0" if PUA0 <= ord(ch) < PUA1 else ch for ch in _str.__iter__(s))


def parse_number(s, integer=False):
    s = _str.__str__(s)
    shape = _shape(s).replace("_", "x")
    m = _NUM.match(shape)
    bad = ValueError(f"could not convert string to {'int' if integer else 'float'}")
    if not m or not ((m.group(2) or "") + (m.group(3) or "")):
        raise bad
    if integer and (m.group(3) is not None or m.group(4) is not None):
        raise bad
    c = chars()

    def digits(span):
        v = 0
        for ch in s[span[0]:span[1]]:
            d = c[ord(ch)] if PUA0 <= ord(ch) < PUA1 else _int(ch)
            v = C.add(C.mul(v, 10), d)
        return v
    ip = digits(m.span(2)) if m.group(2) else 0
    nfrac = len(m.group(3)) if m.group(3) else 0
    if nfrac:
        ip = C.add(C.mul(ip, 10 ** nfrac), digits(m.span(3)))
    if m.group(1) == "-":
        ip = C.neg(ip)
    if integer:
        return C.simp(ip)
    ex = 0
    if m.group(4):
        es = s[m.start(4):m.end(4)]
        ex = _int(concretize(es) if is_symstr(es) else es)
    return C.simp(C.mul(C.to_kind(ip, "f"), Fraction(10) ** (ex - nfrac)))


# ------------------------------------------------------------------ re model

class SMatch:
    def __init__(self, pat, s, start, end, groups):
        self.re = pat
        self.string = s
        self._s = {0: (start, end), **groups}
        self.lastindex = max(groups) if groups else None

    def _g(self, k):
        if _isinstance(k, _str):
            k = self.re.groupindex[k]
        sp_ = self._s.get(k)
        if sp_ is None:
            if k > self.re.groups:
                raise IndexError("no such group")
            return None
        return mk(_str.__str__(self.string)[sp_[0]:sp_[1]])

    def group(self, *ks):
        if not ks:
            return self._g(0)
        if len(ks) == 1:
            return self._g(ks[0])
        return tuple(self._g(k) for k in ks)

    __getitem__ = _g

    def groups(self, default=None):
        return tuple(default if self._g(i + 1) is None else self._g(i + 1)
                     for i in range(self.re.groups))

    def groupdict(self, default=None):
        return {k: (default if self._g(v) is None else self._g(v))
                for k, v in self.re.groupindex.items()}

    def start(self, k=0):
        return self._s.get(k, (-1, -1))[0]

    def end(self, k=0):
        return self._s.get(k, (-1, -1))[1]

    def span(self, k=0):
        return self._s.get(k, (-1, -1))

    def __bool__(self):
        return True


def _native(s):
    return _isinstance(s, _str) and not is_symstr(s)


class SPattern:
    def __init__(self, pattern, flags=0):
        self.pattern = mk(pattern)
        self._p = _str.__str__(pattern)
        self._flags = flags
        self._sym = is_symstr(self._p)
        self._re = None if self._sym else _re.compile(self._p, flags)
        self._tree = sp.parse(self._p, flags)
        self.flags = self._tree.state.flags
        self.groups = self._tree.state.groups - 1
        self.groupindex = dict(self._tree.state.groupdict)

    def _at(self, s, i, full=False):
        res = []

        def k(j, g):
            if full and j != len(s):
                return None
            return (j, g)
        r = _m_seq(list(self._tree), 0, s, i, {}, k, self.flags)
        if r is None:
            return None
        j, g = r
        return SMatch(self, s, i, j, g)

    def _scan(self, s, pos=0):
        s = _str.__str__(s)
        i = pos
        while i <= len(s):
            m = self._at(s, i)
            if m is None:
                i += 1
                continue
            yield m
            i = m.end() if m.end() > m.start() else m.end() + 1

    def search(self, s, *a):
        if self._re is not None and _native(s):
            return self._re.search(s, *a)
        for m in self._scan(s, *a):
            return m
        return None

    def match(self, s, pos=0):
        if self._re is not None and _native(s):
            return self._re.match(s, pos)
        return self._at(_str.__str__(s), pos)

    def fullmatch(self, s):
        if self._re is not None and _native(s):
            return self._re.fullmatch(s)
        return self._at(_str.__str__(s), 0, full=True)

    def finditer(self, s, *a):
        if self._re is not None and _native(s):
            return self._re.finditer(s, *a)
        return self._scan(s, *a)

    def findall(self, s):
        if self._re is not None and _native(s):
            return self._re.findall(s)
        out = []
        for m in self._scan(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) or "")
            else:
                out.append(tuple(x if x is not None else "" for x in m.groups()))
        return out

    def split(self, s, maxsplit=0):
        if self._re is not None and _native(s):
            return self._re.split(s, maxsplit)
        s = _str.__str__(s)
        out, p = [], 0
        for m in self._scan(s):
            out.append(mk(s[p:m.start()]))
            out.extend(m.groups())
            p = m.end()
            if maxsplit and len(out) >= maxsplit:
                break
        out.append(mk(s[p:]))
        return out

    def sub(self, r, s, *a):
        if self._re is not None and _native(s) and not is_symstr(r if _isinstance(r, _str) else ""):
            return self._re.sub(r, s, *a)
        raise Unsupported("re.sub on symbolic strings")

    def __eq__(self, o):
        return _isinstance(o, SPattern) and self._p == o._p

    def __hash__(self):
        return hash(self._p)


def _lit(cp, ch, flags):
    """Does pattern code point cp match character ch (forks)?"""
    if flags & _re.IGNORECASE:
        return C.truth(C.lor(_ceq(chr(cp), ch), _ceq(chr(cp).lower(), ch.lower())))
    return C.truth(_ceq(chr(cp), ch))


def _issym(ch):
    return PUA0 <= ord(ch) < PUA1


def _category(cat, ch):
    sym = _issym(ch)
    n = _str(cat)
    neg = "NOT" in n
    if "DIGIT" in n:
        r = sym or ch.isdigit()
    elif "SPACE" in n:
        r = not sym and ch.isspace()
    elif "WORD" in n:
        r = sym or ch.isalnum() or ch == "_"
    else:
        raise Unsupported(f"regex category {n}")
    return r != neg


def _in(items, ch, flags):
    neg = False
    hit = False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            hit = hit or _lit(av, ch, flags)
        elif op is sc.RANGE:
            lo, hi = av
            if _issym(ch):
                z = chars()[ord(ch)]
                lo2, hi2 = max(lo, 48) - 48, min(hi, 57) - 48
                if lo2 <= hi2:
                    hit = hit or C.truth(C.simp(z3.And(z >= lo2, z <= hi2)))
            else:
                hit = hit or lo <= ord(ch) <= hi or (
                    flags & _re.IGNORECASE and (lo <= ord(ch.lower()) <= hi or lo <= ord(ch.upper()) <= hi))
        elif op is sc.CATEGORY:
            hit = hit or _category(av, ch)
        else:
            raise Unsupported(f"regex set {op}")
        if hit:
            break
    return bool(hit) != neg


def _word(s, i):
    return 0 <= i < len(s) and (_issym(s[i]) or s[i].isalnum() or s[i] == "_")


def _m_seq(seq, p, s, i, g, k, fl):
    """Match seq[p:] at i and continue with k(j, groups)."""
    if p == len(seq):
        return k(i, g)
    op, av = seq[p]

    def rest(j, g2):
        return _m_seq(seq, p + 1, s, j, g2, k, fl)
    if op is sc.LITERAL:
        return rest(i + 1, g) if i < len(s) and _lit(av, s[i], fl) else None
    if op is sc.NOT_LITERAL:
        return rest(i + 1, g) if i < len(s) and not _lit(av, s[i], fl) else None
    if op is sc.ANY:
        return rest(i + 1, g) if i < len(s) and (s[i] != "\n" or fl & _re.DOTALL) else None
    if op is sc.IN:
        return rest(i + 1, g) if i < len(s) and _in(av, s[i], fl) else None
    if op is sc.AT:
        a = _str(av)
        if "BEGINNING_STRING" in a or ("BEGINNING" in a and not fl & _re.MULTILINE and "LINE" not in a):
            ok = i == 0
        elif "BEGINNING" in a:
            ok = i == 0 or s[i - 1] == "\n"
        elif "END_STRING" in a:
            ok = i == len(s)
        elif "END" in a:
            ok = i == len(s) or (i == len(s) - 1 and s[i] == "\n")
            if fl & _re.MULTILINE or "LINE" in a:
                ok = ok or s[i] == "\n"
        elif "NON_BOUNDARY" in a:
            ok = _word(s, i - 1) == _word(s, i)
        elif "BOUNDARY" in a:
            ok = _word(s, i - 1) != _word(s, i)
        else:
            raise Unsupported(f"regex {a}")
        return rest(i, g) if ok else None
    if op is sc.SUBPATTERN:
        group, addf, delf, sub = av
        f2 = (fl | addf) & ~delf

        def after(j, g2):
            if group is not None:
                g2 = {**g2, group: (i, j)}
            return rest(j, g2)
        return _m_seq(list(sub), 0, s, i, g, after, f2)
    if op is sc.BRANCH:
        for alt in av[1]:
            r = _m_seq(list(alt), 0, s, i, g, rest, fl)
            if r is not None:
                return r
        return None
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, "POSSESSIVE_REPEAT", None)):
        lo, hi, sub = av
        sub = list(sub)
        greedy = op is not sc.MIN_REPEAT

        def step(n, j, g2, last):
            def more(j2, g3):
                if j2 == j and n >= lo:
                    return None
                return step(n + 1, j2, g3, j)
            if n < lo:
                return _m_seq(sub, 0, s, j, g2, more, fl)
            if greedy:
                if n < hi:
                    r = _m_seq(sub, 0, s, j, g2, more, fl)
                    if r is not None:
                        return r
                return rest(j, g2)
            r = rest(j, g2)
            if r is not None:
                return r
            return _m_seq(sub, 0, s, j, g2, more, fl) if n < hi else None
        # single-character bodies iteratively (no deep recursion)
        if len(sub) == 1 and sub[0][0] in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            ends = [i]
            while len(ends) - 1 < hi:
                j = _m_seq(sub, 0, s, ends[-1], g, lambda j, g2: j, fl)
                if j is None:
                    break
                ends.append(j)
                if not greedy and len(ends) - 1 > 4000:
                    break
            cand = ends[lo:]
            if greedy:
                cand = cand[::-1]
            if op is getattr(sc, "POSSESSIVE_REPEAT", None):
                cand = cand[:1]
            for j in cand:
                r = rest(j, g)
                if r is not None:
                    return r
            return None
        return step(0, i, g, None)
    if op is sc.ASSERT:
        d, sub = av
        return _look(seq, d, list(sub), s, i, g, rest, fl, True)
    if op is sc.ASSERT_NOT:
        d, sub = av
        return _look(seq, d, list(sub), s, i, g, rest, fl, False)
    if op is sc.GROUPREF:
        a, b = g.get(av, (0, 0))
        t = s[a:b]
        if i + len(t) <= len(s) and C.truth(str_eq(s[i:i + len(t)], t)):
            return rest(i + len(t), g)
        return None
    if op is getattr(sc, "ATOMIC_GROUP", None):
        r = _m_seq(list(av), 0, s, i, g, lambda j, g2: (j, g2), fl)
        return rest(*r) if r is not None else None
    raise Unsupported(f"regex operator {op}")


def _look(seq, d, sub, s, i, g, rest, fl, want):
    if d > 0:
        r = _m_seq(sub, 0, s, i, g, lambda j, g2: (j, g2), fl)
    else:
        r = None
        for st in range(i, -1, -1):
            r = _m_seq(sub, 0, s, st, g, lambda j, g2: (j, g2) if j == i else None, fl)
            if r is not None:
                break
    if (r is not None) != want:
        return None
    return rest(i, r[1] if want and r else g)


class re_module:
    """Stand-in for the re module."""
    I = IGNORECASE = _re.IGNORECASE
    M = MULTILINE = _re.MULTILINE
    S = DOTALL = _re.DOTALL
    X = VERBOSE = _re.VERBOSE
    A = ASCII = _re.ASCII
    error = _re.error
    Pattern = SPattern
    Match = SMatch

    @staticmethod
    def compile(p, flags=0):
        if _isinstance(p, SPattern):
            return p
        return SPattern(p, flags)

    @staticmethod
    def escape(p):
        if is_symstr(p):
            return mk("".join(ch if _issym(ch) else _re.escape(ch)
                              for ch in _str.__iter__(p)))
        return _re.escape(p)

    @classmethod
    def search(cls, p, s, flags=0):
        return cls.compile(p, flags).search(s)

    @classmethod
    def match(cls, p, s, flags=0):
        return cls.compile(p, flags).match(s)

    @classmethod
    def fullmatch(cls, p, s, flags=0):
        return cls.compile(p, flags).fullmatch(s)

    @classmethod
    def findall(cls, p, s, flags=0):
        return cls.compile(p, flags).findall(s)

    @classmethod
    def finditer(cls, p, s, flags=0):
        return cls.compile(p, flags).finditer(s)

    @classmethod
    def split(cls, p, s, maxsplit=0, flags=0):
        return cls.compile(p, flags).split(s, maxsplit)

    @classmethod
    def sub(cls, p, r, s, count=0, flags=0):
        return cls.compile(p, flags).sub(r, s, count)


# ------------------------------------------------------- builtin conversions

def tofloat(x=0.0):
    if _isinstance(x, (_str, bytes)):
        if _isinstance(x, _str) and is_symstr(x):
            return C.wrap(parse_number(x))
        return C.wrap(C.frac_of_float(_float(x)))
    if hasattr(x, "_is_sarr"):
        if x.data.ndim != 0:
            if x.data.size != 1:
                raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
            if not FLOAT_1D_OK:
                raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        r = x.data.reshape(-1)[0]
    else:
        r = C.raw_of(x)
    k = C.kind(r)
    if k == "O":
        return C.wrap(C.frac_of_float(_float(x)))
    if k == "c":
        if _isinstance(x, (C.SCplx,)) or hasattr(x, "_is_sarr"):
            return C.wrap(C.to_kind(r.re, "f"))      # numpy: ComplexWarning
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    return C.wrap(C.to_kind(r, "f"))


def toint(x=0, *base):
    if base:
        return _int(x, *base)
    if _isinstance(x, (_str, bytes)):
        if _isinstance(x, _str) and is_symstr(x):
            return C.wrap(parse_number(x, integer=True))
        return _int(x)
    if hasattr(x, "_is_sarr"):
        if x.data.size != 1 or (x.data.ndim and not FLOAT_1D_OK):
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        r = x.data.reshape(-1)[0]
    else:
        r = C.raw_of(x)
    k = C.kind(r)
    if k == "O":
        return _int(x)
    if k == "c":
        raise TypeError("int() argument must be a string or a real number, not 'complex'")
    if C.is_special(r):
        if r != r:
            raise ValueError("cannot convert float NaN to integer")
        raise OverflowError("cannot convert float infinity to integer")
    return C.wrap(C.to_kind(r, "i"))


FLOAT_1D_OK = False


class _FMeta(type):
    def __call__(cls, *a, **k):
        return tofloat(*a, **k)

    def __instancecheck__(cls, o):
        if _isinstance(o, _float):
            return True
        return _isinstance(o, C.SNum) and C.kind(o.raw) == "f"

    def __subclasscheck__(cls, o):
        return o is cls or o is _float

    def __getattr__(cls, n):
        return getattr(_float, n)

    def __eq__(cls, o):
        return o is cls or o is _float

    def __hash__(cls):
        return hash(_float)


class sfloat(metaclass=_FMeta):
    _sym_name = "float"


class _IMeta(type):
    def __call__(cls, *a, **k):
        return toint(*a, **k)

    def __instancecheck__(cls, o):
        if _isinstance(o, _int):
            return True
        return _isinstance(o, C.SNum) and C.kind(o.raw) == "i" and not o.npy

    def __subclasscheck__(cls, o):
        return o is cls or o in (_int, _bool)

    def __getattr__(cls, n):
        return getattr(_int, n)

    def __eq__(cls, o):
        return o is cls or o is _int

    def __hash__(cls):
        return hash(_int)


class sint(metaclass=_IMeta):
    _sym_name = "int"


class _BMeta(type):
    def __call__(cls, x=False):
        if _isinstance(x, C.SBool):
            return x
        if _isinstance(x, C.SNum):
            r = C.to_kind(x.raw, "b")
            return C.wrap(r)
        return _bool(x)

    def __instancecheck__(cls, o):
        return _isinstance(o, (_bool, C.SBool))

    def __subclasscheck__(cls, o):
        return o is cls or o is _bool

    def __eq__(cls, o):
        return o is cls or o is _bool

    def __hash__(cls):
        return hash(_bool)


class sbool(metaclass=_BMeta):
    _sym_name = "bool"


class _SMeta(type):
    def __call__(cls, *a, **k):
        if not a:
            return ""
        x = a[0]
        if _isinstance(x, SStr):
            return x
        if _isinstance(x, _str) and is_symstr(x):
            return mk(x)
        return mk(_str(*a, **k))

    def __instancecheck__(cls, o):
        return _isinstance(o, _str)

    def __subclasscheck__(cls, o):
        return o is cls or issubclass(o, _str)

    def __getattr__(cls, n):
        f = getattr(_str, n)

        def g(self, *a, **k):
            return getattr(self, n)(*a, **k)
        return g if callable(f) else f

    def __eq__(cls, o):
        return o is cls or o is _str

    def __hash__(cls):
        return hash(_str)


class sstr(metaclass=_SMeta):
    _sym_name = "str"
