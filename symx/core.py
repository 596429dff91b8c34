"""Symbolic values and the path explorer.

Raw values (what arrays hold and scalars wrap):

* bool / z3 Bool                          logical dtype ``b``
* int / z3 Int                            logical dtype ``i``
* Fraction / special float / z3 Real      logical dtype ``f`` (exact reals;
                                          special = +inf, -inf, nan)
* Cx(re, im)                              logical dtype ``c``
* anything else                           logical dtype ``O``

Floating point numbers of the implementation are interpreted as exact reals:
a python float is read through its shortest decimal representation.
"""

import builtins
import math
import sys
import time
from fractions import Fraction

import z3

if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)

_isinstance = builtins.isinstance

INF = float("inf")
NINF = float("-inf")
NAN = float("nan")


class Unsupported(BaseException):
    """The facade does not model this operation on symbolic values."""


class PathEnd(BaseException):
    """The path was cut (infeasible requirement, or a declared bound)."""


class Budget(BaseException):
    """Exploration budget used up."""


# --------------------------------------------------------------------------
# engine


class Engine:
    """State of the path that is being executed."""

    def __init__(self):
        self.reset_case()

    # ---- case level -----------------------------------------------------
    def reset_case(self, seed=1, query_ms=8000, deadline=None, max_paths=100000):
        self.seed = seed
        self.query_ms = query_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.queries = 0
        self.solver_s = 0.0
        self.unknown_forks = 0
        self.transitions = 0
        self.begin_path([])

    # ---- path level -----------------------------------------------------
    def begin_path(self, prefix):
        self.prefix = prefix
        self.decisions = []          # (choice, n_alternatives list)
        self.pending = []            # prefixes discovered on this path
        self.pc = []
        self.solver = z3.SolverFor("ALL") if False else z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.solver.set("random_seed", self.seed % 1000)
        self.fresh_n = 0
        self.memo = {}
        self.bounds = {}
        self.ranges = {}
        self.hard = False       # nonlinear definitions on the path
        self.narrowed = False   # values rounded to a narrow dtype on the path
        self.uf_memo = {}
        self.keep = []               # keeps memoised expressions alive
        self.inputs = {}             # name -> raw value or concrete choice
        self.input_order = []
        self.unsure = False
        self.in_check = False
        self.aborted = None
        self.model_cache = None
        self.uf_terms = {}

    def fresh(self, prefix, sort="Real"):
        self.fresh_n += 1
        n = f"{prefix}!{self.fresh_n}"
        if sort == "Real":
            return z3.Real(n)
        if sort == "Int":
            return z3.Int(n)
        return z3.Bool(n)

    def add(self, c):
        if c is True or (z3.is_expr(c) and z3.is_true(c)):
            return
        if c is False:
            c = z3.BoolVal(False)
        self.pc.append(c)
        self.solver.add(c)
        m = self.model_cache
        if m is not None:
            try:
                if not z3.is_true(m.eval(c, model_completion=True)):
                    self.model_cache = None
            except z3.Z3Exception:
                self.model_cache = None

    def ask(self, *extra):
        """Satisfiability of the path condition with `extra`."""
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time")
        m = self.model_cache
        if m is not None and not self.uf_terms:
            ok = True
            for c in extra:
                try:
                    if not z3.is_true(m.eval(c, model_completion=True)):
                        ok = False
                        break
                except z3.Z3Exception:
                    ok = False
                    break
            if ok:
                return z3.sat
        t0 = time.time()
        self.queries += 1
        quick = min(1000, self.query_ms)
        self.solver.set("timeout", quick)
        r = self.solver.check(*extra)
        if r == z3.unknown:
            r = self._second_opinion(extra, 2 * quick, ("qfnra-nlsat",))
        if r == z3.unknown and self.query_ms > quick:
            self.solver.set("timeout", self.query_ms)
            r = self.solver.check(*extra)
            if r == z3.unknown:
                r = self._second_opinion(extra, self.query_ms, ("qfnra-nlsat", "smt"))
        self.solver_s += time.time() - t0
        if r == z3.sat:
            try:
                self.last_model = self._m2 if self._m2 is not None else self.solver.model()
                self.model_cache = self.last_model if _plain(self.last_model) else None
            except z3.Z3Exception:
                self.last_model = None
        return r

    _m2 = None
    last_model = None

    def _second_opinion(self, extra, ms, tactics):
        self._m2 = None
        for tac in tactics:
            try:
                s = z3.Tactic(tac).solver() if tac != "smt" else z3.SimpleSolver()
                s.set("timeout", ms)
                s.add(*self.pc)
                s.add(*extra)
                r = s.check()
                if r != z3.unknown:
                    if r == z3.sat:
                        self._m2 = s.model()
                    return r
            except z3.Z3Exception:
                continue
        return z3.unknown

    def check(self, *extra):
        self._m2 = None
        return self.ask(*extra)

    def fork(self, alternatives):
        """Pick one of the z3 conditions (a list); returns its index.

        The alternatives must be exhaustive under the path condition.
        """
        if self.in_check:
            raise Unsupported("fork inside a property condition")
        k = len(self.decisions)
        if k < len(self.prefix):
            i = self.prefix[k]
            self.decisions.append(i)
            self.add(alternatives[i])
            return i
        feas = []
        self.transitions += 1
        for i, c in enumerate(alternatives):
            if z3.is_false(z3.simplify(c)):
                continue
            if not feas and i == len(alternatives) - 1:
                # exhaustive: the only one left holds on the path
                feas.append(i)
                break
            r = self.check(c)
            if r == z3.unsat:
                continue
            if r == z3.unknown:
                self.unknown_forks += 1
                self.unsure = True
            feas.append(i)
        if not feas:
            raise PathEnd("infeasible")
        i = feas[0]
        for j in feas[1:]:
            self.pending.append(self.decisions + [j])
        self.decisions.append(i)
        self.add(alternatives[i])
        return i

    def branch(self, c):
        """Truth value of a z3 Bool on this path."""
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self.fork([s, z3.Not(s)]) == 0

    def concretize_int(self, e, limit=64):
        """A concrete integer value of `e`: one path per feasible value."""
        if _isinstance(e, int):
            return int(e)
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        if self.in_check:
            raise Unsupported("concretisation inside a property condition")
        k = len(self.decisions)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.decisions.append(v)
            self.add(s == v)
            return v
        vals = []
        self.transitions += 1
        extra = []
        while len(vals) <= limit:
            self.model_cache = None
            r = self.check(*extra)
            if r == z3.unsat:
                break
            if r == z3.unknown:
                self.unknown_forks += 1
                self.unsure = True
                break
            v = self.last_model.eval(s, model_completion=True)
            if not z3.is_int_value(v):
                raise Unsupported("integer term without a value")
            v = v.as_long()
            vals.append(v)
            extra.append(s != v)
        else:
            raise Unsupported(f"more than {limit} values for an index or size")
        if not vals:
            raise PathEnd("infeasible")
        vals.sort()
        for v in vals[1:]:
            self.pending.append(self.decisions + [v])
        self.decisions.append(vals[0])
        self.add(s == vals[0])
        return vals[0]


E = Engine()


# --------------------------------------------------------------------------
# raw values

class Cx:
    """Complex raw value."""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return f"Cx({self.re},{self.im})"


def is_z(x):
    return _isinstance(x, z3.ExprRef)


def is_special(x):
    return type(x) is float


def frac_of_float(x):
    if x != x or x in (INF, NINF):
        return float(x)
    return Fraction(repr(float(x)))


def kind(r):
    """Logical dtype of a raw value."""
    t = type(r)
    if t is bool:
        return "b"
    if t is int:
        return "i"
    if t is Fraction or t is float:
        return "f"
    if t is Cx:
        return "c"
    if is_z(r):
        if z3.is_bool(r):
            return "b"
        if z3.is_int(r):
            return "i"
        if z3.is_real(r):
            return "f"
    return "O"


_ORDER = {"b": 0, "i": 1, "f": 2, "c": 3, "O": 4}


def promote(*ks):
    return max(ks, key=lambda k: _ORDER[k])


def zreal(r):
    """z3 Real of a finite real raw value."""
    if _isinstance(r, Fraction):
        return z3.Q(r.numerator, r.denominator)
    if _isinstance(r, bool):
        return z3.RealVal(1 if r else 0)
    if _isinstance(r, int):
        return z3.RealVal(r)
    if is_z(r):
        if z3.is_real(r):
            return r
        if z3.is_int(r):
            return z3.ToReal(r)
        return z3.If(r, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"no real term for {r!r}")


def zint(r):
    if _isinstance(r, bool):
        return z3.IntVal(1 if r else 0)
    if _isinstance(r, int):
        return z3.IntVal(r)
    if is_z(r):
        if z3.is_int(r):
            return r
        if z3.is_bool(r):
            return z3.If(r, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"no integer term for {r!r}")


def zbool(r):
    if _isinstance(r, bool):
        return z3.BoolVal(r)
    if is_z(r) and z3.is_bool(r):
        return r
    raise Unsupported(f"no boolean term for {r!r}")


def unz(e):
    """Fold a z3 value into a python one when it is a literal."""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def simp(e):
    if is_z(e):
        return unz(z3.simplify(e))
    return e


def to_kind(r, k):
    """Cast a raw value to logical dtype k (numpy astype semantics)."""
    c = kind(r)
    if c == k:
        return r
    if k == "O":
        return r
    if c == "O":
        raise TypeError(f"cannot convert {type(r).__name__}")
    if k == "c":
        return Cx(to_kind(r, "f"), Fraction(0))
    if c == "c":
        return to_kind(r.re, k)
    if k == "f":
        if is_z(r):
            return zreal(r)
        return Fraction(int(r))
    if k == "i":
        if c == "b":
            return zint(r) if is_z(r) else int(r)
        return trunc(r)
    if k == "b":
        return ne(r, 0 if c == "i" else Fraction(0))
    raise Unsupported(f"cast {c}->{k}")


def trunc(r):
    if is_z(r):
        if z3.is_int(r):
            return r
        return simp(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
    if is_special(r):
        # numpy: undefined (INT_MIN); python: raises.  Callers check.
        return -(2 ** 63)
    return int(r)


def floor_(r):
    if is_z(r):
        return r if z3.is_int(r) else simp(z3.ToInt(r))
    return math.floor(r)


def rint(r):
    """Round half to even, as an integer raw value."""
    if is_z(r):
        if z3.is_int(r):
            return r
        f = z3.ToInt(r + z3.Q(1, 2))
        tie = z3.And(z3.ToReal(f) == r + z3.Q(1, 2), f % 2 != 0)
        return simp(z3.If(tie, f - 1, f))
    return round(r)


NARROW = {"float32": 24, "float16": 11, "complex64": 24, "int8": 8, "int16": 16, "int32": 32,
          "uint8": 8, "uint16": 16, "uint32": 32}


def _unit(r):
    """The power of two that `r` is a whole multiple of, where that shows."""
    if z3.is_to_real(r):
        return z3.Q(1, 1)
    if z3.is_mul(r) and r.num_args() == 2:
        a, b = r.arg(0), r.arg(1)
        if z3.is_rational_value(b):
            a, b = b, a
        if z3.is_rational_value(a) and z3.is_to_real(b):
            p, q = abs(a.numerator_as_long()), a.denominator_as_long()
            if p and p & (p - 1) == 0 and q & (q - 1) == 0:
                return z3.Q(p, q)
    return None


def narrow(r, name):
    """The value as a narrow dtype keeps it: floats rounded, integers wrapped."""
    if name is None or is_special(r):
        return r
    n = NARROW[name]
    k = kind(r)
    if k == "c":
        return Cx(narrow(r.re, "float32"), narrow(r.im, "float32")) if _isinstance(r, Cx) else r
    if k == "i":
        low = 0 if name[0] == "u" else -(1 << (n - 1))
        if not is_z(r):
            return (r - low) % (1 << n) + low
        return simp((r - low) % (1 << n) + low)
    if k != "f":
        return r
    if not is_z(r):
        import numpy
        v = float(numpy.dtype(name).type(float(r)))
        return frac_of_float(v)
    r = simp(r)
    key = ("narrow", name, r.get_id())
    y = E.uf_memo.get(key)
    if y is None:
        y = E.fresh("narrow")
        E.uf_memo[key] = y
        E.keep.append(r)
        E.narrowed = True
        d, m = y - r, z3.Q(1, 1 << n)
        E.add(z3.If(r >= 0, z3.And(d <= m * r, d >= -m * r), z3.And(d <= -m * r, d >= m * r)))
        unit = _unit(r)         # whole multiples of a power of two are kept
        if unit is not None:
            E.add(z3.Implies(z3.And(r <= unit * (1 << n), r >= -unit * (1 << n)), y == r))
    return y


def _num2(a, b):
    """Common arithmetic kind of two raw values; bool -> int."""
    k = promote(kind(a), kind(b))
    if k == "O":
        raise TypeError("unsupported operand types")
    if k == "b":
        k = "i"
    return k, to_kind(a, k), to_kind(b, k)


def _spec(x):
    return float(x) if not is_z(x) else None


def add(a, b):
    k, a, b = _num2(a, b)
    if k == "c":
        return Cx(add(a.re, b.re), add(a.im, b.im))
    if is_special(a) or is_special(b):
        return _special_add(a, b)
    if is_z(a) or is_z(b):
        if not is_z(a) and a == 0:
            return b
        if not is_z(b) and b == 0:
            return a
        z = zreal if k == "f" else zint
        return z(a) + z(b)
    return a + b


def _special_add(a, b):
    if is_special(a) and is_special(b):
        return a + b
    return a if is_special(a) else b


def neg(a):
    k = kind(a)
    if k == "c":
        return Cx(neg(a.re), neg(a.im))
    if k == "b":
        a = to_kind(a, "i")
    return -a


def sub(a, b):
    k, a, b = _num2(a, b)
    if k == "c":
        return Cx(sub(a.re, b.re), sub(a.im, b.im))
    return add(a, neg(b))


def sign_known(a):
    """Sign of a real raw value on this path (forks)."""
    if not is_z(a):
        return (a > 0) - (a < 0)
    i = E.fork([a > 0, a < 0, a == 0])
    return (1, -1, 0)[i]


def mul(a, b):
    k, a, b = _num2(a, b)
    if k == "c":
        return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)),
                  add(mul(a.re, b.im), mul(a.im, b.re)))
    if is_special(a) or is_special(b):
        if is_special(a) and a != a or is_special(b) and b != b:
            return NAN
        sa = (1 if a > 0 else -1) if is_special(a) else sign_known(a)
        sb = (1 if b > 0 else -1) if is_special(b) else sign_known(b)
        s = sa * sb
        return NAN if s == 0 else s * INF
    if is_z(a) or is_z(b):
        if not is_z(a):
            if a == 0:
                return Fraction(0) if k == "f" else 0
            if a == 1:
                return b
        if not is_z(b):
            if b == 0:
                return Fraction(0) if k == "f" else 0
            if b == 1:
                return a
        z = zreal if k == "f" else zint
        return z(a) * z(b)
    return a * b


class _ZeroDiv(Exception):
    pass


def truediv(a, b, npy=True):
    """True division.  npy selects numpy's rules for a zero divisor."""
    k, a, b = _num2(a, b)
    if k == "i":
        k = "f"
        a, b = to_kind(a, "f"), to_kind(b, "f")
    if k == "c":
        if not is_z(b.im) and not is_special(b.im) and b.im == 0:
            return Cx(truediv(a.re, b.re, npy), truediv(a.im, b.re, npy))
        d = add(mul(b.re, b.re), mul(b.im, b.im))
        n = mul(a, Cx(b.re, neg(b.im)))
        return Cx(truediv(n.re, d, npy), truediv(n.im, d, npy))
    if is_special(b):
        if b != b or is_special(a):
            return NAN
        return Fraction(0)
    if is_z(b):
        bs = simp(b)
        if not is_z(bs):
            b = bs
    if is_z(b):
        if E.branch(b == 0):
            b = Fraction(0)
    if not is_z(b) and b == 0:
        if not npy:
            raise ZeroDivisionError("division by zero")
        if is_special(a):
            return a if a == a else NAN
        s = sign_known(a)
        return NAN if s == 0 else s * INF
    if is_special(a):
        if a != a:
            return NAN
        return a * sign_known(b)
    if is_z(a) or is_z(b):
        if not is_z(a) and a == 0:
            return Fraction(0)
        if not is_z(b):
            return mul(a, 1 / b)
        q = _poly_div(a, b)
        if q is not None:
            return q
        return zreal(a) / zreal(b)
    return a / b


def floordiv(a, b, npy=True):
    k, a, b = _num2(a, b)
    if k == "c":
        raise TypeError("can't take floor of complex number")
    if k == "i":
        if is_z(b):
            if E.branch(b == 0):
                b = 0
        if not is_z(b) and b == 0:
            if not npy:
                raise ZeroDivisionError("integer division or modulo by zero")
            return 0
        if is_z(a) or is_z(b):
            # python floors; z3 div is euclidean: same for positive divisor
            za, zb = zint(a), zint(b)
            if not is_z(b):
                return za / zb if b > 0 else (-za) / (-zb)
            return z3.If(zb > 0, za / zb, (-za) / (-zb))
        return a // b
    q = truediv(a, b, npy)
    if is_special(q):
        return q
    return to_kind(floor_(q), "f")


def mod(a, b, npy=True):
    k, a, b = _num2(a, b)
    if k == "i" and not is_z(b) and b == 0 and npy:
        return 0
    q = floordiv(a, b, npy)
    if is_special(q):
        return NAN
    return sub(a, mul(b, q))


def power(a, b, npy=True):
    if not is_z(b):
        if kind(b) in "bi" or (_isinstance(b, Fraction) and b.denominator == 1):
            n = int(b)
            fl = kind(b) == "f"
            base = to_kind(a, "f") if fl and kind(a) in "bi" else a
            if abs(n) <= 12:
                out = to_kind(1, kind(base) if kind(base) != "b" else "i")
                for _ in range(abs(n)):
                    out = mul(out, base)
                return out if n >= 0 else truediv(Fraction(1), to_kind(out, "f"), npy)
        if b == Fraction(1, 2):
            return sqrt(a)
    if not is_z(a) and not is_z(b):
        return frac_of_float(float(a) ** float(b))
    raise Unsupported("power with symbolic exponent")


def lt(a, b):
    return _cmp(a, b, "lt")


def le(a, b):
    return _cmp(a, b, "le")


def gt(a, b):
    return _cmp(b, a, "lt")


def ge(a, b):
    return _cmp(b, a, "le")


def _cmp(a, b, op):
    k, a, b = _num2(a, b)
    if k == "c":
        # numpy orders complex numbers lexicographically
        first = _cmp(a.re, b.re, "lt")
        second = land(eq(a.re, b.re), _cmp(a.im, b.im, op))
        return lor(first, second)
    if is_special(a) or is_special(b):
        fa = a if is_special(a) else 0.0
        fb = b if is_special(b) else 0.0
        return fa < fb if op == "lt" else fa <= fb
    if is_z(a) or is_z(b):
        z = zreal if k == "f" else zint
        e = z(a) < z(b) if op == "lt" else z(a) <= z(b)
        return e
    return a < b if op == "lt" else a <= b


def eq(a, b):
    ka, kb = kind(a), kind(b)
    if ka == "O" or kb == "O":
        r = a == b
        return r.raw if _isinstance(r, SBool) else bool(r)
    if ka == "b" and kb == "b":
        if is_z(a) or is_z(b):
            return zbool(a) == zbool(b)
        return a == b
    k, a, b = _num2(a, b)
    if k == "c":
        return land(eq(a.re, b.re), eq(a.im, b.im))
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b):
            return a == b
        return False
    if is_z(a) or is_z(b):
        z = zreal if k == "f" else zint
        return z(a) == z(b)
    return a == b


def ne(a, b):
    return lnot(eq(a, b))


def lnot(a):
    if is_z(a):
        return z3.Not(a)
    return not a


def land(*xs):
    out = []
    for x in xs:
        if is_z(x):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*xs):
    out = []
    for x in xs:
        if is_z(x):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def ite(c, a, b):
    if not is_z(c):
        return a if c else b
    ka, kb = kind(a), kind(b)
    if ka == kb == "b":
        return z3.If(c, zbool(a), zbool(b))
    k, a, b = _num2(a, b)
    if k == "c":
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b) and (a == b or (a != a and b != b)):
            return a
        return a if E.branch(c) else b
    if not is_z(a) and not is_z(b) and a == b:
        return a
    z = zreal if k == "f" else zint
    return z3.If(c, z(a), z(b))


def poly(e):
    """{monomial: coefficient} of a polynomial z3 term, or None.

    A monomial is a sorted tuple of (leaf id, leaf, power).
    """
    e = z3.simplify(e, som=True)
    terms = e.children() if z3.is_add(e) else [e]
    if len(terms) > 64:
        return None
    out = {}
    for t in terms:
        c, vs = Fraction(1), {}
        fs = t.children() if z3.is_mul(t) else [t]
        for f in fs:
            n = 1
            if z3.is_app_of(f, z3.Z3_OP_UMINUS):
                c, f = -c, f.arg(0)
            if z3.is_app_of(f, z3.Z3_OP_POWER) and z3.is_rational_value(f.arg(1)):
                q = f.arg(1).as_fraction()
                if q.denominator != 1 or q < 1:
                    return None
                n, f = int(q), f.arg(0)
            if z3.is_rational_value(f):
                c *= f.as_fraction() ** n
            elif z3.is_int_value(f):
                c *= Fraction(f.as_long()) ** n
            elif z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                k = f.get_id()
                vs[k] = (k, f, vs[k][2] + n if k in vs else n)
            else:
                return None
        m = tuple(sorted(vs.values(), key=lambda v: v[0]))
        key = tuple((k, n) for k, _, n in m)
        old = out.get(key)
        out[key] = (m, c + (old[1] if old else 0))
    return {k: v for k, v in out.items() if v[1] != 0}


def _plain(m):
    """No algebraic numbers in a model (evaluating with those can take forever)."""
    for d in m.decls():
        if d.arity() == 0 and z3.is_algebraic_value(m[d]):
            return False
    return True


class _TooBig(Exception):
    pass


def _pmul(p, q):
    if len(p) * len(q) > 400000:
        raise _TooBig
    out = {}
    for m, c in p.items():
        for n, d in q.items():
            k = m
            if n:
                v = dict(m)
                for x, e in n:
                    v[x] = v.get(x, 0) + e
                k = tuple(sorted(v.items()))
            out[k] = out.get(k, 0) + c * d
    return {k: v for k, v in out.items() if v}


def _padd(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        v = out.get(m, 0) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def _ratio(e, memo):
    """A real term as (polynomial, {divisor: power}); None where it is more than
    a ratio of polynomials.  Divisors are known to be nonzero on the path."""
    k = e.get_id()
    if k not in memo:
        memo[k] = _ratio1(e, memo)
    return memo[k]


def _ratio1(e, memo):
    if z3.is_rational_value(e):
        c = e.as_fraction()
        return ({(): c} if c else {}), {}
    op = e.decl().kind()
    if (z3.is_const(e) and op == z3.Z3_OP_UNINTERPRETED) or op in (z3.Z3_OP_TO_REAL, z3.Z3_OP_ITE,
                                                                   z3.Z3_OP_UNINTERPRETED):
        E.keep.append(e)
        return {((e.get_id(), 1),): Fraction(1)}, {}
    if op == z3.Z3_OP_POWER:
        if not z3.is_rational_value(e.arg(1)):
            return None
        q = e.arg(1).as_fraction()
        if q.denominator != 1 or not 1 <= q <= 8:
            return None
        rs, op = [_ratio(e.arg(0), memo)] * int(q), z3.Z3_OP_MUL
    elif op in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        rs = [_ratio(c, memo) for c in e.children()]
    else:
        return None
    if any(r is None for r in rs):
        return None
    n, d = rs[0]
    if op == z3.Z3_OP_UMINUS:
        return {m: -c for m, c in n.items()}, d
    for a, b in rs[1:]:
        if op == z3.Z3_OP_DIV:
            if not a:
                return None
            # a divisor counts up to a constant factor
            (m0, c0) = min(a.items())
            key = tuple(sorted((m, c / c0) for m, c in a.items()))
            a, b = {(): 1 / c0}, b
            for f, k in b.items():
                for _ in range(k):
                    a = _pmul(a, dict(f))
            n = _pmul(n, a)
            if key != (((), 1),):
                d = {**d, key: d.get(key, 0) + 1}
        elif op == z3.Z3_OP_MUL:
            n = _pmul(n, a)
            d = dict(d)
            for f, k in b.items():
                d[f] = d.get(f, 0) + k
        else:
            if b != d:
                both = {f: max(d.get(f, 0), b.get(f, 0)) for f in {**d, **b}}
                for f, k in both.items():
                    for _ in range(k - d.get(f, 0)):
                        n = _pmul(n, dict(f))
                    for _ in range(k - b.get(f, 0)):
                        a = _pmul(a, dict(f))
                d = both
            n = _padd(n, a, 1 if op == z3.Z3_OP_ADD else -1)
    return n, d


def same_ratio(a, b):
    """a and b are the same ratio of polynomials."""
    if is_special(a) or is_special(b) or kind(a) not in "if" or kind(b) not in "if":
        return False
    try:
        memo = {}
        r = _ratio(zreal(a) - zreal(b), memo)
        if r is None:
            return False
        if not r[0]:
            return True
        if max(abs(c) for c in r[0].values()) > Fraction(1, 10 ** 7):
            return False
        # constants are rounded to 1e-12: what is left of the difference is noise
        # when it is tiny next to the terms it is left of
        rb = _ratio(zreal(b), memo)
        big = max((abs(c) for c in rb[0].values()), default=Fraction(0)) if rb else Fraction(0)
        return max(abs(c) for c in r[0].values()) <= big / 10 ** 9
    except (_TooBig, z3.Z3Exception):
        return False


def _poly_term(p):
    acc = Fraction(0)
    for m, c in p:
        t = c
        for _, f, n in m:
            for _ in range(n):
                t = mul(t, f)
        acc = add(acc, t)
    return acc


def _poly_div(a, b):
    """a / b when b is one monomial (known nonzero) that divides a, else None."""
    if not is_z(b):
        return None
    pb = poly(b)
    if pb is None or len(pb) != 1:
        return None
    (mb, cb), = pb.values()
    if not mb:
        return None
    pa = poly(a) if is_z(a) else None
    if not pa:
        return None
    out = []
    need = {k: n for k, _, n in mb}
    for m, c in pa.values():
        have = {k: (f, n) for k, f, n in m}
        if any(k not in have or have[k][1] < n for k, n in need.items()):
            return None
        left = [(k, f, n - need.get(k, 0)) for k, f, n in m if n > need.get(k, 0)]
        out.append((left, c / cb))
    return _poly_term(out)


def _square_root_monomial(e):
    """|c| and the variables of e when e = c^2 * (monomial)^2, else None."""
    p = poly(e)
    if p is None or len(p) != 1:
        return None
    (m, c), = p.values()
    if not m or c < 0 or any(n % 2 for _, _, n in m):
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        r = _snap_root(math.sqrt(c))
    else:
        r = Fraction(n, d)
    return _poly_term([([(k, f, n // 2) for k, f, n in m], r)])


def absval(a):
    k = kind(a)
    if k == "c":
        if not is_z(a.im) and not is_special(a.im) and a.im == 0:
            return absval(a.re)
        return sqrt(add(mul(a.re, a.re), mul(a.im, a.im)), nonneg=True)
    if k == "b":
        return a
    if is_z(a):
        s = simp(a)
        if not is_z(s):
            return abs(s)
        return _memo("abs", a, lambda e: z3.If(e >= 0, e, -e))
    return abs(a)


def _memo(tag, e, make):
    e = z3.simplify(e, som=True)
    key = (tag, e.get_id())
    if key in E.memo:
        return E.memo[key]
    E.keep.append(e)
    out = make(e)
    E.memo[key] = out
    return out


def sqrt(a, nonneg=False):
    k = kind(a)
    if k == "c":
        raise Unsupported("complex sqrt")
    a = to_kind(a, "f")
    if is_special(a):
        return math.sqrt(a) if a > 0 else NAN
    if not is_z(a):
        if a < 0:
            return NAN
        n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
        if n * n == a.numerator and d * d == a.denominator:
            return Fraction(n, d)
        return _snap_root(math.sqrt(a))

    s0 = z3.simplify(a, som=True)
    if z3.is_rational_value(s0):
        return sqrt(unz(s0))

    root = _square_root_monomial(s0)
    if root is not None:
        return root if E.branch(zreal(root) >= 0) else neg(root)

    def make(e):
        if not nonneg and E.branch(e < 0):
            return NAN
        E.hard = True
        s = E.fresh("sqrt")
        E.add(z3.And(s >= 0, s * s == e))
        E.keep.append(s)
        return s
    if _has_div(s0):
        try:
            r = _ratio(s0, {})
        except (_TooBig, z3.Z3Exception):
            r = None
        if r is not None:
            key = ("sqrt ratio", frozenset((m, round(c * 10 ** 9)) for m, c in r[0].items()
                                           if abs(c) > Fraction(1, 10 ** 9)), frozenset(r[1].items()))
            if key not in E.memo:
                E.keep.append(s0)
                E.memo[key] = make(s0)
            return E.memo[key]
    return _memo("sqrt", s0, make)


def _has_div(e, limit=4000):
    """Whether a term divides by a term (bounded look)."""
    seen, todo = set(), [e]
    while todo and len(seen) < limit:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_DIV):
            return True
        todo.extend(x.children())
    return False


SNAP = 10 ** 12


def snap(x):
    """Nearest multiple of 1e-12 to a transcendental constant."""
    if x != x or x in (INF, NINF):
        return float(x)
    if abs(x) > 1e6:
        return frac_of_float(x)
    return Fraction(round(x * SNAP), SNAP)


def _snap_root(x):
    """The same with twelve significant digits for small roots (tiny records)."""
    if not 1e-12 <= x < 1e-2:
        return snap(x)
    scale = 10 ** (12 + math.ceil(-math.log10(x)))
    return Fraction(round(x * scale), scale)


def uf(name, a, bounds=None):
    """Uninterpreted real function of a symbolic real."""
    def make(e):
        f = z3.Function("uf_" + name, z3.RealSort(), z3.RealSort())
        t = f(e)
        if bounds:
            E.add(z3.And(t >= bounds[0], t <= bounds[1]))
        E.uf_terms[name] = True
        return t
    return _memo("uf_" + name, a, make)


def cos_sin(th):
    """(cos, sin) of a real raw value."""
    th = simp(to_kind(th, "f"))
    if is_special(th):
        return NAN, NAN
    if not is_z(th):
        return snap(math.cos(th)), snap(math.sin(th))

    def make(e):
        fc = z3.Function("uf_cos", z3.RealSort(), z3.RealSort())
        fs = z3.Function("uf_sin", z3.RealSort(), z3.RealSort())
        c, s = fc(e), fs(e)
        E.add(c * c + s * s == 1)
        E.uf_terms["cos"] = True
        return c, s
    return _memo("cossin", th, make)


def unary_float(name, a, fn):
    """Elementary function: exact constants snapped, symbols uninterpreted."""
    a = simp(to_kind(a, "f")) if kind(a) != "c" else a
    if _isinstance(a, Cx):
        raise Unsupported(name + " of complex")
    if is_z(a):
        return uf(name, a)
    try:
        return snap(fn(float(a)))
    except ValueError:
        return NAN
    except OverflowError:
        return INF


def cexp(a):
    if kind(a) != "c":
        return unary_float("exp", a, math.exp)
    c, s = cos_sin(a.im)
    re = simp(a.re)
    if not is_z(re) and not is_special(re) and re == 0:
        return Cx(c, s)
    m = unary_float("exp", a.re, math.exp)
    return Cx(mul(m, c), mul(m, s))


def isnan(a):
    k = kind(a)
    if k == "c":
        return lor(isnan(a.re), isnan(a.im))
    if k == "O":
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return is_special(a) and a != a


def isinf(a):
    return is_special(a) and a in (INF, NINF)


def is_sym(r):
    if _isinstance(r, Cx):
        return is_sym(r.re) or is_sym(r.im)
    return is_z(r)


def truth(r):
    """Truth value of a raw value on this path."""
    if is_z(r):
        if z3.is_bool(r):
            return E.branch(r)
        return E.branch(r != 0)
    if _isinstance(r, Cx):
        return truth(lor(ne(r.re, Fraction(0)), ne(r.im, Fraction(0))))
    return bool(r)


# --------------------------------------------------------------------------
# scalars


def raw_of(x):
    """Raw value of anything scalar-like that the target code can hold."""
    t = type(x)
    if t is SNum or t is SBool:
        return x.raw
    if t is bool or t is int or t is Fraction:
        return x
    if t is float:
        return frac_of_float(x)
    if t is complex:
        return Cx(frac_of_float(x.real), frac_of_float(x.imag))
    if t is SCplx:
        return x.raw
    if t is Cx or is_z(x):
        return x
    if _isinstance(x, (SNum, SBool)):
        return x.raw
    if _isinstance(x, bool):
        return bool(x)
    if _isinstance(x, int):
        return int(x)
    if _isinstance(x, float):
        return frac_of_float(float(x))
    mod_ = type(x).__module__
    if mod_ == "numpy" or mod_.startswith("numpy"):
        if hasattr(x, "item") and getattr(x, "shape", None) == ():
            return raw_of(x.item())
    if hasattr(x, "_is_sarr") and x.data.ndim == 0:
        return x.data[()]
    return x


def wrap(r, npy=False):
    """Scalar for the target code from a raw value."""
    k = kind(r)
    if k == "b":
        return r if _isinstance(r, bool) else SBool(r)
    if k == "i":
        return r if _isinstance(r, int) else SNum(r, npy)
    if k == "f":
        return SNum(r, npy)
    if k == "c":
        return SCplx(r)
    return r


def is_scalar(x):
    return kind(raw_of(x)) != "O"


class SBool:
    __slots__ = ("raw",)

    def __init__(self, raw):
        self.raw = raw

    def __bool__(self):
        return truth(self.raw)

    def _b(self, o, f):
        o = raw_of(o)
        if kind(o) == "b":
            return wrap(f(self.raw, o))
        return NotImplemented

    def __and__(self, o):
        if hasattr(o, "_is_sarr"):
            return NotImplemented
        r = raw_of(o)
        if kind(r) == "b":
            return wrap(land(self.raw, r))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        r = raw_of(o)
        if kind(r) == "b":
            return wrap(lor(self.raw, r))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        r = raw_of(o)
        if kind(r) == "b":
            return wrap(ne(self.raw, r))
        return NotImplemented
    __rxor__ = __xor__

    def __invert__(self):
        return wrap(lnot(self.raw))

    def __eq__(self, o):
        r = raw_of(o)
        if kind(r) == "O":
            return False
        return wrap(eq(self.raw, r))

    def __ne__(self, o):
        r = raw_of(o)
        if kind(r) == "O":
            return True
        return wrap(ne(self.raw, r))

    def __hash__(self):
        return hash(truth(self.raw))

    def _n(self):
        return SNum(zint(self.raw), True)

    def __add__(self, o):
        return self._n() + o

    def __radd__(self, o):
        return o + self._n()

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __index__(self):
        return int(truth(self.raw))

    __int__ = __index__

    def item(self):
        return self

    def __repr__(self):
        return "SBool"

    def __format__(self, spec):
        return "<sym>"


def _isarr(o):
    return hasattr(o, "_is_sarr")


class SNum:
    """Real or integer scalar."""
    __slots__ = ("raw", "npy")
    __array_priority__ = 1000

    def __init__(self, raw, npy=False):
        self.raw = raw
        self.npy = npy

    # -- arithmetic --
    def _bin(self, o, f, swap=False, div=False):
        if _isarr(o):
            return NotImplemented
        r = raw_of(o)
        if kind(r) == "O":
            return NotImplemented
        npy = self.npy or getattr(o, "npy", False)
        a, b = (r, self.raw) if swap else (self.raw, r)
        out = f(a, b, npy) if div else f(a, b)
        return wrap(out, npy)

    def __add__(self, o):
        return self._bin(o, add)

    def __radd__(self, o):
        return self._bin(o, add, True)

    def __sub__(self, o):
        return self._bin(o, sub)

    def __rsub__(self, o):
        return self._bin(o, sub, True)

    def __mul__(self, o):
        if _isinstance(o, (list, str, tuple)):
            return o * self.__index__()
        return self._bin(o, mul)

    def __rmul__(self, o):
        if _isinstance(o, (list, str, tuple)):
            return o * self.__index__()
        return self._bin(o, mul, True)

    def __truediv__(self, o):
        return self._bin(o, truediv, False, True)

    def __rtruediv__(self, o):
        return self._bin(o, truediv, True, True)

    def __floordiv__(self, o):
        return self._bin(o, floordiv, False, True)

    def __rfloordiv__(self, o):
        return self._bin(o, floordiv, True, True)

    def __mod__(self, o):
        return self._bin(o, mod, False, True)

    def __rmod__(self, o):
        return self._bin(o, mod, True, True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o):
        return self._bin(o, power, False, True)

    def __rpow__(self, o):
        return self._bin(o, power, True, True)

    def __neg__(self):
        return wrap(neg(self.raw), self.npy)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(absval(self.raw), self.npy)

    # -- comparison --
    def _c(self, o, f):
        if _isarr(o):
            return NotImplemented
        r = raw_of(o)
        if kind(r) == "O":
            return NotImplemented
        return wrap(f(self.raw, r))

    def __lt__(self, o):
        return self._c(o, lt)

    def __le__(self, o):
        return self._c(o, le)

    def __gt__(self, o):
        return self._c(o, gt)

    def __ge__(self, o):
        return self._c(o, ge)

    def __eq__(self, o):
        if _isarr(o):
            return NotImplemented
        r = raw_of(o)
        if kind(r) == "O":
            return NotImplemented
        return wrap(eq(self.raw, r))

    def __ne__(self, o):
        if _isarr(o):
            return NotImplemented
        r = raw_of(o)
        if kind(r) == "O":
            return NotImplemented
        return wrap(ne(self.raw, r))

    def __bool__(self):
        return truth(self.raw)

    def __hash__(self):
        r = simp(self.raw)
        if is_z(r):
            if z3.is_int(r):
                return hash(E.concretize_int(r))
            raise Unsupported("hash of a symbolic real")
        return hash(r)

    # -- conversion --
    def __int__(self):
        r = self.raw
        if is_special(r):
            if r != r:
                raise ValueError("cannot convert float NaN to integer")
            raise OverflowError("cannot convert float infinity to integer")
        return E.concretize_int(trunc(r))

    def __index__(self):
        if kind(self.raw) != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return E.concretize_int(self.raw)

    def __trunc__(self):
        return self.__int__()

    def __float__(self):
        r = simp(self.raw)
        if is_z(r):
            raise Unsupported("float() of a symbolic value outside the model")
        return float(r)

    def __round__(self, n=None):
        if n is None:
            if is_special(self.raw):
                return self.__int__()
            return wrap(rint(self.raw), self.npy)
        n = int(n)
        if kind(self.raw) == "i" and n >= 0:
            return self
        if is_special(self.raw):
            return self
        s = Fraction(10) ** n
        out = to_kind(rint(mul(to_kind(self.raw, "f"), s)), "f")
        out = mul(out, 1 / s)
        if kind(self.raw) == "i":
            out = trunc(out)
        return wrap(out, self.npy)

    def __floor__(self):
        return wrap(floor_(self.raw))

    def __ceil__(self):
        return wrap(neg(floor_(neg(self.raw))))

    # -- numpy scalar api --
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return wrap(to_kind(0, kind(self.raw)), self.npy)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        from .arr import dtype_obj
        return dtype_obj(kind(self.raw))

    def item(self):
        return wrap(self.raw, False)

    def tolist(self):
        return wrap(self.raw, False)

    def conjugate(self):
        return self

    conj = conjugate

    def is_integer(self):
        r = self.raw
        if kind(r) == "i":
            return True
        if is_z(r):
            return wrap(z3.IsInt(r))
        return not is_special(r) and r.denominator == 1

    def astype(self, dt):
        from .arr import norm_dtype
        return wrap(to_kind(self.raw, norm_dtype(dt)), True)

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def flatten(self):
        from .arr import SArr
        return SArr.of([self.raw])

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def round(self, n=0):
        return self.__round__(n)

    def squeeze(self, *a):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise AttributeError(f"'float' object has no attribute '{name}'")

    def __repr__(self):
        r = self.raw
        if is_z(r):
            return "<sym>"
        if kind(r) == "i":
            return repr(r)
        return repr(float(r))

    __str__ = __repr__

    def __format__(self, spec):
        r = self.raw
        if is_z(r):
            r2 = simp(r)
            if is_z(r2):
                return "<sym>"
            r = r2
        if kind(r) == "i":
            return format(r, spec)
        return format(float(r), spec)


class SCplx:
    __slots__ = ("raw",)

    def __init__(self, raw):
        self.raw = raw

    def _bin(self, o, f, swap=False, div=False):
        if _isarr(o):
            return NotImplemented
        r = raw_of(o)
        if kind(r) == "O":
            return NotImplemented
        a, b = (r, self.raw) if swap else (self.raw, r)
        return wrap(f(a, b, True) if div else f(a, b), True)

    def __add__(self, o):
        return self._bin(o, add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, sub)

    def __rsub__(self, o):
        return self._bin(o, sub, True)

    def __mul__(self, o):
        return self._bin(o, mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, truediv, False, True)

    def __rtruediv__(self, o):
        return self._bin(o, truediv, True, True)

    def __pow__(self, o):
        return self._bin(o, power, False, True)

    def __neg__(self):
        return SCplx(neg(self.raw))

    def __abs__(self):
        return wrap(absval(self.raw), True)

    def __eq__(self, o):
        r = raw_of(o)
        if kind(r) == "O":
            return NotImplemented
        return wrap(eq(self.raw, r))

    def __ne__(self, o):
        r = raw_of(o)
        if kind(r) == "O":
            return NotImplemented
        return wrap(ne(self.raw, r))

    def __lt__(self, o):
        return wrap(lt(self.raw, raw_of(o)))

    def __gt__(self, o):
        return wrap(gt(self.raw, raw_of(o)))

    def __hash__(self):
        return 0

    def __bool__(self):
        return truth(self.raw)

    @property
    def real(self):
        return wrap(self.raw.re, True)

    @property
    def imag(self):
        return wrap(self.raw.im, True)

    def conjugate(self):
        return SCplx(Cx(self.raw.re, neg(self.raw.im)))

    conj = conjugate

    def item(self):
        return self

    shape = ()
    ndim = 0

    def __format__(self, spec):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self


# --------------------------------------------------------------------------
# scalar reductions used by builtins and numpy alike


def rmax(a, b):
    """numpy maximum (nan propagates)."""
    if isnan(a):
        return a
    if isnan(b):
        return b
    return ite(ge(a, b), a, b)


def rmin(a, b):
    if isnan(a):
        return a
    if isnan(b):
        return b
    return ite(le(a, b), a, b)


def arg_extreme(xs, largest=True):
    """Index of the first maximum (minimum) of raw values: forks."""
    n = len(xs)
    if n == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    for i, x in enumerate(xs):
        if isnan(x):
            return i
    if not any(is_sym(x) for x in xs):
        best = 0
        for i in range(1, n):
            if truth(gt(xs[i], xs[best]) if largest else lt(xs[i], xs[best])):
                best = i
        return best
    alts = []
    for i in range(n):
        cs = []
        for j in range(n):
            if j == i:
                continue
            if largest:
                c = gt(xs[i], xs[j]) if j < i else ge(xs[i], xs[j])
            else:
                c = lt(xs[i], xs[j]) if j < i else le(xs[i], xs[j])
            cs.append(c)
        c = land(*cs)
        alts.append(zbool(c))
    return E.fork(alts)


def sort_perm(xs, stable=True):
    """A permutation that sorts raw values ascending (nan last): forks."""
    idx = []
    for i, x in enumerate(xs):
        pos = len(idx)
        # insertion: move left while strictly smaller
        while pos > 0:
            y = xs[idx[pos - 1]]
            if isnan(x):
                break
            if isnan(y) or truth(lt(x, y)):
                pos -= 1
            else:
                break
        idx.insert(pos, i)
    return idx
