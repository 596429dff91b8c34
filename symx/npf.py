"""numpy facade over SArr.  Unmodelled functions run on real numpy when every
argument is concrete and raise Unsupported otherwise."""

import builtins
import math
import sys
import types
from fractions import Fraction

import numpy as rnp

from . import core as C
from .arr import (SArr, DType, _DT, FLOAT32, norm_dtype, narrow_of, obj_array, from_real,
                  to_real, _nd, as_data, binop, result_scalar, coerce,
                  b_and, b_or, b_eq, b_add, b_mul, b_sub, _kdiv, _kb, _karith,
                  _conc_shape, _conc_int)
from .core import E, Unsupported

_isinstance = builtins.isinstance
_abs, _sum, _max, _min, _any, _all, _round = (
    builtins.abs, builtins.sum, builtins.max, builtins.min, builtins.any,
    builtins.all, builtins.round)

pi = math.pi
e = math.e
inf = float("inf")
Inf = inf
nan = float("nan")
NaN = nan
newaxis = None
ndarray = SArr
double = float64 = float_ = _DT["f"]
float32 = FLOAT32
float16 = DType("f", "float16")
int64 = int_ = intp = uint64 = _DT["i"]
int8, int16, int32, uint8, uint16, uint32 = (DType("i", _n) for _n in ("int8", "int16", "int32", "uint8", "uint16", "uint32"))
bool_ = _DT["b"]
complex128 = complex_ = cdouble = _DT["c"]
complex64 = DType("c", "complex64")
object_ = _DT["O"]
single, half, short, intc, csingle = float32, float16, int16, int32, complex64


def dtype(d):
    return _DT[norm_dtype(d)] if narrow_of(d) is None else DType(norm_dtype(d), narrow_of(d))


class _GenericMeta(type):
    def __instancecheck__(cls, o):
        if _isinstance(o, C.SNum) and o.npy:
            return C.kind(o.raw) in cls._ks
        return _isinstance(o, C.SCplx) and "c" in cls._ks


class generic(metaclass=_GenericMeta):
    _ks = "bifc"


class number(metaclass=_GenericMeta):
    _ks = "ifc"


class floating(metaclass=_GenericMeta):
    _ks = "f"


class integer(metaclass=_GenericMeta):
    _ks = "i"


class inexact(metaclass=_GenericMeta):
    _ks = "fc"


class complexfloating(metaclass=_GenericMeta):
    _ks = "c"


class finfo:
    def __init__(self, *a):
        self.eps = 2.220446049250313e-16
        self.max = 1.7976931348623157e308
        self.min = -self.max
        self.tiny = 2.2250738585072014e-308


class iinfo:
    def __init__(self, *a):
        self.max = 2 ** 63 - 1
        self.min = -2 ** 63


def A(x):
    return x if _isinstance(x, SArr) else SArr.of(x)


# ---------------------------------------------------------------- creation

def array(x, dtype=None, copy=True, ndmin=0, order=None, **kw):
    a = SArr.of(x, dtype)
    if dtype is not None and a.k != norm_dtype(dtype):
        a = a.astype(dtype)
    while a.data.ndim < ndmin:
        a = SArr(a.data[None], a.k, a.nar)
    return a


def asarray(x, dtype=None, **kw):
    if _isinstance(x, SArr) and (dtype is None or (norm_dtype(dtype) == x.k and narrow_of(dtype) == x.nar)):
        return x
    return array(x, dtype)


asanyarray = asfarray = ascontiguousarray = asarray


def zeros(shape, dtype=float, **kw):
    k = norm_dtype(dtype)
    return SArr.full(_conc_shape(shape), C.to_kind(0, k) if k != "O" else 0, k)._narrowed(narrow_of(dtype))


def ones(shape, dtype=float, **kw):
    k = norm_dtype(dtype)
    return SArr.full(_conc_shape(shape), C.to_kind(1, k), k)._narrowed(narrow_of(dtype))


def empty(shape, dtype=float, **kw):
    """Uninitialised memory: arbitrary values."""
    k = norm_dtype(dtype)
    out = obj_array(_conc_shape(shape))
    if k == "O":
        return SArr(out, k)
    for ix in rnp.ndindex(*out.shape):
        out[ix] = _poison(k)
    return SArr(out, k, narrow_of(dtype))


def _poison(k):
    if k == "c":
        return C.Cx(E.fresh("uninit"), E.fresh("uninit"))
    return E.fresh("uninit", {"f": "Real", "i": "Int", "b": "Bool"}[k])


def full(shape, fill_value, dtype=None, **kw):
    r = C.raw_of(fill_value)
    k = norm_dtype(dtype) or C.kind(r)
    return SArr.full(_conc_shape(shape), coerce(r, k), k)._narrowed(narrow_of(dtype))


def zeros_like(a, dtype=None, shape=None, **kw):
    a = A(a)
    return zeros(a.shape if shape is None else shape, dtype or a.dtype)


def ones_like(a, dtype=None, shape=None, **kw):
    a = A(a)
    return ones(a.shape if shape is None else shape, dtype or a.dtype)


def empty_like(a, dtype=None, shape=None, **kw):
    a = A(a)
    return empty(a.shape if shape is None else shape, dtype or a.dtype)


def full_like(a, fill_value, dtype=None, shape=None, **kw):
    a = A(a)
    return full(a.shape if shape is None else shape, fill_value, dtype or a.dtype)


def eye(n, m=None, k=0, dtype=float, **kw):
    n = _conc_int(n)
    m = n if m is None else _conc_int(m)
    out = zeros((n, m), dtype)
    for i in range(n):
        if 0 <= i + k < m:
            out[i, i + k] = 1
    return out


identity = eye


def arange(*args, dtype=None, **kw):
    rs = [C.raw_of(a) for a in args]
    if len(rs) == 1:
        rs = [0] + rs
    if len(rs) == 2:
        rs = rs + [1]
    start, stop, step = rs
    k = C.promote(*[C.kind(r) for r in rs])
    if k == "i":
        s0, s1, s2 = [E.concretize_int(r) for r in rs]
        out = SArr.of([v for v in range(s0, s1, s2)]) if len(range(s0, s1, s2)) else \
            SArr(obj_array((0,)), "i")
    else:
        n = C.neg(C.floor_(C.neg(C.truediv(C.sub(stop, start), step))))
        n = _max(0, E.concretize_int(C.to_kind(n, "i")))
        d = obj_array((n,))
        for i in range(n):
            d[i] = C.to_kind(C.add(start, C.mul(step, i)), "f")
        out = SArr(d, "f")
    if dtype is not None and (norm_dtype(dtype) != out.k or narrow_of(dtype) != out.nar):
        out = out.astype(dtype)
    return out


def linspace(start, stop, num=50, endpoint=True, dtype=None, retstep=False, **kw):
    n = _conc_int(num)
    a, b = C.to_kind(C.raw_of(start), "f"), C.to_kind(C.raw_of(stop), "f")
    d = obj_array((n,))
    div = n - 1 if endpoint else n
    for i in range(n):
        if endpoint and i == n - 1 and n > 1:
            d[i] = b
        elif div == 0:
            d[i] = a
        else:
            d[i] = C.add(a, C.mul(Fraction(i, div), C.sub(b, a)))
    out = SArr(d, "f")
    if retstep:
        return out, C.wrap(C.truediv(C.sub(b, a), Fraction(div)), True)
    return out


def logspace(start, stop, num=50, endpoint=True, base=10.0, **kw):
    n = _conc_int(num)
    x = linspace(start, stop, n, endpoint)
    return SArr(_nd(lambda v: C.power(C.raw_of(base), v), x), "f")


def geomspace(start, stop, num=50, endpoint=True, **kw):
    n = _conc_int(num)
    a, b = C.to_kind(C.raw_of(start), "f"), C.to_kind(C.raw_of(stop), "f")
    d = obj_array((n,))
    div = n - 1 if endpoint else n
    if C.is_z(a) or C.is_z(b):
        # contract: end points exact, interior terms in constant ratio
        if n == 0:
            return SArr(d, "f")
        d[0] = a
        if n > 1:
            d[n - 1] = b
        if n > 2:
            r = E.fresh("georatio")
            E.add(r > 0)
            cur = a
            for i in range(1, div + 1):
                cur = C.mul(cur, r)
                if i < n - 1 or not endpoint:
                    d[i] = cur
            E.add(C.zreal(cur) == C.zreal(b))
        return SArr(d, "f")
    g = rnp.geomspace(float(a), float(b), n, endpoint=endpoint)
    for i in range(n):
        d[i] = C.frac_of_float(float(g[i]))
    if n > 0:
        d[0] = a
        if n > 1 and endpoint:
            d[n - 1] = b
    return SArr(d, "f")


def tile(a, reps):
    a = A(a)
    if _isinstance(reps, (list, tuple)):
        reps = tuple(_conc_int(r) for r in reps)
    else:
        reps = _conc_int(reps)
    return SArr(rnp.tile(a.data, reps), a.k)


def repeat(a, n, axis=None):
    a = A(a)
    if _isinstance(n, (list, tuple, SArr)):
        n = [_conc_int(v) for v in n]
    else:
        n = _conc_int(n)
    return SArr(rnp.repeat(a.data, n, axis), a.k)


def meshgrid(*xs, **kw):
    return [SArr(d, A(x).k) for d, x in zip(rnp.meshgrid(*[A(x).data for x in xs], **kw), xs)]


# ------------------------------------------------------------------- shape

def _shape_fn(name):
    f = getattr(rnp, name)

    def g(a, *args, **kw):
        a = A(a)
        return SArr(f(a.data, *args, **kw), a.k)
    g.__name__ = name
    return g


for _n in ("squeeze", "expand_dims", "flipud", "fliplr", "flip", "transpose",
           "ravel", "swapaxes", "moveaxis", "rollaxis", "rot90", "diagonal",
           "tril", "triu"):
    globals()[_n] = _shape_fn(_n)


def roll(a, shift, axis=None):
    a = A(a)
    return SArr(rnp.roll(a.data, _conc_int(shift), axis), a.k)


def reshape(a, shape, **kw):
    return A(a).reshape(shape)


def atleast_1d(a):
    a = A(a)
    return a if a.ndim else SArr(a.data.reshape(1), a.k)


def atleast_2d(a):
    a = A(a)
    return SArr(rnp.atleast_2d(a.data), a.k)


def shape(a):
    return A(a).shape


def ndim(a):
    return A(a).ndim


def size(a, axis=None):
    a = A(a)
    return a.size if axis is None else a.shape[axis]


def copy(a, **kw):
    return A(a).copy()


def _join(f, xs, *args, **kw):
    ars = [A(x) for x in xs]
    ks = [a.k for a in ars if a.size or True]
    k = C.promote(*ks)
    ars = [a if a.k == k else a.astype(k) for a in ars]
    out = f([a.data for a in ars], *args, **kw)
    return SArr(out, k)


def concatenate(xs, axis=0, **kw):
    return _join(rnp.concatenate, xs, axis=axis)


def vstack(xs, **kw):
    return _join(rnp.vstack, xs)


def hstack(xs, **kw):
    return _join(rnp.hstack, xs)


def stack(xs, axis=0, **kw):
    return _join(rnp.stack, xs, axis=axis)


def column_stack(xs):
    return _join(rnp.column_stack, xs)


row_stack = vstack


def append(a, v, axis=None):
    a, v = A(a), A(v)
    if axis is None:
        return concatenate((a.ravel(), v.ravel()))
    return concatenate((a, v), axis=axis)


def split(a, n, axis=0):
    a = A(a)
    return [SArr(d, a.k) for d in rnp.split(a.data, n, axis)]


def delete(a, obj, axis=None):
    a = A(a)
    o = obj
    if _isinstance(o, SArr):
        if o.k == "b":
            o = rnp.array([C.truth(v) for v in o.data], dtype=bool)
        else:
            if o.k != "i":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            o = rnp.array([E.concretize_int(v) for v in o.data.flat], dtype=int)
    elif _isinstance(o, (list, tuple)):
        o = [_conc_int(v) for v in o]
        o = rnp.array(o, dtype=int)
    else:
        o = _conc_int(o)
    return SArr(rnp.delete(a.data, o, axis), a.k)


def insert(a, obj, values, axis=None):
    a = A(a)
    v = A(values)
    if v.k != a.k:
        v = v.astype(a.k)
    d = v.data if v.ndim else v.data[()]
    return SArr(rnp.insert(a.data, _conc_int(obj), d, axis), a.k)


def pad(a, width, mode="constant", constant_values=0, **kw):
    a = A(a)
    if mode != "constant":
        raise Unsupported("np.pad mode")

    def cw(w):
        if _isinstance(w, (list, tuple)):
            return tuple(cw(x) for x in w)
        return _conc_int(w)
    v = C.to_kind(C.raw_of(constant_values), a.k)
    return SArr(rnp.pad(a.data, cw(width), mode="constant",
                        constant_values=v), a.k)


def broadcast_to(a, shp):
    a = A(a)
    return SArr(rnp.broadcast_to(a.data, _conc_shape(shp)), a.k)


def broadcast_arrays(*xs):
    xs = [A(x) for x in xs]
    return [SArr(d, x.k) for d, x in zip(rnp.broadcast_arrays(*[x.data for x in xs]), xs)]


def take(a, ix, axis=None):
    a = A(a)
    if axis is None:
        return a.ravel()[ix]
    sl = [slice(None)] * a.ndim
    sl[axis] = ix
    return a[tuple(sl)]


def array_equal(a, b, equal_nan=False):
    try:
        a, b = A(a), A(b)
    except Exception:
        return False
    if a.shape != b.shape:
        return False
    return C.wrap(C.land(*[_eqn(x, y, equal_nan) for x, y in zip(a.data.flat, b.data.flat)]))


def _eqn(x, y, equal_nan):
    if equal_nan and C.isnan(x) and C.isnan(y):
        return True
    return b_eq(x, y)


# --------------------------------------------------------------- ufuncs

def _out(res, out, where):
    """ufunc out=/where= handling."""
    if _isinstance(out, tuple):
        out = out[0]
    if out is None and where is True:
        return res
    r = res if _isinstance(res, SArr) else SArr.of(res)
    if where is True:
        rd = rnp.broadcast_to(r.data, out.shape) if r.shape != out.shape else r.data
        for p in rnp.ndindex(*out.shape):
            out.data[p] = coerce(rd[p], out.k)
        return out
    w, _ = as_data(where)
    shp = rnp.broadcast_shapes(r.shape, w.shape)
    if out is None:
        out = SArr(obj_array(shp), r.k)
        for p in rnp.ndindex(*shp):
            out.data[p] = _poison(r.k)
    rd = rnp.broadcast_to(r.data, out.shape)
    wd = rnp.broadcast_to(w, out.shape)
    rd = rd.copy()
    wd = wd.copy()
    for p in rnp.ndindex(*out.shape):
        c = wd[p]
        if C.kind(c) != "b":
            c = C.to_kind(c, "b")
        if c is False:
            continue
        v = coerce(rd[p], out.k)
        out.data[p] = v if c is True else C.ite(c, v, out.data[p])
    return out


class UFunc:
    """Binary or unary elementwise function with numpy's ufunc interface."""

    def __init__(self, name, f, nin, kf=None, reduce0=None):
        self.__name__ = name
        self.f = f
        self.nin = nin
        self.kf = kf
        self.reduce0 = reduce0

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None, **kw):
        if len(args) > self.nin:
            out = args[self.nin]
            args = args[:self.nin]
        if self.nin == 1:
            d, k = as_data(args[0])
            res = _nd(self.f, d)
            ko = self.kf(k) if self.kf else k
            for p in rnp.ndindex(*res.shape):
                if C.kind(res[p]) != ko and ko != "O":
                    res[p] = C.to_kind(res[p], ko)
            r = result_scalar(res, ko)
        else:
            r = binop(self.f, args[0], args[1], self.kf or _karith)
        return _out(r, out, where)

    def reduce(self, a, axis=0, **kw):
        return _reduce_axis(a, axis, lambda xs: _fold(self.f, xs, self.reduce0))

    def accumulate(self, a, axis=0):
        a = A(a)

        def acc(xs):
            o = []
            for x in xs:
                o.append(x if not o else self.f(o[-1], x))
            return o
        return _along(a, axis, acc, a.k)

    def outer(self, a, b):
        a, b = A(a), A(b)
        return self(SArr(a.data.reshape(a.shape + (1,) * b.ndim), a.k), b)

    def at(self, *a):
        raise Unsupported("ufunc.at")


def _fold(f, xs, init=None):
    xs = list(xs)
    if not xs:
        if init is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return init
    acc = xs[0]
    for x in xs[1:]:
        acc = f(acc, x)
    return acc


def _kf(k):
    return "f" if k in "bi" else k


def _kabs(k):
    return "f" if k == "c" else k


add = UFunc("add", b_add, 2, _karith, 0)
subtract = UFunc("subtract", b_sub, 2, _karith)
multiply = UFunc("multiply", b_mul, 2, _karith, 1)
divide = true_divide = UFunc("divide", C.truediv, 2, _kdiv)
floor_divide = UFunc("floor_divide", C.floordiv, 2, _karith)
mod = remainder = UFunc("mod", C.mod, 2, _karith)
power = UFunc("power", C.power, 2, _karith)
float_power = UFunc("float_power", lambda a, b: C.power(C.to_kind(a, "f"), b), 2, _kdiv)
less = UFunc("less", C.lt, 2, _kb)
less_equal = UFunc("less_equal", C.le, 2, _kb)
greater = UFunc("greater", C.gt, 2, _kb)
greater_equal = UFunc("greater_equal", C.ge, 2, _kb)
equal = UFunc("equal", b_eq, 2, _kb)
not_equal = UFunc("not_equal", lambda a, b: C.lnot(b_eq(a, b)), 2, _kb)
maximum = UFunc("maximum", C.rmax, 2, _karith)
minimum = UFunc("minimum", C.rmin, 2, _karith)


def _fm(a, b, f):
    if C.isnan(a):
        return b
    if C.isnan(b):
        return a
    return f(a, b)


fmax = UFunc("fmax", lambda a, b: _fm(a, b, C.rmax), 2, _karith)
fmin = UFunc("fmin", lambda a, b: _fm(a, b, C.rmin), 2, _karith)


def _tb(x):
    return x if C.kind(x) == "b" else C.to_kind(x, "b") if not C.isnan(x) else True


logical_and = UFunc("logical_and", lambda a, b: C.land(_tb(a), _tb(b)), 2, _kb, True)
logical_or = UFunc("logical_or", lambda a, b: C.lor(_tb(a), _tb(b)), 2, _kb, False)
logical_xor = UFunc("logical_xor", lambda a, b: C.ne(_tb(a), _tb(b)), 2, _kb)
bitwise_and = UFunc("bitwise_and", b_and, 2, _karith)
bitwise_or = UFunc("bitwise_or", b_or, 2, _karith)
logical_not = UFunc("logical_not", lambda a: C.lnot(_tb(a)), 1, lambda k: "b")
from .arr import b_inv as _binv
invert = bitwise_not = UFunc("invert", _binv, 1)
negative = UFunc("negative", C.neg, 1)
positive = UFunc("positive", lambda a: a, 1)
absolute = UFunc("absolute", C.absval, 1, _kabs)
abs = absolute
fabs = UFunc("fabs", lambda a: C.absval(C.to_kind(a, "f")), 1, _kf)
sqrt = UFunc("sqrt", C.sqrt, 1, _kf)
square = UFunc("square", lambda a: C.mul(a, a), 1)
reciprocal = UFunc("reciprocal", lambda a: C.truediv(C.to_kind(1, C.kind(a)), a), 1)
exp = UFunc("exp", C.cexp, 1, _kf)


def _log(a):
    a = C.to_kind(a, "f")
    if not C.is_z(a):
        if C.is_special(a):
            return a if a == a and a > 0 else nan
        if a == 0:
            return -inf
        if a < 0:
            return nan
    return C.unary_float("log", a, math.log)


def _log10(a):
    a = C.to_kind(a, "f")
    a = C.simp(a)
    if not C.is_z(a):
        if C.is_special(a):
            return a if a == a and a > 0 else nan
        if a == 0:
            return -inf
        if a < 0:
            return nan
        return C.snap(math.log10(a))
    return _log10_sym(a)


def _log10_sym(a):
    """log10 with its integer part known on integer powers of ten."""
    if C.truth(C.le(a, Fraction(0))):
        if C.truth(C.eq(a, Fraction(0))):
            return -inf
        return nan
    t = C.uf("log10", a)
    for p in range(-6, 7):
        b = Fraction(10) ** p
        E.add(C.z3.And((C.zreal(a) >= C.zreal(b)) == (t >= p),
                       (C.zreal(a) == C.zreal(b)) == (t == p)))
    return t


log = UFunc("log", _log, 1, _kf)
log10 = UFunc("log10", _log10, 1, _kf)
log2 = UFunc("log2", lambda a: C.unary_float("log2", a, math.log2), 1, _kf)
log1p = UFunc("log1p", lambda a: C.unary_float("log1p", a, math.log1p), 1, _kf)
cos = UFunc("cos", lambda a: C.cos_sin(a)[0], 1, _kf)
sin = UFunc("sin", lambda a: C.cos_sin(a)[1], 1, _kf)
tan = UFunc("tan", lambda a: C.truediv(C.cos_sin(a)[1], C.cos_sin(a)[0]), 1, _kf)
arctan = UFunc("arctan", lambda a: C.unary_float("arctan", a, math.atan), 1, _kf)
arccos = UFunc("arccos", lambda a: C.unary_float("arccos", a, math.acos), 1, _kf)
arcsin = UFunc("arcsin", lambda a: C.unary_float("arcsin", a, math.asin), 1, _kf)
tanh = UFunc("tanh", lambda a: C.unary_float("tanh", a, math.tanh), 1, _kf)
conjugate = UFunc("conjugate", lambda a: C.Cx(a.re, C.neg(a.im)) if _isinstance(a, C.Cx) else a, 1)
conj = conjugate
isnan = UFunc("isnan", C.isnan, 1, lambda k: "b")
isinf = UFunc("isinf", C.isinf, 1, lambda k: "b")
isfinite = UFunc("isfinite", lambda a: not (C.is_special(a)) if not _isinstance(a, C.Cx)
                 else not (C.is_special(a.re) or C.is_special(a.im)), 1, lambda k: "b")


def _sign(a):
    if C.isnan(a):
        return a
    k = C.kind(a)
    z, o, m = (C.to_kind(v, k) for v in (0, 1, -1))
    return C.ite(C.gt(a, z), o, C.ite(C.lt(a, z), m, z))


sign = UFunc("sign", _sign, 1)


def _fl(f):
    def g(a):
        if C.is_special(a):
            return a
        return C.to_kind(f(a), C.kind(a))
    return g


floor = UFunc("floor", _fl(C.floor_), 1)
ceil = UFunc("ceil", _fl(lambda a: C.neg(C.floor_(C.neg(a)))), 1)
trunc = fix = UFunc("trunc", _fl(C.trunc), 1)
rint = UFunc("rint", _fl(C.rint), 1)
deg2rad = radians = UFunc("deg2rad", lambda a: C.mul(C.to_kind(a, "f"), C.frac_of_float(pi / 180)), 1, _kf)


def hypot(a, b):
    return sqrt(add(square(asf(a)), square(asf(b))))


def asf(a):
    return a


def arctan2(a, b):
    def f(y, x):
        if not C.is_z(y) and not C.is_z(x):
            return C.snap(math.atan2(y, x))
        g = C.z3.Function("uf_atan2", C.z3.RealSort(), C.z3.RealSort(), C.z3.RealSort())
        return g(C.zreal(y), C.zreal(x))
    return binop(f, a, b, _kdiv)


def _angle(v):
    if not _isinstance(v, C.Cx):
        v = C.Cx(C.to_kind(v, "f"), Fraction(0))
    re, im = C.simp(v.re), C.simp(v.im)
    if not C.is_z(re) and not C.is_z(im):
        return C.snap(math.atan2(im, re))
    g = C.z3.Function("uf_atan2", C.z3.RealSort(), C.z3.RealSort(), C.z3.RealSort())
    t = g(C.zreal(im), C.zreal(re))
    return t


def angle(z, deg=False):
    d, k = as_data(z)
    return result_scalar(_nd(_angle, d), "f")


def real(a):
    return A(a).real if not C.is_scalar(a) else C.wrap(
        getattr(C.raw_of(a), "re", C.raw_of(a)), True)


def imag(a):
    if C.is_scalar(a):
        r = C.raw_of(a)
        return C.wrap(r.im if _isinstance(r, C.Cx) else C.to_kind(0, "f"), True)
    return A(a).imag


def iscomplexobj(a):
    return A(a).k == "c"


def isreal(a):
    a = A(a)
    return SArr(_nd(lambda v: C.eq(v.im, Fraction(0)) if _isinstance(v, C.Cx) else True, a), "b")


def around(a, decimals=0, out=None):
    decimals = int(decimals)

    def f(v):
        if C.is_special(v):
            return v
        return C.wrap(v).__round__(decimals) if not _isinstance(v, (int, bool)) else _round(v, decimals)
    d, k = as_data(a)
    return result_scalar(_nd(lambda v: C.to_kind(C.raw_of(f(v)), k), d), k)


round = round_ = around


def clip(a, lo=None, hi=None, **kw):
    lo = kw.get("a_min", lo)
    hi = kw.get("a_max", hi)
    out = a
    if lo is not None:
        out = maximum(out, lo)
    if hi is not None:
        out = minimum(out, hi)
    return out


def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    c = A(c)
    x, y = A(x), A(y)
    k = C.promote(x.k, y.k)
    d = _nd(lambda cc, a, b: C.ite(_tb(cc), C.to_kind(a, k), C.to_kind(b, k)),
            c.data, x.data, y.data)
    return SArr(d, k)


def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    a = A(a)
    return SArr(_nd(lambda v: C.raw_of(nan) if C.isnan(v) else v, a), a.k)


# ---------------------------------------------------------------- reductions

def _norm_axis(axis, nd):
    if axis is None:
        return None
    if _isinstance(axis, (tuple, list)):
        return tuple(_conc_int(a) % nd for a in axis)
    axis = _conc_int(axis)
    if axis < -nd or axis >= nd:
        raise rnp.exceptions.AxisError(axis, nd)
    return axis % nd


def _reduce_axis(a, axis, f, k=None, keepdims=False):
    """f: list of raw -> raw, along axis."""
    a = A(a)
    d = a.data
    if axis is None:
        r = f(list(d.flat))
        if keepdims:
            o = obj_array((1,) * d.ndim)
            o[(0,) * d.ndim] = r
            return SArr(o, C.kind(r))
        return C.wrap(r, True)
    axis = _norm_axis(axis, d.ndim)
    if _isinstance(axis, tuple):
        if len(axis) == d.ndim:
            return _reduce_axis(a, None, f, k, keepdims)
        rest = [i for i in range(d.ndim) if i not in axis]
        m = d.transpose(rest + list(axis)).reshape([d.shape[i] for i in rest] + [-1])
    else:
        m = rnp.moveaxis(d, axis, -1)
    out = obj_array(m.shape[:-1])
    for p in rnp.ndindex(*m.shape[:-1]):
        out[p] = f(list(m[p]))
    kk = k
    if kk is None:
        vals = list(out.flat)
        kk = C.promote(*[C.kind(v) for v in vals]) if vals else a.k
    if out.ndim == 0:
        return C.wrap(out[()], True)
    if keepdims:
        out = rnp.expand_dims(out, axis)
    return SArr(out, kk)


def _along(a, axis, f, k):
    """f: list of raw -> list of raw, along axis."""
    a = A(a)
    m = rnp.moveaxis(a.data, axis, -1)
    rows = {}
    n = None
    for p in rnp.ndindex(*m.shape[:-1]):
        rows[p] = f(list(m[p]))
        n = len(rows[p])
    out = obj_array(m.shape[:-1] + (n if n is not None else 0,))
    for p, r in rows.items():
        for i, v in enumerate(r):
            out[p + (i,)] = v
    return SArr(rnp.moveaxis(out, -1, axis), k)


def _rsum(xs, k):
    if k == "b":
        k = "i"
        xs = [C.to_kind(x, "i") for x in xs]
    acc = C.to_kind(0, k)
    for x in xs:
        acc = C.add(acc, x)
    return acc


def sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    a = A(a)
    if dtype is not None:
        a = a.astype(dtype)
    if where is not True:
        w = rnp.broadcast_to(as_data(where)[0], a.shape)
        z = C.to_kind(0, a.k)
        a = SArr(_nd(lambda v, c: C.ite(_tb(c), v, z), a.data, w), a.k)
    r = _reduce_axis(a, axis, lambda xs: _rsum(xs, a.k), None if a.k != "b" else "i", keepdims)
    return r if out is None else _out(r, out, True)


def prod(a, axis=None, **kw):
    a = A(a)
    return _reduce_axis(a, axis, lambda xs: _fold(C.mul, xs, C.to_kind(1, a.k)))


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = A(a)

    def f(xs):
        if not xs:
            return nan
        s = _rsum(xs, a.k)
        return C.mul(C.to_kind(s, "c" if a.k == "c" else "f"), Fraction(1, len(xs))) \
            if a.k != "c" else C.mul(s, C.Cx(Fraction(1, len(xs)), Fraction(0)))
    return _reduce_axis(a, axis, f, None, keepdims)


def average(a, axis=None, weights=None, **kw):
    if weights is None:
        return mean(a, axis)
    a, w = A(a), A(weights)
    if w.ndim != a.ndim:
        shp = [1] * a.ndim
        shp[axis] = -1
        w = w.reshape(tuple(shp))
        w = SArr(rnp.broadcast_to(w.data, a.shape), w.k)
    return sum(a * w, axis) / sum(w, axis)


def _var(xs, ddof):
    n = len(xs)
    if n - ddof <= 0:
        return nan
    if _any(C.is_special(x) for x in xs):
        return nan
    m = C.mul(C.to_kind(_rsum(xs, C.kind(xs[0])), "f"), Fraction(1, n))
    s = Fraction(0)
    for x in xs:
        dd = C.sub(x, m)
        s = C.add(s, C.mul(dd, dd))
    return C.mul(s, Fraction(1, n - ddof))


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = A(a)
    if a.k in "bi":
        a = a.astype("f")
    dd = _conc_int(ddof)
    return _reduce_axis(a, axis, lambda xs: _var(xs, dd), "f", keepdims)


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = A(a)
    if a.k in "bi":
        a = a.astype("f")
    dd = _conc_int(ddof)
    return _reduce_axis(a, axis, lambda xs: C.sqrt(_var(xs, dd)), "f", keepdims)


def _nn(xs):
    return [x for x in xs if not C.isnan(x)]


def nanmean(a, axis=None, **kw):
    a = A(a)

    def f(xs):
        v = _nn(xs)
        if not v:
            return nan
        return C.mul(C.to_kind(_rsum(v, a.k), "f"), Fraction(1, len(v)))
    return _reduce_axis(a, axis, f, "f")


def nansum(a, axis=None, **kw):
    a = A(a)
    return _reduce_axis(a, axis, lambda xs: _rsum(_nn(xs), a.k))


def nanvar(a, axis=None, ddof=0, **kw):
    return _reduce_axis(A(a).astype("f"), axis, lambda xs: _var(_nn(xs), _conc_int(ddof)), "f")


def nanstd(a, axis=None, ddof=0, **kw):
    return _reduce_axis(A(a).astype("f"), axis, lambda xs: C.sqrt(_var(_nn(xs), _conc_int(ddof))), "f")


def nanmax(a, axis=None, **kw):
    return _reduce_axis(a, axis, lambda xs: _fold(C.rmax, _nn(xs), nan))


def nanmin(a, axis=None, **kw):
    return _reduce_axis(a, axis, lambda xs: _fold(C.rmin, _nn(xs), nan))


def _cmax(x, y):
    return C.rmax(x, y)


def max(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    a = A(a)

    def f(xs):
        if initial is not None:
            xs = [C.to_kind(C.raw_of(initial), a.k)] + xs
        if not xs:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        return _fold(_cmax, xs)
    return _reduce_axis(a, axis, f, None, keepdims)


def min(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    a = A(a)

    def f(xs):
        if initial is not None:
            xs = [C.to_kind(C.raw_of(initial), a.k)] + xs
        if not xs:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        return _fold(C.rmin, xs)
    return _reduce_axis(a, axis, f, None, keepdims)


amax, amin = max, min


def ptp(a, axis=None):
    return max(a, axis) - min(a, axis)


def argmax(a, axis=None, **kw):
    return _reduce_axis(a, axis, lambda xs: C.arg_extreme(xs, True), "i")


def argmin(a, axis=None, **kw):
    return _reduce_axis(a, axis, lambda xs: C.arg_extreme(xs, False), "i")


def nanargmax(a, axis=None):
    def f(xs):
        ids = [i for i, x in enumerate(xs) if not C.isnan(x)]
        if not ids:
            raise ValueError("All-NaN slice encountered")
        return ids[C.arg_extreme([xs[i] for i in ids], True)]
    return _reduce_axis(a, axis, f, "i")


def nanargmin(a, axis=None):
    def f(xs):
        ids = [i for i, x in enumerate(xs) if not C.isnan(x)]
        if not ids:
            raise ValueError("All-NaN slice encountered")
        return ids[C.arg_extreme([xs[i] for i in ids], False)]
    return _reduce_axis(a, axis, f, "i")


def argsort(a, axis=-1, kind=None, **kw):
    return _along(a, axis, C.sort_perm, "i")


def sort(a, axis=-1, kind=None, **kw):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return _along(a, axis, lambda xs: [xs[i] for i in C.sort_perm(xs)], a.k)


def lexsort(keys, axis=-1):
    raise Unsupported("lexsort")


def any(a, axis=None, **kw):
    return _reduce_axis(a, axis, lambda xs: C.lor(*[_tb(x) for x in xs]), "b")


def all(a, axis=None, **kw):
    return _reduce_axis(a, axis, lambda xs: C.land(*[_tb(x) for x in xs]), "b")


def count_nonzero(a, axis=None, **kw):
    return _reduce_axis(a, axis, lambda xs: _rsum([_tb(x) for x in xs], "b"), "i")


def cumsum(a, axis=None, **kw):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0

    def f(xs):
        out, acc = [], None
        for x in xs:
            x = C.to_kind(x, "i") if a.k == "b" else x
            acc = x if acc is None else C.add(acc, x)
            out.append(acc)
        return out
    return _along(a, axis, f, "i" if a.k == "b" else a.k)


def cumprod(a, axis=None, **kw):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0

    def f(xs):
        out, acc = [], None
        for x in xs:
            acc = x if acc is None else C.mul(acc, x)
            out.append(acc)
        return out
    return _along(a, axis, f, a.k)


def diff(a, n=1, axis=-1, **kw):
    a = A(a)
    for _ in range(_conc_int(n)):
        a = _along(a, axis, lambda xs: [b_sub(xs[i + 1], xs[i]) if a.k != "b" else C.ne(xs[i + 1], xs[i])
                                        for i in range(len(xs) - 1)], a.k)
    return a


def ediff1d(a):
    return diff(A(a).ravel())


def gradient(*a, **k):
    raise Unsupported("gradient")


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = A(y)
    n = y.shape[axis]
    sl0 = [slice(None)] * y.ndim
    sl1 = [slice(None)] * y.ndim
    sl0[axis] = slice(0, n - 1)
    sl1[axis] = slice(1, n)
    s = (y[tuple(sl1)] + y[tuple(sl0)]) * 0.5
    if x is not None:
        d = diff(A(x))
        if y.ndim > 1 and d.ndim == 1:
            shp = [1] * y.ndim
            shp[axis] = -1
            d = d.reshape(tuple(shp))
    else:
        d = dx
    return sum(s * d, axis)


trapz = trapezoid


def median(a, axis=None, **kw):
    def f(xs):
        p = C.sort_perm(xs)
        n = len(xs)
        if n == 0 or _any(C.isnan(x) for x in xs):
            return nan
        if n % 2:
            return C.to_kind(xs[p[n // 2]], "f")
        return C.mul(C.to_kind(C.add(xs[p[n // 2 - 1]], xs[p[n // 2]]), "f"), Fraction(1, 2))
    return _reduce_axis(a, axis, f, "f")


def nanmedian(a, axis=None, **kw):
    a = A(a)

    def f(xs):
        r = median(SArr.of([C.wrap(x) for x in _nn(xs)]) if _nn(xs) else SArr(obj_array((0,)), "f"))
        return C.raw_of(r)
    return _reduce_axis(a, axis, f, "f")


def nonzero(a):
    a = A(a)
    ps = [p for p in rnp.ndindex(*a.shape) if C.truth(_tb(a.data[p]))]
    out = []
    for d in range(_max(a.ndim, 1)):
        o = obj_array((len(ps),))
        for i, p in enumerate(ps):
            o[i] = int(p[d])
        out.append(SArr(o, "i"))
    return tuple(out)


def argwhere(a):
    a = A(a)
    ps = [p for p in rnp.ndindex(*a.shape) if C.truth(_tb(a.data[p]))]
    o = obj_array((len(ps), a.ndim))
    for i, p in enumerate(ps):
        for d in range(a.ndim):
            o[i, d] = int(p[d])
    return SArr(o, "i")


def flatnonzero(a):
    return nonzero(A(a).ravel())[0]


def unique(a, return_index=False, return_inverse=False, return_counts=False, **kw):
    a = A(a).ravel()
    xs = list(a.data)
    p = C.sort_perm(xs)
    groups = []
    for i in p:
        if groups and C.truth(C.eq(xs[groups[-1][0]], xs[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    vals = SArr(obj_array((len(groups),)), a.k)
    for j, g in enumerate(groups):
        vals.data[j] = xs[g[0]]
    out = [vals]
    if return_index:
        out.append(SArr.of([_min(g) for g in groups]))
    if return_inverse:
        inv = [0] * len(xs)
        for j, g in enumerate(groups):
            for i in g:
                inv[i] = j
        out.append(SArr.of(inv))
    if return_counts:
        out.append(SArr.of([len(g) for g in groups]))
    return out[0] if len(out) == 1 else tuple(out)


def isin(a, b, **kw):
    a, b = A(a), A(b)
    inv = kw.get("invert", False)
    bs = list(b.data.flat)

    def f(v):
        r = C.lor(*[b_eq(v, w) for w in bs])
        return C.lnot(r) if inv else r
    return SArr(_nd(f, a), "b")


in1d = isin


def searchsorted(a, v, side="left", **kw):
    a = A(a)
    xs = list(a.data)

    def f(x):
        n = 0
        for y in xs:
            c = C.lt(y, x) if side == "left" else C.le(y, x)
            n = C.add(n, C.to_kind(c, "i"))
        return n
    d, k = as_data(v)
    return result_scalar(_nd(f, d), "i")


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    rt, at = C.raw_of(rtol), C.raw_of(atol)

    def f(x, y):
        if C.isnan(x) or C.isnan(y):
            return bool(equal_nan and C.isnan(x) and C.isnan(y))
        if _isinstance(x, C.Cx) or _isinstance(y, C.Cx):
            x, y = C.to_kind(x, "c"), C.to_kind(y, "c")
            return C.le(C.absval(C.sub(x, y)), C.add(at, C.mul(rt, C.absval(y))))
        if C.is_special(x) or C.is_special(y):
            return C.eq(x, y)
        if C.kind(x) == "b":
            x = int(x) if not C.is_z(x) else C.zint(x)
        if C.kind(y) == "b":
            y = int(y) if not C.is_z(y) else C.zint(y)
        return C.le(C.absval(C.sub(x, y)), C.add(at, C.mul(rt, C.absval(y))))
    a, b = A(a), A(b)
    if a.k == "O" or b.k == "O":
        raise TypeError("ufunc 'isfinite' not supported for the input types")
    try:
        d = _nd(f, a.data, b.data)
    except ValueError:
        raise ValueError("operands could not be broadcast together with shapes")
    return result_scalar(d, "b")


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    if _isinstance(r, SArr):
        return C.wrap(C.land(*list(r.data.flat)))
    return r


def interp(x, xp, fp, left=None, right=None, **kw):
    xp, fp = A(xp), A(fp)
    xs, ys = list(xp.data), list(fp.data)

    def f(v):
        if C.truth(C.lt(v, xs[0])):
            return C.to_kind(C.raw_of(left), "f") if left is not None else C.to_kind(ys[0], "f")
        if C.truth(C.gt(v, xs[-1])):
            return C.to_kind(C.raw_of(right), "f") if right is not None else C.to_kind(ys[-1], "f")
        for i in range(len(xs) - 1):
            if C.truth(C.le(v, xs[i + 1])):
                return _lerp(v, xs[i], xs[i + 1], ys[i], ys[i + 1])
        return C.to_kind(ys[-1], "f")
    d, k = as_data(x)
    return result_scalar(_nd(f, d), "f")


def _lerp(v, x0, x1, y0, y1):
    s = C.truediv(C.sub(y1, y0), C.sub(x1, x0))
    return C.add(y0, C.mul(s, C.sub(v, x0)))


# -------------------------------------------------------------- linear algebra

def _mm(a, b, ka):
    n, m = a.shape
    m2, p = b.shape
    if m != m2:
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 "
                         f"(size {m2} is different from {m})")
    out = obj_array((n, p))
    for i in range(n):
        for j in range(p):
            acc = C.to_kind(0, ka)
            for t in range(m):
                acc = C.add(acc, C.mul(a[i, t], b[t, j]))
            out[i, j] = acc
    return out


def matmul(a, b):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    return _dot(a, b)


def dot(a, b, out=None):
    if C.is_scalar(a) or C.is_scalar(b):
        return multiply(a, b)
    return _dot(A(a), A(b))


def _dot(a, b):
    k = C.promote(a.k, b.k)
    if k == "b":
        k = "i"
    da = a.data if a.ndim > 1 else a.data.reshape(1, -1)
    db = b.data if b.ndim > 1 else b.data.reshape(-1, 1)
    if da.ndim > 2 or db.ndim > 2:
        raise Unsupported("stacked matmul")
    out = _mm(da, db, k)
    if a.ndim == 1 and b.ndim == 1:
        return C.wrap(out[0, 0], True)
    if a.ndim == 1:
        return SArr(out[0], k)
    if b.ndim == 1:
        return SArr(out[:, 0], k)
    return SArr(out, k)


def inner(a, b):
    a, b = A(a), A(b)
    if a.ndim == 1 and b.ndim == 1:
        return _dot(a, b)
    return _dot(a, b.T)


def vdot(a, b):
    return _dot(conjugate(A(a).ravel()), A(b).ravel())


def outer(a, b):
    a, b = A(a).ravel(), A(b).ravel()
    return SArr(a.data.reshape(-1, 1), a.k) * SArr(b.data.reshape(1, -1), b.k)


def trace(a):
    a = A(a)
    return _rsum_w([a.data[i, i] for i in range(_min(a.shape))], a.k)


def _rsum_w(xs, k):
    return C.wrap(_rsum(xs, k), True)


def diag(v, k=0):
    v = A(v)
    if v.ndim == 1:
        n = v.size
        out = zeros((n, n), v.dtype)
        for i in range(n):
            out.data[i, i] = v.data[i]
        return out
    return SArr(rnp.diag(v.data, k).copy(), v.k)


def einsum(spec, *ops):
    """Explicit-sum einsum."""
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, outs = spec.split("->")
    else:
        ins = spec
        letters = ins.replace(",", "")
        outs = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    ops = [A(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in outs]
    k = C.promote(*[o.k for o in ops])
    out = obj_array(tuple(dims[c] for c in outs))
    for p in rnp.ndindex(*out.shape):
        env = dict(zip(outs, p))
        acc = C.to_kind(0, k)
        for q in rnp.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, q))
            t = C.to_kind(1, k)
            for s, o in zip(ins, ops):
                t = C.mul(t, o.data[tuple(env[c] for c in s)])
            acc = C.add(acc, t)
        out[p] = acc
    return result_scalar(out, k)


def cov(m, rowvar=True, ddof=None, bias=False, **kw):
    m = A(m)
    X = m.data if rowvar else m.data.T
    if m.ndim == 1:
        X = m.data.reshape(1, -1)
    n = X.shape[1]
    dd = (0 if bias else 1) if ddof is None else ddof
    rows = []
    for r in X:
        if _any(C.is_special(v) for v in r):
            rows.append(None)
            continue
        mu = C.mul(C.to_kind(_rsum(list(r), "f"), "f"), Fraction(1, n))
        rows.append([C.sub(v, mu) for v in r])
    out = obj_array((len(rows), len(rows)))
    for i, a in enumerate(rows):
        for j, b in enumerate(rows):
            if a is None or b is None or n - dd <= 0:
                out[i, j] = nan
            else:
                s = Fraction(0)
                for x, y in zip(a, b):
                    s = C.add(s, C.mul(x, y))
                out[i, j] = C.mul(s, Fraction(1, n - dd))
    return SArr(out, "f")


def corrcoef(x, y=None, rowvar=True, **kw):
    c = cov(x, rowvar=rowvar)
    n = c.shape[0]
    out = obj_array((n, n))
    sd = [C.sqrt(c.data[i, i]) for i in range(n)]
    for i in range(n):
        for j in range(n):
            out[i, j] = C.truediv(C.truediv(c.data[i, j], sd[i]), sd[j])
    return SArr(out, "f")


def correlate(a, v, mode="valid"):
    from .libs import _correlate
    return _correlate(A(a), A(v), mode)


def convolve(a, v, mode="full"):
    from .libs import _correlate
    return _correlate(A(a), A(v)[::-1], mode)


class _Linalg(types.ModuleType):
    LinAlgError = rnp.linalg.LinAlgError

    @staticmethod
    def _det_adj(d, k):
        n = d.shape[0]

        def det(m):
            if len(m) == 0:
                return C.to_kind(1, k)
            if len(m) == 1:
                return m[0][0]
            acc = C.to_kind(0, k)
            for j in range(len(m)):
                mm = [r[:j] + r[j + 1:] for r in m[1:]]
                t = C.mul(m[0][j], det(mm))
                acc = C.add(acc, t) if j % 2 == 0 else C.sub(acc, t)
            return acc
        M = [[d[i, j] for j in range(n)] for i in range(n)]
        D = det(M)
        adj = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                mm = [r[:j] + r[j + 1:] for ii, r in enumerate(M) if ii != i]
                c = det(mm)
                adj[j][i] = c if (i + j) % 2 == 0 else C.neg(c)
        return D, adj

    @staticmethod
    def det(a):
        a = A(a)
        return C.wrap(_Linalg._det_adj(a.data, a.k)[0], True)

    @staticmethod
    def inv(a):
        a = A(a)
        k = "f" if a.k in "bi" else a.k
        a = a.astype(k)
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise rnp.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        n = a.shape[0]
        if n > 4:
            if k != "f" or not _all(isinstance(x, (int, float, Fraction)) for x in a.data.reshape(-1)):
                raise Unsupported("inverse of a large symbolic matrix")
            return SArr(_Linalg._inv_exact(a.data, n), k)
        D, adj = _Linalg._det_adj(a.data, k)
        if C.truth(C.eq(D, C.to_kind(0, k))):
            raise rnp.linalg.LinAlgError("Singular matrix")
        out = obj_array((n, n))
        for i in range(n):
            for j in range(n):
                out[i, j] = C.truediv(adj[i][j], D)
        return SArr(out, k)

    @staticmethod
    def _inv_exact(d, n):
        """Gauss-Jordan elimination on numbers that are known."""
        m = [[Fraction(repr(x)) if isinstance(x, float) else Fraction(x) for x in d[i]] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        for c in range(n):
            p = _max(builtins.range(c, n), key=lambda q: _abs(m[q][c]))
            if m[p][c] == 0:
                raise rnp.linalg.LinAlgError("Singular matrix")
            m[c], m[p] = m[p], m[c]
            m[c] = [x / m[c][c] for x in m[c]]
            for q in range(n):
                if q != c and m[q][c] != 0:
                    m[q] = [x - m[q][c] * y for x, y in zip(m[q], m[c])]
        out = obj_array((n, n))
        for i in range(n):
            for j in range(n):
                out[i, j] = C.to_kind(m[i][n + j], "f")
        return out

    @staticmethod
    def multi_dot(arrays, *, out=None):
        if out is not None:
            raise Unsupported("multi_dot(out=)")
        arrays = list(arrays)
        if len(arrays) < 2:
            raise ValueError("Expecting at least two arrays.")
        r = A(arrays[0])
        for x in arrays[1:]:
            r = dot(r, x)
        return r

    @staticmethod
    def solve(a, b):
        return matmul(_Linalg.inv(a), b)

    @staticmethod
    def pinv(a, rcond=None, hermitian=False, *, rtol=None):
        """Of diagonal or 2x2 matrices that stay above the cut-off for singular values."""
        a = A(a)
        a = a.astype("f" if a.k in "bi" else a.k)
        if a.ndim == 2 and a.k == "f" and _all(isinstance(x, (int, float, Fraction)) for x in a.data.reshape(-1)) \
                and (rcond is None or isinstance(rcond, (int, float))) and rtol is None:
            # numbers that are known: the singular values decide
            m = rnp.linalg.pinv(rnp.array([[float(x) for x in q] for q in a.data]), **({} if rcond is None else {"rcond": rcond}))
            out = obj_array(m.shape)
            for i in range(m.shape[0]):
                for j in range(m.shape[1]):
                    out[i, j] = C.to_kind(float(m[i, j]), "f")
            return SArr(out, "f")
        if a.ndim != 2 or a.shape[0] != a.shape[1] or a.shape[0] > 2 or a.k == "c":
            raise Unsupported("pseudo-inverse")
        r = rcond if rcond is not None else rtol
        r = Fraction(1e-15) if r is None else r
        if not isinstance(r, (int, float, Fraction)):
            raise Unsupported("pseudo-inverse with a symbolic cut-off")
        r = Fraction(r)
        d = a.data
        if a.shape[0] == 1:
            if C.truth(C.eq(d[0, 0], C.to_kind(0, "f"))):
                raise Unsupported("pseudo-inverse of zero")
            return _Linalg.inv(a)
        # squared singular values have sum t and product D^2
        D = C.sub(C.mul(d[0, 0], d[1, 1]), C.mul(d[0, 1], d[1, 0]))
        t = C.to_kind(0, "f")
        for x in d.reshape(-1):
            t = C.add(t, C.mul(x, x))
        # smallest above r times largest:  D^2 (1 + r^2)^2 > r^2 t^2
        if not C.truth(C.lt(C.mul(C.to_kind(r * r, "f"), C.mul(t, t)), C.mul(C.to_kind((1 + r * r) ** 2, "f"), C.mul(D, D)))):
            raise Unsupported("pseudo-inverse below the cut-off")
        return _Linalg.inv(a)

    @staticmethod
    def norm(a, ord=None, axis=None, **kw):
        if ord not in (None, 2, "fro"):
            raise Unsupported("norm ord")
        a = A(a)
        m = absolute(a)
        return sqrt(sum(m * m, axis=axis))

    def __getattr__(self, name):
        raise Unsupported("np.linalg." + name)


linalg = _Linalg("numpy.linalg")


# ---------------------------------------------------------------- fft

def _tw(n, m, sgn=-1):
    th = sgn * 2 * math.pi * (m % n) / n
    return C.Cx(_snap_tw(math.cos(th)), _snap_tw(math.sin(th)))


def _snap_tw(x):
    return C.snap(x)


def _dft(xs, n, sgn=-1, scale=None):
    xs = list(xs[:n]) + [Fraction(0)] * (n - len(xs))
    out = []
    for kf_ in range(n):
        re, im = Fraction(0), Fraction(0)
        for t, x in enumerate(xs):
            w = _tw(n, kf_ * t, sgn)
            if _isinstance(x, C.Cx):
                p = C.mul(x, w)
                re, im = C.add(re, p.re), C.add(im, p.im)
            else:
                x = C.to_kind(x, "f")
                re = C.add(re, C.mul(x, w.re))
                im = C.add(im, C.mul(x, w.im))
        if scale is not None:
            re, im = C.mul(re, scale), C.mul(im, scale)
        out.append(C.Cx(re, im))
    return out


class _FFT(types.ModuleType):
    @staticmethod
    def fft(a, n=None, axis=-1, norm=None):
        a = A(a)
        m = a.shape[axis] if n is None else _conc_int(n)
        if m < 1:
            raise ValueError(f"Invalid number of FFT data points ({m}) specified.")
        return _along(a, axis, lambda xs: _dft(xs, m), "c")

    @staticmethod
    def ifft(a, n=None, axis=-1, norm=None):
        a = A(a)
        m = a.shape[axis] if n is None else _conc_int(n)
        return _along(a, axis, lambda xs: _dft(xs, m, 1, Fraction(1, m)), "c")

    @staticmethod
    def rfft(a, n=None, axis=-1, norm=None):
        a = A(a)
        m = a.shape[axis] if n is None else _conc_int(n)
        return _along(a, axis, lambda xs: _dft(xs, m)[:m // 2 + 1], "c")

    @staticmethod
    def fftfreq(n, d=1.0):
        n = _conc_int(n)
        v = list(range(0, (n - 1) // 2 + 1)) + list(range(-(n // 2), 0))
        return SArr.of(v) / (n * d) if not _isinstance(d, C.SNum) else SArr.of(v) / (d * n)

    @staticmethod
    def rfftfreq(n, d=1.0):
        n = _conc_int(n)
        return SArr.of(list(range(0, n // 2 + 1))) / (d * n)

    @staticmethod
    def fft2(a, s=None, axes=(-2, -1), norm=None):
        a = A(a)
        s0, s1 = s if s is not None else a.shape
        return _FFT.fft(_FFT.fft(a, s1, -1), s0, -2)

    def __getattr__(self, name):
        raise Unsupported("np.fft." + name)


fft = _FFT("numpy.fft")


class masked_array:
    """One-dimensional array with gaps (None), as obspy makes them."""

    def __init__(self, items, fill=None):
        self.items = list(items)
        self.fill_value = fill

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if _isinstance(i, slice):
            return masked_array(self.items[i], self.fill_value)
        raise Unsupported("element of a masked array")

    @property
    def mask(self):
        return array([x is None for x in self.items])

    def filled(self, fill_value=None):
        v = 1e20 if fill_value is None else fill_value
        return array([v if x is None else x for x in self.items])

    def compressed(self):
        return array([x for x in self.items if x is not None])


class _Ma(types.ModuleType):
    masked_array = masked_array
    MaskedArray = masked_array

    @staticmethod
    def isMaskedArray(x):
        return _isinstance(x, masked_array)

    isMA = isarray = isMaskedArray

    @staticmethod
    def is_masked(x):
        return _isinstance(x, masked_array) and any(v is None for v in x.items)

    @staticmethod
    def filled(x, fill_value=None):
        return x.filled(fill_value) if _isinstance(x, masked_array) else x

    @staticmethod
    def getmaskarray(x):
        return x.mask if _isinstance(x, masked_array) else zeros(len(x), dtype=bool)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("np.ma." + n)


ma = _Ma("numpy.ma")


class _Gen:
    """Random generator: an arbitrary value of the distribution's support."""

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is not None:
            raise Unsupported("rng size")
        return C.SNum(E.fresh("rng"), False)

    def uniform(self, low=0.0, high=1.0, size=None):
        v = E.fresh("rng")
        E.add(C.z3.And(v >= C.zreal(C.raw_of(low)), v < C.zreal(C.raw_of(high))))
        return C.SNum(v, False)


class _Random(types.ModuleType):
    @staticmethod
    def default_rng(*a, **k):
        return _Gen()

    class PCG64:
        def __init__(self, *a, **k):
            pass

    @staticmethod
    def normal(*a, **k):
        return _Gen().normal(*a, **k)

    Generator = _Gen

    def __getattr__(self, name):
        raise Unsupported("np.random." + name)


random = _Random("numpy.random")
exceptions = rnp.exceptions


class errstate:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def seterr(**k):
    return {}


def may_share_memory(a, b):
    return rnp.shares_memory(A(a).data, A(b).data)


shares_memory = may_share_memory


def isscalar(x):
    return C.is_scalar(x) or _isinstance(x, str)


def vectorize(f, **kw):
    def g(*a):
        ds = [as_data(x)[0] for x in a]
        out = _nd(lambda *v: C.raw_of(f(*[C.wrap(x, True) for x in v])), *ds)
        vals = list(out.flat)
        return result_scalar(out, C.promote(*[C.kind(v) for v in vals]) if vals else "f")
    return g


def apply_along_axis(f, axis, a, *args, **kw):
    a = A(a)
    m = rnp.moveaxis(a.data, axis, -1)
    rows = [f(SArr(m[p], a.k), *args, **kw) for p in rnp.ndindex(*m.shape[:-1])]
    if rows and _isinstance(rows[0], SArr):
        st = stack(rows)
        d = st.data.reshape(m.shape[:-1] + rows[0].shape)
        return SArr(rnp.moveaxis(d, -1, axis), st.k)
    st = SArr.of([C.raw_of(r) for r in rows])
    return SArr(st.data.reshape(m.shape[:-1]), st.k)


def fromiter(it, dtype=float, count=-1):
    return array(list(it), dtype=dtype)


def ndindex(*shape):
    return rnp.ndindex(*_conc_shape(shape[0] if len(shape) == 1 else shape))


def ndenumerate(a):
    a = A(a)
    for p in rnp.ndindex(*a.shape):
        yield p, C.wrap(a.data[p], True)


def array_split(a, n, axis=0):
    a = A(a)
    return [SArr(d, a.k) for d in rnp.array_split(a.data, _conc_int(n), axis)]


def ix_(*args):
    return tuple(from_real(x) for x in rnp.ix_(*[to_real(A(a)) for a in args]))


def triu_indices(n, k=0, m=None):
    return tuple(from_real(x) for x in rnp.triu_indices(n, k, m))


def compress(c, a, axis=None):
    a = A(a)
    c = A(c)
    keep = [i for i, v in enumerate(c.data) if C.truth(_tb(v))]
    if axis is None:
        return a.ravel()[keep]
    return SArr(rnp.take(a.data, keep, axis), a.k)


def extract(c, a):
    return compress(A(c).ravel(), A(a).ravel())


def copyto(dst, src, casting=None, where=True):
    _out(A(src), dst, where)


def putmask(a, mask, v):
    copyto(a, v, where=mask)


class _R:
    def __getitem__(self, k):
        ks = k if _isinstance(k, tuple) else (k,)
        parts = []
        for p in ks:
            if _isinstance(p, slice):
                parts.append(arange(p.start or 0, p.stop, p.step or 1))
            else:
                parts.append(atleast_1d(p))
        return concatenate(parts)


r_ = _R()


class _C:
    def __getitem__(self, k):
        return column_stack([A(p) for p in (k if _isinstance(k, tuple) else (k,))])


c_ = _C()
s_ = rnp.s_


def __getattr__(name):
    """Anything not modelled: real numpy on concrete arguments only."""
    if name.startswith("__"):
        raise AttributeError(name)
    f = getattr(rnp, name)          # AttributeError as in numpy
    if not callable(f):
        return f
    return concrete_only("np." + name, f)


def concrete_only(label, f):
    def conv(x):
        if _isinstance(x, SArr):
            return to_real(x)
        if _isinstance(x, (C.SNum, C.SBool, C.SCplx)):
            r = C.raw_of(x)
            from .arr import to_py
            return to_py(r)
        if _isinstance(x, (list, tuple)):
            return type(x)(conv(v) for v in x)
        if _isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        if _isinstance(x, DType):
            return {"f": float, "i": int, "b": bool, "c": complex, "O": object}[x.k]
        return x

    def back(x):
        if _isinstance(x, rnp.ndarray):
            return from_real(x)
        if _isinstance(x, tuple):
            return tuple(back(v) for v in x)
        if _isinstance(x, list):
            return [back(v) for v in x]
        if _isinstance(x, rnp.generic):
            return C.wrap(C.raw_of(x.item()), True)
        return x

    def g(*a, **k):
        try:
            ca, ck = conv(a), conv(k)
        except Unsupported:
            raise Unsupported(label + " on symbolic arguments")
        return back(f(*ca, **ck))
    return g
