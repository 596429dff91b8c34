"""ndarray model: a numpy object array of raw values plus a logical dtype.

Shapes, strides, views, broadcasting and basic/fancy indexing are numpy's own
(the container is a real numpy array), so aliasing behaves as in numpy.
"""

import builtins
import operator
from fractions import Fraction

import numpy as rnp

from . import core as C
from .core import E, Unsupported

_isinstance = builtins.isinstance


class DType:
    """Logical dtype object."""

    def __init__(self, k, name):
        self.k = k
        self.name = name
        self.kind = k
        self.type = self
        self.itemsize = {"f": 8, "i": 8, "b": 1, "c": 16, "O": 8}[k]
        self.char = k

    def __eq__(self, o):
        try:
            return norm_dtype(o) == self.k
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f"dtype('{self.name}')"

    def __call__(self, x=0):
        r = C.raw_of(x)
        if C.kind(r) == "O" and _isinstance(x, (list, tuple, SArr)):
            return SArr.of(x).astype(self)
        if _isinstance(x, str):
            r = C.frac_of_float(float(x))
        return C.wrap(C.narrow(C.to_kind(r, self.k), narrow_of(self)), True)

    def __instancecheck__(self, o):
        return _isinstance(o, C.SNum) and C.kind(o.raw) == self.k


_DT = {"f": DType("f", "float64"), "i": DType("i", "int64"),
       "b": DType("b", "bool"), "c": DType("c", "complex128"),
       "O": DType("O", "object")}
FLOAT32 = DType("f", "float32")
_SHORT = {"f4": "float32", "f2": "float16", "c8": "complex64", "i1": "int8", "i2": "int16", "i4": "int32",
          "u1": "uint8", "u2": "uint16", "u4": "uint32", "half": "float16", "single": "float32", "short": "int16",
          "intc": "int32", "csingle": "complex64"}


def narrow_of(d):
    """Name of a dtype that does not hold every value of its kind, or None."""
    if d is None:
        return None
    if _isinstance(d, SArr):
        return d.nar
    n = d if _isinstance(d, str) else getattr(d, "_sym_name", None) or getattr(d, "name", None) or getattr(d, "__name__", None)
    if not _isinstance(n, str):
        return None
    n = n.lstrip("<>=|")
    n = _SHORT.get(n, n)
    return n if n in C.NARROW else None


def dtype_obj(k):
    return _DT[k]


def norm_dtype(d):
    """Logical dtype of a dtype specification."""
    if d is None:
        return None
    if _isinstance(d, DType):
        return d.k
    if _isinstance(d, str):
        if d in ("f", "i", "b", "c", "O"):
            return d
        s = d.lstrip("<>=|")
        if s in ("object",):
            return "O"
        if s.startswith("?") or s.startswith("bool"):
            return "b"
        if s.startswith("f") or s.startswith("d"):
            return "f"
        if s.startswith("c") or s == "D":
            return "c"
        if s.startswith("i") or s.startswith("u"):
            return "i"
        raise TypeError(f"data type {d!r} not understood")
    n = getattr(d, "_sym_name", None) or getattr(d, "__name__", None)
    if n in ("float", "double", "float64", "float32", "float16", "longdouble"):
        return "f"
    if n in ("int", "int64", "int32", "int16", "int8", "intp", "uint8",
             "uint16", "uint32", "uint64"):
        return "i"
    if n in ("bool", "bool_"):
        return "b"
    if n in ("complex", "complex128", "complex64", "cdouble"):
        return "c"
    if n in ("object", "object_"):
        return "O"
    try:
        return norm_dtype(rnp.dtype(d).kind.replace("u", "i"))
    except Unsupported:
        raise
    except Exception:
        raise TypeError(f"data type {d!r} not understood")


def obj_array(shape):
    return rnp.empty(shape, dtype=object)


def _nested(x):
    """(nested list of raw values, is_container) for array construction."""
    if _isinstance(x, SArr):
        return x.data
    if _isinstance(x, rnp.ndarray):
        return from_real(x).data
    if _isinstance(x, (list, tuple, range)):
        return [_nested(v) for v in x]
    if hasattr(x, "__array_sym__"):
        return x.__array_sym__().data
    r = C.raw_of(x)
    if C.kind(r) == "O" and not _isinstance(x, (str, bytes, dict)) and x is not None:
        if hasattr(x, "__len__") and hasattr(x, "__getitem__"):
            return [_nested(x[i]) for i in range(len(x))]
    return r


def _shape_of(n):
    if _isinstance(n, rnp.ndarray):
        return n.shape
    if _isinstance(n, list):
        if not n:
            return (0,)
        shapes = [_shape_of(v) for v in n]
        s0 = shapes[0]
        for s in shapes[1:]:
            if s != s0:
                raise ValueError(
                    "setting an array element with a sequence. The requested "
                    "array has an inhomogeneous shape")
        return (len(n),) + s0
    return ()


def _fill(out, n):
    if out.ndim == 0:
        out[()] = n[()] if _isinstance(n, rnp.ndarray) else n
        return
    if _isinstance(n, rnp.ndarray):
        out[...] = n
        return
    for i, v in enumerate(n):
        if out.ndim == 1 and not _isinstance(v, rnp.ndarray):
            out[i] = v
        elif out.ndim == 1:
            out[i] = v[()]
        else:
            _fill(out[i], v)


def from_real(x):
    """SArr from a concrete numpy array."""
    k = {"f": "f", "i": "i", "u": "i", "b": "b", "c": "c"}.get(x.dtype.kind, "O")
    out = obj_array(x.shape)
    for ix in rnp.ndindex(*x.shape):
        v = x[ix]
        out[ix] = C.raw_of(v.item() if hasattr(v, "item") else v)
    return SArr(out, k)


def to_real(x):
    """Concrete numpy array, or Unsupported when symbolic."""
    if _isinstance(x, SArr):
        for v in x.data.flat:
            if C.is_sym(C.simp(v) if C.is_z(v) else v):
                raise Unsupported("concrete array needed")
        dt = {"f": float, "i": int, "b": bool, "c": complex, "O": object}[x.k]
        out = rnp.empty(x.data.shape, dtype=dt)
        for ix in rnp.ndindex(*x.data.shape):
            out[ix] = to_py(x.data[ix])
        return out
    return x


def to_py(r):
    if C.is_z(r):
        r = C.simp(r)
        if C.is_z(r):
            raise Unsupported("concrete value needed")
    if _isinstance(r, Fraction):
        return float(r)
    if _isinstance(r, C.Cx):
        return complex(to_py(r.re), to_py(r.im))
    return r


def _nd(f, *arrs):
    """Apply a raw scalar function elementwise with broadcasting."""
    ds = [a.data if _isinstance(a, SArr) else a for a in arrs]
    if len(ds) == 1:
        d = ds[0]
        out = obj_array(d.shape)
        of = out.reshape(-1) if out.ndim else None
        if out.ndim == 0:
            out[()] = f(d[()])
            return out
        for i, v in enumerate(d.flat):
            of[i] = f(v)
        return out
    b = rnp.broadcast_arrays(*ds)
    out = obj_array(b[0].shape)
    if out.ndim == 0:
        out[()] = f(*[x[()] for x in b])
        return out
    of = out.reshape(-1)
    for i, vs in enumerate(zip(*[x.flat for x in b])):
        of[i] = f(*vs)
    return out


def as_data(x):
    """(object ndarray, logical kind) of an operand."""
    if _isinstance(x, SArr):
        return x.data, x.k
    if _isinstance(x, (list, tuple, range, rnp.ndarray)):
        a = SArr.of(x)
        return a.data, a.k
    r = C.raw_of(x)
    d = obj_array(())
    d[()] = r
    return d, C.kind(r)


def result_scalar(out, k):
    """Return a scalar for 0-d results, as numpy ufuncs do."""
    if out.ndim == 0:
        return C.wrap(out[()], True)
    return SArr(out, k)


def binop(f, a, b, kf=None):
    da, ka = as_data(a)
    db, kb = as_data(b)
    out = _nd(f, da, db)
    if kf is not None:
        k = kf(ka, kb)
    else:
        k = C.promote(ka, kb)
    if k in "ifc":
        flat = out.reshape(-1) if out.ndim else None
        if out.ndim == 0:
            if C.kind(out[()]) != k:
                out[()] = C.to_kind(out[()], k)
        else:
            for i in range(flat.size):
                if C.kind(flat[i]) != k:
                    flat[i] = C.to_kind(flat[i], k)
    return result_scalar(out, k)


def _kb(ka, kb):
    return "b"


def _kdiv(ka, kb):
    k = C.promote(ka, kb)
    return "f" if k in "bi" else k


def _karith(ka, kb):
    return C.promote(ka, kb)


def b_add(x, y):
    if C.kind(x) == "b" and C.kind(y) == "b":
        return C.lor(x, y)
    return C.add(x, y)


def b_mul(x, y):
    if C.kind(x) == "b" and C.kind(y) == "b":
        return C.land(x, y)
    return C.mul(x, y)


def b_sub(x, y):
    if C.kind(x) == "b" and C.kind(y) == "b":
        raise TypeError("numpy boolean subtract is not supported")
    return C.sub(x, y)


def b_and(x, y):
    if C.kind(x) == "b" and C.kind(y) == "b":
        return C.land(x, y)
    if C.kind(x) in "bi" and C.kind(y) in "bi" and not C.is_z(x) and not C.is_z(y):
        return int(x) & int(y)
    raise TypeError("ufunc 'bitwise_and' not supported for the input types")


def b_or(x, y):
    if C.kind(x) == "b" and C.kind(y) == "b":
        return C.lor(x, y)
    if C.kind(x) in "bi" and C.kind(y) in "bi" and not C.is_z(x) and not C.is_z(y):
        return int(x) | int(y)
    raise TypeError("ufunc 'bitwise_or' not supported for the input types")


def b_xor(x, y):
    if C.kind(x) == "b" and C.kind(y) == "b":
        return C.ne(x, y)
    raise TypeError("ufunc 'bitwise_xor' not supported for the input types")


def b_inv(x):
    if C.kind(x) == "b":
        return C.lnot(x)
    if C.kind(x) == "i":
        return C.sub(C.neg(x), 1)
    raise TypeError("ufunc 'invert' not supported for the input types")


def b_eq(x, y):
    if C.kind(x) == "O" or C.kind(y) == "O":
        try:
            return C.eq(x, y)
        except TypeError:
            return False
    return C.eq(x, y)


class Flags:
    def __init__(self, f):
        self.writeable = True
        self.owndata = f.owndata
        self.c_contiguous = f.c_contiguous


class SArr:
    """Symbolic ndarray."""
    _is_sarr = True
    __slots__ = ("data", "k", "ro", "base_dt", "nar")
    __array_ufunc__ = None
    __array_priority__ = 10000

    def __init__(self, data, k, nar=None):
        self.data = data
        self.k = k
        self.ro = False
        self.base_dt = None
        self.nar = nar

    # -- construction --
    @classmethod
    def of(cls, x, dtype=None, copy=True):
        k = norm_dtype(dtype)
        nar = narrow_of(dtype)
        if _isinstance(x, SArr):
            if dtype is None:
                return SArr(x.data.copy() if copy else x.data, x.k, x.nar)
            if k == x.k and nar == x.nar:
                return SArr(x.data.copy() if copy else x.data, x.k, nar)
            return x.astype(dtype)
        n = _nested(x)
        shape = _shape_of(n)
        out = obj_array(shape)
        _fill(out, n)
        vals = list(out.flat)
        if k is None:
            if not vals:
                k = "f"
            else:
                k = C.promote(*[C.kind(v) for v in vals])
        a = SArr(out, k)
        a._coerce_all(k)
        return a._narrowed(nar)

    def _narrowed(self, nar):
        """The same array with every value rounded (or wrapped) to a narrow dtype."""
        self.nar = nar
        if nar is not None:
            d = self.data
            for ix in rnp.ndindex(*d.shape):
                d[ix] = C.narrow(d[ix], nar)
        return self

    def _coerce_all(self, k):
        d = self.data
        if d.ndim == 0:
            d[()] = coerce(d[()], k)
            return
        for ix in rnp.ndindex(*d.shape):
            v = d[ix]
            if C.kind(v) != k:
                d[ix] = coerce(v, k)

    @classmethod
    def full(cls, shape, value, k):
        out = obj_array(shape)
        v = C.to_kind(C.raw_of(value), k)
        out.fill(v) if not _isinstance(v, C.Cx) else None
        if _isinstance(v, C.Cx):
            for ix in rnp.ndindex(*out.shape):
                out[ix] = v
        return cls(out, k)

    # -- attributes --
    @property
    def shape(self):
        return self.data.shape

    @shape.setter
    def shape(self, s):
        self.data.shape = _conc_shape(s)

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def size(self):
        return self.data.size

    @property
    def dtype(self):
        return dtype_obj(self.k) if self.nar is None else DType(self.k, self.nar)

    @property
    def T(self):
        return SArr(self.data.T, self.k, self.nar)

    @property
    def flags(self):
        return Flags(self.data.flags)

    @property
    def base(self):
        return self.data.base

    @property
    def nbytes(self):
        return self.data.size * 8

    @property
    def real(self):
        if self.k != "c":
            return self
        return SArr(_nd(lambda v: v.re, self), "f")

    @property
    def imag(self):
        if self.k != "c":
            return SArr.full(self.shape, 0, self.k)
        return SArr(_nd(lambda v: v.im, self), "f")

    @property
    def flat(self):
        return [C.wrap(v, True) for v in self.data.flat]

    # -- conversion --
    def copy(self, order=None):
        return SArr(self.data.copy(), self.k, self.nar)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, copy=True, **kw):
        k, nar = norm_dtype(dtype), narrow_of(dtype)
        if k == self.k and nar == self.nar:
            return self.copy() if copy else self
        out = SArr(_nd(lambda v: coerce(v, k), self), k)
        return out._narrowed(nar)

    def tolist(self):
        def rec(d):
            if d.ndim == 0:
                return C.wrap(d[()], False)
            if d.ndim == 1:
                return [C.wrap(v, False) for v in d]
            return [rec(x) for x in d]
        return rec(self.data)

    def item(self, *a):
        if a:
            return C.wrap(self.data.item(*a), False)
        if self.data.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return C.wrap(list(self.data.flat)[0], False)

    def __array_sym__(self):
        return self

    def __array__(self, dtype=None, copy=None):
        return to_real(self)

    def view(self, *a):
        return SArr(self.data.view(), self.k)

    # -- shape --
    def squeeze(self, axis=None):
        d = self.data.squeeze() if axis is None else self.data.squeeze(axis)
        return SArr(d, self.k)

    def reshape(self, *shape, **kw):
        if len(shape) == 1:
            shape = shape[0]
        return SArr(self.data.reshape(_conc_shape(shape)), self.k, self.nar)

    def flatten(self, order="C"):
        return SArr(self.data.flatten(order), self.k)

    def ravel(self, order="C"):
        return SArr(self.data.ravel(order), self.k)

    def transpose(self, *axes):
        return SArr(self.data.transpose(*axes), self.k)

    def swapaxes(self, a, b):
        return SArr(self.data.swapaxes(a, b), self.k)

    def repeat(self, n, axis=None):
        return SArr(self.data.repeat(n, axis), self.k)

    def resize(self, *a, **k):
        raise Unsupported("resize")

    def fill(self, v):
        self[...] = v

    # -- indexing --
    def __len__(self):
        return len(self.data)

    def __iter__(self):
        if self.data.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        if self.data.ndim == 1:
            for i in range(len(self.data)):
                yield C.wrap(self.data[i], True)
        else:
            for i in range(len(self.data)):
                yield SArr(self.data[i], self.k, self.nar)

    def __getitem__(self, ix):
        ci = conc_index(ix, self.data.shape)
        d = self.data[ci]
        if _isinstance(d, rnp.ndarray) and d.dtype == object and \
                (d.ndim > 0 or _wants_array(ci)):
            return SArr(d, self.k, self.nar)
        return C.wrap(d, True)

    def __setitem__(self, ix, val):
        masked = self._masked_set(ix, val)
        if masked:
            return
        ci = conc_index(ix, self.data.shape)
        if _isinstance(val, (list, tuple, range)) or _isarr(val):
            v = val if _isinstance(val, SArr) else SArr.of(val)
            if v.k != self.k:
                if v.data.ndim == 0:
                    v = SArr.of([coerce(v.data[()], self.k)]).reshape(())
                else:
                    v = v.astype(self.k)
            if self.nar is not None:
                v = v.copy()._narrowed(self.nar)
            d = v.data
            if d.ndim == 0:
                self._put(ci, d[()])
                return
            # a single slot takes scalars and 0-d arrays only
            target = self.data[ci]
            if not _isinstance(target, rnp.ndarray):
                if self.k == "c":
                    raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
                raise ValueError("setting an array element with a sequence.")
            if rnp.shares_memory(d, self.data):
                d = d.copy()
            self.data[ci] = d
            return
        r = C.raw_of(val)
        if C.kind(r) != self.k:
            if C.kind(r) == "c" and self.k in "fi":
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            r = coerce(r, self.k)
        self._put(ci, C.narrow(r, self.nar))

    def _put(self, ci, r):
        t = self.data[ci]
        if not _isinstance(t, rnp.ndarray):
            self.data[ci] = r
            return
        fillv = obj_array(())
        fillv[()] = r
        self.data[ci] = fillv

    def _masked_set(self, ix, val):
        """a[mask] = scalar with a symbolic mask: no path split needed."""
        if _isinstance(ix, SArr) and ix.k == "b" and C.kind(C.raw_of(val)) != "O" \
                and ix.shape == self.shape and any(C.is_z(v) for v in ix.data.flat):
            r = C.narrow(coerce(C.raw_of(val), self.k), self.nar)
            for p in rnp.ndindex(*self.shape):
                m = ix.data[p]
                if C.is_z(m):
                    self.data[p] = C.ite(m, r, self.data[p])
                elif m:
                    self.data[p] = r
            return True
        return False

    # -- arithmetic --
    def _ar(self, o, f, swap=False, kf=_karith):
        if not _operand(o):
            return NotImplemented
        return binop(f, o, self, kf) if swap else binop(f, self, o, kf)

    def __add__(self, o):
        return self._ar(o, b_add)

    def __radd__(self, o):
        return self._ar(o, b_add, True)

    def __sub__(self, o):
        return self._ar(o, b_sub)

    def __rsub__(self, o):
        return self._ar(o, b_sub, True)

    def __mul__(self, o):
        return self._ar(o, b_mul)

    def __rmul__(self, o):
        return self._ar(o, b_mul, True)

    def __truediv__(self, o):
        return self._ar(o, C.truediv, False, _kdiv)

    def __rtruediv__(self, o):
        return self._ar(o, C.truediv, True, _kdiv)

    def __floordiv__(self, o):
        return self._ar(o, C.floordiv)

    def __rfloordiv__(self, o):
        return self._ar(o, C.floordiv, True)

    def __mod__(self, o):
        return self._ar(o, C.mod)

    def __rmod__(self, o):
        return self._ar(o, C.mod, True)

    def __pow__(self, o):
        return self._ar(o, C.power)

    def __rpow__(self, o):
        return self._ar(o, C.power, True)

    def __matmul__(self, o):
        from .npf import matmul
        return matmul(self, o)

    def __rmatmul__(self, o):
        from .npf import matmul
        return matmul(o, self)

    def __and__(self, o):
        return self._ar(o, b_and)

    def __rand__(self, o):
        return self._ar(o, b_and, True)

    def __or__(self, o):
        return self._ar(o, b_or)

    def __ror__(self, o):
        return self._ar(o, b_or, True)

    def __xor__(self, o):
        return self._ar(o, b_xor)

    def __rxor__(self, o):
        return self._ar(o, b_xor, True)

    def __invert__(self):
        return SArr(_nd(b_inv, self), self.k)

    def __neg__(self):
        if self.k == "b":
            raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
        return SArr(_nd(C.neg, self), self.k)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return SArr(_nd(C.absval, self), "f" if self.k == "c" else self.k)

    # in place
    def _ip(self, o, f, kf=_karith):
        if not _operand(o):
            return NotImplemented
        db, kb = as_data(o)
        k = kf(self.k, kb)
        if C._ORDER[k] > C._ORDER[self.k]:
            raise TypeError(f"Cannot cast ufunc output from dtype('{k}') to "
                            f"dtype('{self.k}') with casting rule 'same_kind'")
        out = _nd(f, self.data, db)
        if out.shape != self.data.shape:
            raise ValueError("non-broadcastable output operand")
        for p in rnp.ndindex(*out.shape):
            v = out[p]
            self.data[p] = C.narrow(v if C.kind(v) == self.k else C.to_kind(v, self.k), self.nar)
        return self

    def __iadd__(self, o):
        return self._ip(o, b_add)

    def __isub__(self, o):
        return self._ip(o, b_sub)

    def __imul__(self, o):
        return self._ip(o, b_mul)

    def __itruediv__(self, o):
        return self._ip(o, C.truediv, _kdiv)

    def __ifloordiv__(self, o):
        return self._ip(o, C.floordiv)

    def __ipow__(self, o):
        return self._ip(o, C.power)

    def __iand__(self, o):
        return self._ip(o, b_and)

    def __ior__(self, o):
        return self._ip(o, b_or)

    # comparison
    def _cm(self, o, f):
        if not _operand(o):
            return NotImplemented
        return binop(f, self, o, _kb)

    def __lt__(self, o):
        return self._cm(o, C.lt)

    def __le__(self, o):
        return self._cm(o, C.le)

    def __gt__(self, o):
        return self._cm(o, C.gt)

    def __ge__(self, o):
        return self._cm(o, C.ge)

    def __eq__(self, o):
        if o is None or _isinstance(o, str):
            return SArr(_nd(lambda v: C.kind(v) == "O" and v == o, self), "b")
        try:
            return binop(b_eq, self, o, _kb)
        except ValueError:
            raise ValueError("operands could not be broadcast together")

    def __ne__(self, o):
        e = self.__eq__(o)
        if _isinstance(e, SArr):
            return ~e
        return C.wrap(C.lnot(C.raw_of(e)))

    __hash__ = None

    def __bool__(self):
        if self.data.size != 1:
            if self.data.size == 0:
                raise ValueError("The truth value of an empty array is ambiguous.")
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous. Use a.any() or a.all()")
        return C.truth(list(self.data.flat)[0])

    def _scalar(self):
        if self.data.ndim != 0:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return C.wrap(list(self.data.flat)[0], True)

    def __int__(self):
        return int(self._scalar())

    def __float__(self):
        return float(self._scalar())

    def __index__(self):
        if self.data.ndim != 0 or self.k != "i":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self._scalar())

    def __contains__(self, v):
        return C.truth(C.lor(*[b_eq(x, C.raw_of(v)) for x in self.data.flat]))

    # reductions delegate to the facade
    def _np(self, name, *a, **k):
        from . import npf
        return getattr(npf, name)(self, *a, **k)

    def sum(self, axis=None, **k):
        return self._np("sum", axis=axis, **k)

    def prod(self, axis=None, **k):
        return self._np("prod", axis=axis, **k)

    def mean(self, axis=None, **k):
        return self._np("mean", axis=axis, **k)

    def std(self, axis=None, **k):
        return self._np("std", axis=axis, **k)

    def var(self, axis=None, **k):
        return self._np("var", axis=axis, **k)

    def max(self, axis=None, **k):
        return self._np("max", axis=axis, **k)

    def min(self, axis=None, **k):
        return self._np("min", axis=axis, **k)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def argmax(self, axis=None, **k):
        return self._np("argmax", axis=axis)

    def argmin(self, axis=None, **k):
        return self._np("argmin", axis=axis)

    def argsort(self, axis=-1, **k):
        return self._np("argsort", axis=axis)

    def sort(self, axis=-1, **k):
        self.data[...] = self._np("sort", axis=axis).data

    def any(self, axis=None, **k):
        return self._np("any", axis=axis)

    def all(self, axis=None, **k):
        return self._np("all", axis=axis)

    def cumsum(self, axis=None, **k):
        return self._np("cumsum", axis=axis)

    def nonzero(self):
        return self._np("nonzero")

    def dot(self, o):
        return self._np("dot", o)

    def conj(self):
        return self._np("conjugate")

    conjugate = conj

    def round(self, n=0):
        return self._np("round", n)

    def clip(self, a=None, b=None, **k):
        return self._np("clip", a, b)

    def diagonal(self, *a):
        return self._np("diagonal", *a)

    def take(self, ix, axis=None):
        return self._np("take", ix, axis=axis)

    def __repr__(self):
        return f"array(shape={self.shape}, kind={self.k})"

    def __format__(self, spec):
        return repr(self)

    __str__ = __repr__


def coerce(v, k):
    c = C.kind(v)
    if c == k or k == "O":
        return v
    if c == "O":
        if v is None and k in "fc":
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        if _isinstance(v, str):
            from . import strs
            if k == "f":
                return C.raw_of(strs.sfloat(v))
            if k == "i":
                return C.raw_of(strs.sint(v))
        if k == "b":
            return C.truth(bool(v))
        raise TypeError(f"float() argument must be a string or a real number, not '{type(v).__name__}'")
    if c == "c" and k in "fi":
        return C.to_kind(v.re, k)
    if k == "i" and c == "f" and C.is_special(v):
        return -(2 ** 63)
    return C.to_kind(v, k)


def _isarr(o):
    return _isinstance(o, (SArr, rnp.ndarray))


def _operand(o):
    if _isinstance(o, (SArr, list, tuple, rnp.ndarray, range)):
        return True
    return C.kind(C.raw_of(o)) != "O"


def _conc_int(x):
    r = C.raw_of(x)
    if C.kind(r) == "f":
        raise TypeError("'float' object cannot be interpreted as an integer")
    return E.concretize_int(r)


def _conc_shape(s):
    if _isinstance(s, (list, tuple)):
        return tuple(_conc_int(v) for v in s)
    if _isinstance(s, SArr):
        return tuple(_conc_int(v) for v in s)
    return (_conc_int(s),)


class _Idx(tuple):
    pass


def _wants_array(ci):
    return ci is Ellipsis or (_isinstance(ci, tuple) and any(c is Ellipsis for c in ci))


def conc_index(ix, shape):
    """numpy-ready index with concrete integers (forks on symbolic ones)."""
    if _isinstance(ix, tuple):
        return tuple(_conc1(i) for i in ix)
    return _conc1(ix)


def _conc1(i):
    if i is None or i is Ellipsis:
        return i
    if _isinstance(i, bool):
        return i
    if _isinstance(i, int):
        return i
    if _isinstance(i, slice):
        def c(v):
            return None if v is None else _conc_slice(v)
        return slice(c(i.start), c(i.stop), c(i.step))
    if _isinstance(i, C.SBool):
        return bool(i)
    if _isinstance(i, C.SNum):
        if C.kind(i.raw) == "f":
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis "
                             "(`None`) and integer or boolean arrays are valid indices")
        return E.concretize_int(i.raw)
    if _isinstance(i, (float, complex)):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis "
                         "(`None`) and integer or boolean arrays are valid indices")
    if _isinstance(i, (list, range, tuple)):
        i = SArr.of(list(i)) if len(i) else SArr(obj_array((0,)), "i")
    if _isinstance(i, rnp.ndarray):
        i = from_real(i)
    if _isinstance(i, SArr):
        if i.k == "b":
            out = rnp.empty(i.shape, dtype=bool)
            for p in rnp.ndindex(*i.shape):
                out[p] = C.truth(i.data[p])
            return out
        if i.k == "i":
            out = rnp.empty(i.shape, dtype=int)
            for p in rnp.ndindex(*i.shape):
                out[p] = E.concretize_int(i.data[p])
            return out
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if hasattr(i, "__index__"):
        return operator.index(i)
    raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis "
                     "(`None`) and integer or boolean arrays are valid indices")


def _conc_slice(v):
    r = C.raw_of(v)
    if C.kind(r) == "f":
        raise TypeError("slice indices must be integers or None or have an __index__ method")
    return operator.index(v) if not C.is_z(r) else E.concretize_int(r)
