"""Models of everything the package calls outside numpy.

scipy / obspy / pandas / matplotlib / json / files are replaced by contract
models; each model that is reached is recorded in USED and listed in the
evidence as an assumption.
"""

import builtins
import datetime as _dt
import io
import json as _json
import os as _os
import pathlib as _pl
import types
from fractions import Fraction

import numpy as rnp

from . import core as C
from . import npf
from . import strs
from .arr import SArr, obj_array, from_real, to_py, _nd
from .core import E, Unsupported
from .fakes import Plt

_isinstance = builtins.isinstance
USED = {}


def use(name, contract):
    USED[name] = contract


# ------------------------------------------------------------------- scipy

def _correlate(a, v, mode="full"):
    a, v = npf.A(a), npf.A(v)
    if a.data.ndim != 1 or v.data.ndim != 1:
        raise Unsupported("correlate of n-d arrays")
    n, m = a.data.size, v.data.size
    k = C.promote(a.k, v.k)
    conj = lambda r: C.Cx(r.re, C.neg(r.im)) if _isinstance(r, C.Cx) else r
    out = []
    for lag in range(-(m - 1), n):
        s = C.to_kind(0, k if k != "b" else "i")
        for j in range(m):
            i = j + lag
            if 0 <= i < n:
                s = C.add(s, C.mul(a.data[i], conj(v.data[j])))
        out.append(s)
    if mode == "same":
        st = (len(out) - n) // 2
        out = out[st:st + n]
    elif mode == "valid":
        lo, hi = min(n, m), max(n, m)
        out = out[lo - 1:hi]
    elif mode != "full":
        raise ValueError("Acceptable mode flags are 'valid', 'same', or 'full'.")
    return SArr.of([C.wrap(x) for x in out]) if out else SArr.of([])


def correlate(in1, in2, mode="full", method="auto", **kw):
    use("scipy.signal.correlate", "direct sum of products")
    return _correlate(in1, in2, mode)


def correlation_lags(n1, n2, mode="full"):
    n1, n2 = int(n1), int(n2)
    lags = list(range(-n2 + 1, n1))
    if mode == "same":
        st = (len(lags) - n1) // 2
        lags = lags[st:st + n1]
    elif mode == "valid":
        lo, hi = min(n1, n2), max(n1, n2)
        lags = lags[lo - 1:hi]
    return SArr.of(lags)


def detrend(data, axis=-1, type="linear", bp=0, overwrite_data=False):
    use("scipy.signal.detrend", "exact least-squares line (or mean) removed")
    a = npf.A(data)
    if a.k != "f":
        a = a.astype("f")
    if a.data.ndim == 0:
        raise Unsupported("detrend of a scalar")
    d = rnp.moveaxis(a.data, axis, -1)
    out = obj_array(d.shape)
    n = d.shape[-1]
    for ix in rnp.ndindex(*d.shape[:-1]):
        xs = list(d[ix])
        if builtins.any(C.is_special(x) for x in xs):
            raise ValueError("array must not contain infs or NaNs")
        mean = C.Fraction(0) if False else Fraction(0)
        for x in xs:
            mean = C.add(mean, x)
        mean = C.mul(mean, Fraction(1, n))
        slope = Fraction(0)
        if type in ("linear", "l") and n > 1:
            tm = Fraction(n - 1, 2)
            den = builtins.sum((Fraction(t) - tm) ** 2 for t in range(n))
            for t, x in enumerate(xs):
                slope = C.add(slope, C.mul((Fraction(t) - tm) / den, x))
        for t, x in enumerate(xs):
            fit = mean if n == 1 else C.add(mean, C.mul(slope, Fraction(t) - Fraction(n - 1, 2)))
            v = C.sub(x, fit)
            out[ix + (t,)] = C.simp(v) if C.is_z(v) else v
    return SArr(rnp.ascontiguousarray(rnp.moveaxis(out, -1, axis)), "f")


def tukey(M, alpha=0.5, sym=True, **kw):
    import scipy.signal.windows as w
    use("scipy.signal.windows.tukey", "values computed by scipy, snapped to 1e-12")
    M = int(M)
    al = C.raw_of(alpha)
    if C.is_sym(al):
        raise Unsupported("symbolic taper fraction")
    vals = w.tukey(M, float(to_py(al)), sym)
    return SArr.of([C.wrap(C.snap(float(v))) for v in vals]) if M else SArr.of([])


class interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None,
                 fill_value=float("nan"), assume_sorted=False):
        use("scipy.interpolate.interp1d", "piecewise linear on sorted abscissae")
        if kind != "linear":
            raise Unsupported(f"interp1d kind {kind}")
        x, y = npf.array(x), npf.array(y)
        if y.data.ndim != 1 or x.data.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if len(x) != len(y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            ind = C.sort_perm(list(x.data))
            x = SArr(x.data[ind], x.k)
            y = SArr(y.data[ind], y.k)
        self.x, self.y = x.astype("f"), y.astype("f")
        if len(x) < 1:
            raise ValueError("x and y arrays must have at least 1 entries")
        self.extra = _isinstance(fill_value, str)
        self.fill = fill_value
        self.bounds_error = bounds_error
        if bounds_error is None:
            self.bounds_error = not self.extra

    def __call__(self, xn):
        xn = npf.asarray(xn)
        lo, hi = self.x.data[0], self.x.data[-1]
        fl, fh = self.fill if _isinstance(self.fill, tuple) else (self.fill, self.fill)

        def f(v):
            v = C.to_kind(v, "f")
            if C.isnan(v):
                return C.NAN
            below, above = C.lt(v, lo), C.gt(v, hi)
            if self.extra:
                return self._extra(v)
            if C.truth(below):
                if self.bounds_error:
                    raise ValueError("A value in x_new is below the interpolation range.")
                return C.to_kind(C.raw_of(fl), "f")
            if C.truth(above):
                if self.bounds_error:
                    raise ValueError("A value in x_new is above the interpolation range.")
                return C.to_kind(C.raw_of(fh), "f")
            r = npf.interp(C.wrap(v), self.x, self.y)
            return C.to_kind(C.raw_of(r), "f")

        return SArr(_nd(f, xn), "f")

    def _extra(self, v):
        n = len(self.x)
        i = 1
        while i < n - 1 and C.truth(C.gt(v, self.x.data[i])):
            i += 1
        return npf._lerp(v, self.x.data[i - 1], self.x.data[i],
                         self.y.data[i - 1], self.y.data[i])


def _uf_elem(name):
    import scipy.special as sps
    real = getattr(sps, name)

    def g(x):
        use(f"scipy.special.{name}", "uninterpreted function (values snapped when concrete)")

        def f(v):
            v = C.to_kind(v, "f")
            if C.is_special(v):
                return C.frac_of_float(float(real(float(v))))
            v = C.simp(v)
            if C.is_z(v):
                return C.uf(name, v)
            return C.snap(float(real(float(v))))
        if _isinstance(x, (SArr, list, tuple)):
            return SArr(_nd(f, npf.A(x)), "f")
        return C.wrap(f(C.raw_of(x)), True)
    return g


def curve_fit(*a, **k):
    raise Unsupported("scipy.optimize.curve_fit")


class _Lazy(types.ModuleType):
    """Module whose unknown members run on concrete values only."""

    def __init__(self, name, real=None, **members):
        super().__init__(name)
        self.__dict__.update(members)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if self._real is None:
            raise Unsupported(f"{self.__name__}.{n}")
        f = getattr(self._real, n)
        if _isinstance(f, types.ModuleType):
            return _Lazy(f"{self.__name__}.{n}", f)
        if callable(f):
            return npf.concrete_only(f"{self.__name__}.{n}", f)
        return f


def scipy_modules():
    import scipy.signal as sg
    import scipy.special as sps
    import scipy.interpolate as si
    windows = _Lazy("scipy.signal.windows", sg.windows, tukey=tukey)
    signal = _Lazy("scipy.signal", sg, correlate=correlate, detrend=detrend,
                   windows=windows, correlation_lags=correlation_lags)
    special = _Lazy("scipy.special", sps, j0=_uf_elem("j0"), y0=_uf_elem("y0"))

    def hankel(k):
        def g(n, x):
            if C.raw_of(n) != 0:
                raise Unsupported("hankel order")
            return special.j0(x) + (1j if k == 1 else -1j) * special.y0(x)
        return g
    special.hankel1, special.hankel2 = hankel(1), hankel(2)
    interpolate = _Lazy("scipy.interpolate", si, interp1d=interp1d)
    optimize = _Lazy("scipy.optimize", None, curve_fit=curve_fit)
    fft = _Lazy("scipy.fft", None)
    for n in ("fft", "ifft", "rfft", "irfft", "fftfreq", "rfftfreq"):
        try:
            fft.__dict__[n] = getattr(npf.fft, n)
        except Unsupported:
            pass
    scipy = _Lazy("scipy", None, signal=signal, special=special,
                  interpolate=interpolate, optimize=optimize, fft=fft)
    return {"scipy": scipy, "scipy.signal": signal, "scipy.special": special,
            "scipy.signal.windows": windows, "scipy.interpolate": interpolate,
            "scipy.optimize": optimize, "scipy.fft": fft,
            "scipy.linalg": _Lazy("scipy.linalg", None)}


# ------------------------------------------------------ files and documents

class FS:
    """The virtual file system of one path."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}          # name -> str
        self.dirs = {".", "/"}
        self.docs = {}           # token -> decoded json document
        self.streams = {}        # name -> list of trace specs
        self.tables = {}         # name -> list of dict rows
        self.reads = []          # obspy.read calls (name, kwargs)
        self.writes = []         # stream.write calls


fs = FS()


def _fname(f):
    f = _str(f) if not _isinstance(f, str) else f
    if strs.is_symstr(f):
        f = strs.concretize(f)
    f = str.__str__(f)
    return f[2:] if f.startswith("./") else f


_str = builtins.str


class VFile:
    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
        self.pos = 0
        self.closed = False
        if "b" in mode:
            raise Unsupported("binary file access")
        if mode[0] == "r":
            if name not in fs.files:
                raise FileNotFoundError(2, "No such file or directory", name)
            self.text = fs.files[name]
        elif mode[0] == "a":
            self.text = fs.files.get(name, "")
            self.pos = len(self.text)
        elif mode[0] == "x":
            if name in fs.files:
                raise FileExistsError(17, "File exists", name)
            self.text = ""
        else:
            self.text = ""
        if mode[0] != "r":
            fs.files[name] = self.text

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def read(self, n=-1):
        if self.mode[0] in "wa" and "+" not in self.mode:
            raise io.UnsupportedOperation("not readable")
        out = self.text[self.pos:] if n < 0 else self.text[self.pos:self.pos + n]
        self.pos += len(out)
        return strs.mk(out)

    def readlines(self):
        return [strs.mk(x) for x in _splitkeep(_str.__str__(self.read()))]

    def readline(self):
        rest = _splitkeep(self.text[self.pos:])
        if not rest:
            return ""
        self.pos += len(rest[0])
        return strs.mk(rest[0])

    def __iter__(self):
        return iter(self.readlines())

    def write(self, s):
        if self.mode[0] == "r" and "+" not in self.mode:
            raise io.UnsupportedOperation("not writable")
        s = _str.__str__(s)
        self.text = self.text[:self.pos] + s + self.text[self.pos + len(s):]
        self.pos += len(s)
        fs.files[self.name] = self.text
        return len(s)

    def seek(self, p, w=0):
        self.pos = p if w == 0 else (self.pos + p if w == 1 else len(self.text) + p)
        return self.pos

    def truncate(self, n=None):
        self.text = self.text[:self.pos if n is None else n]
        fs.files[self.name] = self.text

    def tell(self):
        return self.pos


def _splitkeep(s):
    return io.StringIO(s).readlines() if s else []


def vopen(f, mode="r", *a, **k):
    use("open", "in-memory files")
    return VFile(_fname(f), mode)


def _doc(x):
    """JSON view of a value: lists, dicts with str keys, scalars."""
    if _isinstance(x, (C.SNum, C.SBool)):
        if _isinstance(x, C.SNum) and x.npy and C.kind(x.raw) != "f":
            raise TypeError("Object of type int64 is not JSON serializable")
        return C.wrap(x.raw)
    if x is None or _isinstance(x, (bool, int, float, str)):
        return x
    if _isinstance(x, Fraction):
        return C.wrap(x)
    if _isinstance(x, (list, tuple)):
        return [_doc(v) for v in x]
    if _isinstance(x, dict):
        return {(k if _isinstance(k, str) else _json.dumps(k)): _doc(v) for k, v in x.items()}
    raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")


def _copy(x):
    if _isinstance(x, list):
        return [_copy(v) for v in x]
    if _isinstance(x, dict):
        return {k: _copy(v) for k, v in x.items()}
    return x


class json_module:
    JSONDecodeError = _json.JSONDecodeError

    @staticmethod
    def dumps(obj, **k):
        use("json", "dump then load returns an equal document")
        tok = f'"\uf8f0{len(fs.docs)}\uf8f1"'
        fs.docs[tok] = _doc(obj)
        return tok

    @staticmethod
    def dump(obj, fp, **k):
        fp.write(json_module.dumps(obj))

    @staticmethod
    def loads(s, **k):
        s = _str.__str__(s).strip()
        if s in fs.docs:
            return _copy(fs.docs[s])
        if "\uf8f0" in s:
            raise _json.JSONDecodeError("Extra data", "doc", 0)
        return _json.loads(s, parse_float=lambda t: C.wrap(Fraction(t)))

    @staticmethod
    def load(fp, **k):
        return json_module.loads(fp.read())


class os_module:
    """os with directory queries on the virtual file system."""

    class path:
        sep = "/"

        @staticmethod
        def isdir(p):
            return _dn(p) in fs.dirs

        @staticmethod
        def isfile(p):
            return _fname(p) in fs.files

        @classmethod
        def exists(cls, p):
            return cls.isdir(p) or cls.isfile(p)

    sep = "/"
    linesep = "\n"
    PathLike = _os.PathLike

    @staticmethod
    def mkdir(p, *a, **k):
        p = _dn(p)
        if p in fs.dirs:
            raise FileExistsError(17, "File exists", p)
        fs.dirs.add(p)

    @staticmethod
    def makedirs(p, mode=0o777, exist_ok=False):
        p = _dn(p)
        if p in fs.dirs and not exist_ok:
            raise FileExistsError(17, "File exists", p)
        fs.dirs.add(p)

    @staticmethod
    def fspath(p):
        return _str(p)

    @staticmethod
    def getcwd():
        return "."


for _n in ("join", "basename", "dirname", "split", "splitext", "normpath", "abspath"):
    setattr(os_module.path, _n, staticmethod(getattr(_os.path, _n)))


def _dn(p):
    return _os.path.normpath(_fname(p))


class VPath(_pl.PurePosixPath):
    def is_dir(self):
        return os_module.path.isdir(self)

    def is_file(self):
        return os_module.path.isfile(self)

    def exists(self):
        return os_module.path.exists(self)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if self.exists():
            if not exist_ok:
                raise FileExistsError(17, "File exists", _str(self))
            return
        fs.dirs.add(_dn(self))

    def open(self, mode="r", *a, **k):
        return vopen(self, mode)

    def read_text(self, *a, **k):
        return vopen(self).read()

    def write_text(self, s, *a, **k):
        return vopen(self, "w").write(s)


# ------------------------------------------------------------------- obspy

class AttribDict(dict):
    """Attribute and item access to header fields."""

    def __getattr__(self, n):
        if n.startswith("__") or n in ("_is_sarr",):
            raise AttributeError(n)
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)

    def __init__(self, *a, **k):
        super().__init__()
        for x in a:
            for n, v in dict(x).items():
                self[n] = v
        for n, v in k.items():
            self[n] = v

    def __setattr__(self, n, v):
        self[n] = v

    def __setitem__(self, n, v):
        # as obspy: nested mappings become AttribDicts
        if _isinstance(v, dict) and not _isinstance(v, AttribDict):
            v = AttribDict(v)
        dict.__setitem__(self, n, v)

    def __deepcopy__(self, memo):
        return type(self)(self)


_I32 = ("source_coordinate_x", "source_coordinate_y", "group_coordinate_x", "group_coordinate_y")


class SEGYTraceHeader(AttribDict):
    """SEG-Y trace header: every field exists and defaults to zero."""

    def __init__(self, *a, **k):
        super().__init__(*[x for x in a if _isinstance(x, dict)])

    def __missing__(self, n):
        if n.startswith("_"):
            raise KeyError(n)
        return 0

    def __getattr__(self, n):
        if n.startswith("__") or n in ("_is_sarr",):
            raise AttributeError(n)
        return self[n]


class Stats(AttribDict):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        dict.setdefault(self, "delta", 1.0)


class Trace:
    def __init__(self, data=None, header=None):
        self.data = npf.array([]) if data is None else data
        self.stats = Stats(header or {})

    @property
    def meta(self):
        return self.stats

    def copy(self):
        t = Trace(self.data.copy())
        t.stats = Stats({k: (type(v)(v) if _isinstance(v, AttribDict) else v)
                         for k, v in self.stats.items()})
        return t


class Stream:
    def __init__(self, traces=None):
        self.traces = list(traces or [])
        self.log = []

    def append(self, t):
        self.traces.append(t)
        return self

    def extend(self, ts):
        self.traces.extend(ts)
        return self

    def __iter__(self):
        return iter(list(self.traces))

    def __len__(self):
        return len(self.traces)

    def __getitem__(self, i):
        if _isinstance(i, slice):
            return Stream(self.traces[i])
        return self.traces[int(i)]

    def __add__(self, o):
        return Stream(self.traces + ([o] if _isinstance(o, Trace) else list(o.traces)))

    def __iadd__(self, o):
        self.traces += [o] if _isinstance(o, Trace) else list(o.traces)
        return self

    def insert(self, i, t):
        self.traces[i:i] = [t] if _isinstance(t, Trace) else list(t.traces)
        return self

    def count(self):
        return len(self.traces)

    def pop(self, i=-1):
        return self.traces.pop(i)

    def copy(self):
        return Stream([t.copy() for t in self.traces])

    def _timed(self):
        return bool(self.traces) and builtins.all(t.stats.get("_format") == "MSEED" for t in self.traces)

    def merge(self, method=0, fill_value=None, **k):
        if not self._timed():
            self.log.append(("merge", method))
            return self
        use("obspy Stream.merge", "continuous traces are joined on their common time grid; gaps are masked; "
            "where traces overlap the later one counts (method 1)")
        ts = sorted(self.traces, key=lambda t: Fraction(C.raw_of(t.stats.starttime.t)))
        t0, dt = ts[0].stats.starttime, ts[0].stats.delta
        out = []
        for t in ts:
            i = (Fraction(t.stats.starttime.t) - Fraction(t0.t)) / Fraction(C.raw_of(dt))
            if i.denominator != 1 or C.raw_of(t.stats.delta) != C.raw_of(dt):
                raise Unsupported("merge of traces on different grids")
            i = int(i)
            d = t.data.items if _isinstance(t.data, npf.masked_array) else [C.wrap(x) for x in t.data.data]
            if i < len(out) and method != 1:
                raise Unsupported("merge of overlapping traces")
            out += [None] * (i + len(d) - len(out))
            out[i:i + len(d)] = d
        tr = ts[0].copy()
        if None in out and fill_value is None:
            tr.data = npf.masked_array(out)
        else:
            if fill_value in ("latest", "interpolate"):
                raise Unsupported("merge with this filling")
            tr.data = npf.array([fill_value if x is None else x for x in out])
        self.traces = [tr]
        return self

    def trim(self, starttime=None, endtime=None, pad=False, keep_empty_traces=False,
             nearest_sample=True, fill_value=None, **k):
        if not self._timed():
            self.log.append(("trim", starttime, endtime))
            return self
        use("obspy Stream.trim", "keeps the samples from the one nearest the start to the one nearest the end; "
            "a start after the end is refused with ValueError")
        if pad or not nearest_sample:
            raise Unsupported("trim with padding")

        def idx(t, tr):
            x = C.truediv(C.to_kind(C.sub(t.t, tr.stats.starttime.t), "f"), C.raw_of(tr.stats.delta))
            half = Fraction(1, 2)
            up = C.to_kind(C.floor_(C.add(x, half)), "i")
            down = C.neg(C.to_kind(C.floor_(C.sub(half, x)), "i"))
            return E.concretize_int(C.simp(C.ite(C.ge(x, 0), up, down)))
        keep = []
        for i, tr in enumerate(self.traces):
            if starttime is not None:
                if i == 0:
                    d = idx(starttime, tr)
                    starttime = tr.stats.starttime + C.wrap(C.mul(d, C.raw_of(tr.stats.delta)))
                if endtime is not None and starttime > endtime:
                    raise ValueError("startime is larger than endtime")
                d = idx(starttime, tr)
                if d > 0:
                    tr.stats["starttime"] = tr.stats.starttime + C.wrap(C.mul(d, C.raw_of(tr.stats.delta)))
                    tr.data = tr.data[d:]
            if endtime is not None:
                d = idx(endtime, tr) + 1
                if d < len(tr.data):
                    tr.data = tr.data[:builtins.max(d, 0)]
            if keep_empty_traces or len(tr.data):
                keep.append(tr)
        self.traces = keep
        return self

    def write(self, filename, format=None, **k):
        use("obspy SU files", "header integers, sampling step in microseconds and "
            "float32 samples are stored and read back unchanged")
        name = _fname(filename)
        specs = []
        if str(format).upper() != "SU" and (_os.path.dirname(name) or ".") not in fs.dirs:
            raise FileNotFoundError(2, "No such file or directory", name)
        for t in self.traces:
            if _isinstance(t.data, npf.masked_array):
                raise NotImplementedError("Masked array writing is not supported. You can use "
                                          "np.array.filled() to convert the masked array to a normal array.")
            specs.append(_su_spec(t) if str(format).upper() == "SU" else {"trace": t})
        fs.streams[name] = specs
        fs.writes.append((name, format, self))


def _su_spec(t):
    """What an SU file keeps of a trace."""
    h = {}
    for n, v in t.stats.su.trace_header.items():
        r = C.raw_of(v)
        if C.kind(r) != "i":
            raise TypeError("required argument is not an integer")
        lim = 2 ** 31 if n in _I32 else 2 ** 15
        ok = C.land(C.ge(r, -lim), C.lt(r, lim))
        if not C.truth(ok):
            raise OverflowError("header value out of range")
        h[n] = v
    us = C.rint(C.mul(C.to_kind(C.raw_of(t.stats.delta), "f"), Fraction(10 ** 6)))
    return {"format": "SU", "header": h, "data": [C.wrap(v) for v in npf.A(t.data).data],
            "delta": C.wrap(C.mul(C.to_kind(us, "f"), Fraction(1, 10 ** 6)))}


def make_trace(spec):
    if "trace" in spec:
        return spec["trace"].copy()
    t = Trace(npf.array(list(spec["data"]), dtype=spec.get("dtype", float)))
    st = t.stats
    st["delta"] = spec["delta"]
    f = spec["format"]
    st["_format"] = f
    st["starttime"] = spec.get("starttime")
    if f == "SEG2":
        st["seg2"] = AttribDict(spec["header"])
    elif f in ("SU", "SEGY"):
        st[f.lower()] = AttribDict(trace_header=SEGYTraceHeader(spec["header"]))
    return t


def obspy_read(name=None, *a, **kw):
    use("obspy.read", "returns the traces of the scripted file, unchanged")
    name = _fname(name)
    fs.reads.append((name, dict(kw)))
    if name not in fs.streams:
        raise FileNotFoundError(2, "No such file or directory", name)
    return Stream([make_trace(s) for s in fs.streams[name]])


class UTCDateTime:
    """Seconds since an epoch; calendar part must be concrete."""

    def __init__(self, *a, **k):
        self.args = a
        if len(a) == 1 and _isinstance(a[0], UTCDateTime):
            self.t = a[0].t
            return
        if len(a) == 1 and _isinstance(a[0], _dt.datetime):
            self.t = C.raw_of(int((a[0].replace(tzinfo=None) - _dt.datetime(1970, 1, 1)).total_seconds()))
            return
        names = ("year", "month", "day", "hour", "minute", "second")
        v = dict(zip(names, a))
        v.update(k)
        day = int((_dt.datetime(int(v["year"]), int(v["month"]), int(v["day"]))
                   - _dt.datetime(1970, 1, 1)).total_seconds())
        t = C.raw_of(day)
        for n, s in (("hour", 3600), ("minute", 60), ("second", 1)):
            t = C.add(t, C.mul(C.raw_of(v.get(n, 0)), s))
        self.t = C.simp(t)

    def __add__(self, s):
        o = UTCDateTime(self)
        o.t = C.add(self.t, C.raw_of(s))
        return o

    def __sub__(self, o):
        if _isinstance(o, UTCDateTime):
            return C.wrap(C.sub(self.t, o.t))
        return self + (-o)

    def __lt__(self, o):
        return C.wrap(C.lt(self.t, o.t))

    def __le__(self, o):
        return C.wrap(C.le(self.t, o.t))

    def __gt__(self, o):
        return C.wrap(C.gt(self.t, o.t))

    def __ge__(self, o):
        return C.wrap(C.ge(self.t, o.t))

    def __eq__(self, o):
        return _isinstance(o, UTCDateTime) and C.wrap(C.eq(self.t, o.t))

    def __format__(self, s):
        return "<time>"


def obspy_modules():
    segy = types.ModuleType("obspy.io.segy.segy")
    segy.SEGYTraceHeader = SEGYTraceHeader
    io_ = types.ModuleType("obspy.io")
    segyp = types.ModuleType("obspy.io.segy")
    segyp.segy = segy
    io_.segy = segyp
    ob = _Lazy("obspy", None, read=obspy_read, Stream=Stream, Trace=Trace,
               UTCDateTime=UTCDateTime, io=io_)
    core = _Lazy("obspy.core", None, Stream=Stream, Trace=Trace, AttribDict=AttribDict,
                 UTCDateTime=UTCDateTime)
    return {"obspy": ob, "obspy.io": io_, "obspy.io.segy": segyp,
            "obspy.io.segy.segy": segy, "obspy.core": core}


# ------------------------------------------------------------------ pandas

class Row(dict):
    def __getattr__(self, n):
        if n.startswith("__") or n == "_is_sarr":
            raise AttributeError(n)
        return self[n]


class Column(list):
    def count(self):
        return len(self)

    def tolist(self):
        return list(self)

    @property
    def iloc(self):
        return self


class Frame:
    def __init__(self, rows):
        self.rows = rows

    def __getitem__(self, c):
        return Column([r[c] for r in self.rows])

    def __len__(self):
        return len(self.rows)

    def iterrows(self):
        for i, r in enumerate(self.rows):
            yield i, Row(r)

    @property
    def columns(self):
        return list(self.rows[0]) if self.rows else []

    @property
    def index(self):
        return range(len(self.rows))

    @property
    def shape(self):
        return (len(self.rows), len(self.columns))

    @property
    def iloc(self):
        return [Row(r) for r in self.rows]

    @property
    def loc(self):
        return [Row(r) for r in self.rows]

    def to_dict(self, orient="dict"):
        if orient == "records":
            return [dict(r) for r in self.rows]
        raise Unsupported("DataFrame.to_dict")

    def __getattr__(self, n):
        raise Unsupported(f"DataFrame.{n}")


def read_csv(f, *a, **k):
    use("pandas.read_csv", "returns the scripted table")
    n = _fname(f)
    if n not in fs.tables:
        raise FileNotFoundError(n)
    return Frame([dict(r) for r in fs.tables[n]])


# -------------------------------------------------------------- small stubs

class _Warn:
    UserWarning = UserWarning

    def __init__(self):
        self.got = []

    def warn(self, msg, category=None, stacklevel=1, **k):
        if _isinstance(msg, Warning):
            category = type(msg)
        self.got.append((category or UserWarning, msg))

    def simplefilter(self, *a, **k):
        pass

    filterwarnings = resetwarnings = simplefilter

    class catch_warnings:
        def __init__(self, *a, record=False, **k):
            self.record = record

        def __enter__(self):
            return [] if self.record else None

        def __exit__(self, *a):
            return False


warnings_module = _Warn()


class _Logger:
    level = 0

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None

    def isEnabledFor(self, *a):
        return False


class logging_module:
    DEBUG, INFO, WARNING, ERROR, CRITICAL = 10, 20, 30, 40, 50
    _l = _Logger()
    Logger = _Logger

    @staticmethod
    def getLogger(*a, **k):
        return logging_module._l

    class NullHandler:
        pass

    class StreamHandler:
        pass


for _n in ("debug", "info", "warning", "error", "critical", "exception", "log", "basicConfig"):
    setattr(logging_module, _n, staticmethod(lambda *a, **k: None))


def _mkaxes(axs, nrows, ncols, squeeze):
    d = obj_array((nrows, ncols))
    for i, ax in enumerate(axs):
        d[i // ncols, i % ncols] = ax
    if squeeze:
        d = d.squeeze()
    return SArr(d, "O")


plt = Plt(_mkaxes)


class _Colormaps(dict):
    def __missing__(self, k):
        return f"cmap:{k}"

    def __call__(self, k):
        return self[k]


class Cursor:
    def __init__(self, *a, **k):
        pass


def mpl_modules():
    pm = types.ModuleType("matplotlib.pyplot")
    pm.__getattr__ = lambda n: getattr(plt, n)
    wid = types.ModuleType("matplotlib.widgets")
    wid.Cursor = Cursor
    m = types.ModuleType("matplotlib")
    m.pyplot = pm
    m.widgets = wid
    m.colormaps = _Colormaps()
    m.cm = types.SimpleNamespace(get_cmap=lambda n, *a: f"cmap:{n}")
    m.rcParams = {}
    ax = types.ModuleType("matplotlib.axes")
    from .fakes import FakeAx, FakeFig
    ax.Axes = FakeAx
    fg = types.ModuleType("matplotlib.figure")
    fg.Figure = FakeFig
    return {"matplotlib": m, "matplotlib.pyplot": pm, "matplotlib.widgets": wid,
            "matplotlib.axes": ax, "matplotlib.figure": fg}


class Stdin:
    """Scripted answers to input()."""
    script = None
    prompts = []


def vinput(prompt=""):
    Stdin.prompts.append(prompt)
    if Stdin.script is None:
        raise Unsupported("input() without a script")
    return Stdin.script()


def reset_all():
    fs.reset()
    plt.reset()
    warnings_module.got = []
    Stdin.script = None
    Stdin.prompts = []
