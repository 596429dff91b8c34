"""Concrete backend: runs a harness on the real package.

Used as a line server: every input line is a JSON job, every output line a
JSON verdict.  Runs under the interpreter the package is installed for.
"""

import json
import math
import os
import shutil
import sys
import tempfile
import traceback
import importlib
import importlib.util
import builtins

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
if "MPLCONFIGDIR" not in os.environ:
    import atexit
    os.environ["MPLCONFIGDIR"] = tempfile.mkdtemp(prefix="symx-mpl-")
    atexit.register(shutil.rmtree, os.environ["MPLCONFIGDIR"], True)

import warnings  # noqa: E402
warnings.simplefilter("ignore")
import logging  # noqa: E402
logging.disable(logging.CRITICAL)

import numpy as np  # noqa: E402
import matplotlib  # noqa: E402
matplotlib.use("Agg")
import matplotlib.pyplot as mplt  # noqa: E402
import matplotlib.widgets as mwid  # noqa: E402
import obspy  # noqa: E402
from obspy.core import AttribDict, Trace, Stream  # noqa: E402
from obspy.io.segy.header import TRACE_HEADER_KEYS  # noqa: E402

from symx.harness import Base, Skip  # noqa: E402
from symx import fakes  # noqa: E402

_np_seterr = np.seterr(all="ignore")


def _mkaxes(axs, nrows, ncols, squeeze):
    d = np.empty((nrows, ncols), dtype=object)
    for i, ax in enumerate(axs):
        d[i // ncols, i % ncols] = ax
    return d.squeeze() if squeeze else d


plt = fakes.Plt(_mkaxes)


class _Cursor:
    def __init__(self, *a, **k):
        pass


mwid.Cursor = _Cursor
for _n in ("subplots", "figure", "ginput", "waitforbuttonpress"):
    setattr(mplt, _n, (lambda n: lambda *a, **k: getattr(plt, n)(*a, **k))(_n))
for _n in ("show", "close", "draw", "pause", "suptitle", "title", "tight_layout", "sca",
           "gcf", "gca", "setp", "clf", "cla"):
    setattr(mplt, _n, lambda *a, **k: fakes.Artist(a, k))

_real_read = obspy.read
_H = None


def make_trace(spec):
    t = Trace(np.array([float(x) for x in spec["data"]], dtype=float).astype(spec.get("dtype", float)))
    t.stats.delta = float(spec["delta"])
    f = spec["format"]
    t.stats._format = f
    if spec.get("starttime") is not None:
        t.stats.starttime = spec["starttime"]
    if f == "SEG2":
        ad = AttribDict()
        for k, v in spec["header"].items():
            ad[k] = v
        t.stats.seg2 = ad
    elif f in ("SU", "SEGY"):
        th = AttribDict({n: 0 for n in TRACE_HEADER_KEYS})
        for k, v in spec["header"].items():
            th[k] = int(v)
        t.stats[f.lower()] = AttribDict(trace_header=th)
    return t


class RecStream(Stream):
    """Stream that remembers how it is used (merge / trim / write)."""

    def __init__(self, traces=None):
        super().__init__(traces)
        self.log = []

    def _timed(self):
        return bool(self.traces) and all(t.stats.get("_format") == "MSEED" for t in self.traces)

    def merge(self, method=0, **k):
        if self._timed():
            r = super().merge(method, **k)
            for t in self.traces:
                t.stats._format = "MSEED"
            return r
        self.log.append(("merge", method))
        return self

    def trim(self, starttime=None, endtime=None, **k):
        if self._timed():
            return super().trim(starttime, endtime, **k)
        self.log.append(("trim", starttime, endtime))
        return self

    def write(self, filename, format=None, **k):
        if str(format).upper() == "SU":
            return super().write(filename, format=format, **k)
        if not os.path.isdir(os.path.dirname(str(filename)) or "."):
            raise FileNotFoundError(2, "No such file or directory", str(filename))
        for t in self.traces:
            if isinstance(t.data, np.ma.masked_array):
                raise NotImplementedError("Masked array writing is not supported.")
        _H._writes.append((str(filename), format, self))


def _read(name=None, *a, **kw):
    key = str(name)
    _H._reads.append((key, dict(kw)))
    if key in _H._streams:
        return RecStream([make_trace(s) for s in _H._streams[key]])
    return _real_read(name, *a, **kw)


obspy.read = _read


class ConcH(Base):
    symbolic = False

    def __init__(self, sw, inputs):
        global _H
        _H = self
        self.sw = sw
        self.np = np
        self.plt = plt
        self.inputs = inputs
        self.failed = []
        self.observed = {}
        self.nchecks = 0
        self._streams, self._reads, self._writes = {}, [], []
        self._nprompts = 0

    def mod(self, name):
        return importlib.import_module("swprocess." + name)

    def _get(self, name, default=None):
        if name not in self.inputs:
            if default is None:
                raise Skip(f"no value for {name}")
            return default
        return self.inputs[name]

    def real(self, name, lo=None, hi=None, npy=False):
        d = lo if lo is not None else (hi if hi is not None else 0.0)
        v = float(self._get(name, float(d)))
        return np.float64(v) if npy else v

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        options = list(options)
        return options[int(self._get(name, 0)) % len(options)]

    def digit(self, name, lo=0, hi=9):
        return str(int(self._get(name, lo)))

    def digits(self, name, n, first_nonzero=False):
        return "".join(self.digit(f"{name}{i}", 1 if (first_nonzero and i == 0) else 0)
                       for i in range(n))

    def num(self, s):
        return float(s)

    def require(self, c, sure=False):
        if not _truth(c):
            raise Skip("requirement")

    def eq(self, a, b, tol=None):
        return deep_eq(a, b, tol or 5e-9)

    def same(self, a, b):
        return deep_eq(a, b, 0.0)

    def le(self, a, b, tol=None):
        if tol == 0:
            return bool(a <= b)
        t = (1e-9 if tol is None else tol)
        return bool(a <= b + t * max(1.0, abs(a), abs(b)))

    def lt(self, a, b, tol=None):
        if tol == 0:
            return bool(a < b)
        return self.le(a, b)

    def gap(self, a, b, margin):
        return bool(a + margin / 2 < b)

    def not_(self, c):
        return not _truth(c)

    def all_(self, cs):
        return all([_truth(c) for c in cs])

    def any_(self, cs):
        return any([_truth(c) for c in cs])

    def implies(self, a, b):
        return (not _truth(a)) or _truth(b)

    def ite(self, c, a, b):
        return a if _truth(c) else b

    def is_nan(self, x):
        return bool(x != x)

    def tolist(self, x):
        return x.tolist() if isinstance(x, np.ndarray) else list(x)

    def val(self, x):
        return x.item() if isinstance(x, np.generic) else x

    def check(self, c, label):
        self.nchecks += 1
        if not _truth(c):
            self.failed.append(label)

    def observe(self, name, x):
        self.observed[name] = _json(x)

    def prefer(self, c):
        pass

    def write_text(self, name, text):
        with open(name, "w") as f:
            f.write(text)
        return name

    def read_text(self, name):
        with open(name) as f:
            return f.read()

    def exists(self, name):
        return os.path.exists(str(name))

    def load_json(self, name):
        with open(name) as f:
            return json.load(f)

    def dump_json(self, name, obj):
        with open(name, "w") as f:
            json.dump(obj, f)

    def stream(self, name, specs):
        self._streams[name] = specs
        return name

    def reads(self):
        return list(self._reads)

    def saved(self):
        return [(n, f) for n, f, _ in self._writes]

    def written(self, name):
        """[(start in seconds, step, samples)] of a file written (not SU)."""
        for n, _, st in self._writes[::-1]:
            if os.path.normpath(n) == os.path.normpath(name):
                return [(t.stats.starttime - obspy.UTCDateTime(0), t.stats.delta, t.data.tolist()) for t in st]
        return None

    def mkdir(self, name):
        os.mkdir(name)

    def make_stream(self, specs):
        return RecStream([make_trace(s) for s in specs])

    def table(self, name, rows):
        cols = list(rows[0])
        with open(name, "w") as f:
            f.write(",".join(cols) + "\n")
            for r in rows:
                f.write(",".join(str(r[c]) for c in cols) + "\n")
        return name

    def answers(self, xs):
        it = iter(xs)

        def ask(prompt=""):
            self._nprompts += 1
            try:
                return next(it)
            except StopIteration:
                raise Skip("no more scripted answers")
        builtins.input = ask

    def prompts(self):
        return self._nprompts

    def utc(self, *a):
        return obspy.UTCDateTime(*a)

    def stop(self):
        raise Skip("harness bound")


def _truth(c):
    if isinstance(c, np.ndarray):
        return bool(np.all(c))
    return bool(c)


def deep_eq(a, b, tol):
    if isinstance(a, np.ndarray):
        a = a.tolist() if a.ndim else a.item()
    if isinstance(b, np.ndarray):
        b = b.tolist() if b.ndim else b.item()
    if isinstance(a, range):
        a = list(a)
    if isinstance(b, range):
        b = list(b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return all(deep_eq(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False
        return all(deep_eq(a[k], b[k], tol) for k in a)
    num = (int, float, complex, np.number, np.bool_)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, (complex, np.complexfloating)) or isinstance(b, (complex, np.complexfloating)):
            a, b = complex(a), complex(b)
            return deep_eq(a.real, b.real, tol) and deep_eq(a.imag, b.imag, tol)
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    r = (a is b) or (a == b)
    return _truth(r)


def _json(x):
    if isinstance(x, np.ndarray):
        return _json(x.tolist())
    if isinstance(x, np.generic):
        return _json(x.item())
    if isinstance(x, complex):
        return {"re": _json(x.real), "im": _json(x.imag)}
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (list, tuple)):
        return [_json(v) for v in x]
    if isinstance(x, dict):
        return {str(k): _json(v) for k, v in x.items()}
    if x is None or isinstance(x, (bool, int, str)):
        return x
    return repr(x)


def load_prop(name):
    return importlib.import_module("props." + name)


def decode(v):
    if isinstance(v, str) and v in ("nan", "inf", "-inf"):
        return float(v)
    return v


def run_job(sw, job):
    mod = load_prop(job["module"])
    fn = getattr(mod, job["func"])
    inputs = {k: decode(v) for k, v in job["inputs"].items()}
    h = ConcH(sw, inputs)
    plt.reset()
    inp = builtins.input
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="symx-")
    os.chdir(tmp)
    out = {"status": "ok"}
    try:
        fn(h, **job["params"])
    except Skip as e:
        out = {"status": "skip", "why": str(e)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-4:]
        intarget = any(f.filename.startswith(REPO) for f in tb)
        out = {"status": "exception", "type": type(e).__name__, "msg": str(e)[:300],
               "where": where, "intarget": intarget}
    finally:
        builtins.input = inp
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    out["failed"] = h.failed
    out["observed"] = h.observed
    out["nchecks"] = h.nchecks
    return out


def main():
    # the package itself is always compiled from its current source
    import sigpropy  # noqa: F401
    import pandas  # noqa: F401
    import scipy.signal, scipy.interpolate, scipy.optimize, scipy.special  # noqa: F401, E401
    sys.pycache_prefix = tempfile.mkdtemp(prefix="symx-pyc-")
    import swprocess as sw
    shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
    assert os.path.abspath(sw.__file__).startswith(os.path.abspath(REPO)), sw.__file__
    if len(sys.argv) > 1:
        job = json.load(open(sys.argv[1]))
        r = run_job(sw, job)
        print(json.dumps(r, indent=1))
        print("inputs:", json.dumps(job["inputs"]))
        bad = bool(r["failed"]) or r["status"] == "exception"
        print("REPRODUCED" if bad else "not reproduced")
        sys.exit(1 if bad else 0)
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    out.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        job = json.loads(line)
        try:
            r = run_job(sw, job)
        except BaseException as e:
            r = {"status": "error", "msg": f"{type(e).__name__}: {e}"[:400], "failed": [],
                 "observed": {}, "nchecks": 0}
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
