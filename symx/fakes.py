"""Recording stand-ins for matplotlib objects, shared by both backends.

They keep exactly what the code under test hands over and do no arithmetic.
"""


class Artist:
    def __init__(self, args=(), kwargs=None):
        self.args = args
        self.kwargs = dict(kwargs or {})
        self.visible = True
        self.rasterized = False

    def set_visible(self, v):
        self.visible = v

    def set_rasterized(self, v):
        self.rasterized = v

    def __getattr__(self, name):
        # a set of contours is one artist since matplotlib 3.8, its parts are no longer listed since 3.10
        if name.startswith("__") or name in ("_is_sarr", "collections"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Line:
    def __init__(self, xs, ys, kwargs):
        self.xs = xs
        self.ys = ys
        self.kwargs = kwargs
        self.label = kwargs.get("label")

    def get_label(self):
        return self.label

    def get_xdata(self):
        return self.xs

    def get_ydata(self):
        return self.ys

    def __getattr__(self, name):
        if name.startswith("__") or name == "_is_sarr":
            raise AttributeError(name)
        return lambda *a, **k: None


class FakeAx:
    """One Axes: recorded lines, contours, error bars and limits."""

    def __init__(self, xlim=(0.0, 1.0), ylim=(0.0, 1.0)):
        self.lines = []
        self.all_lines = []
        self.contours = []
        self.errorbars = []
        self.texts = []
        self.calls = []
        self.xlim, self.ylim = xlim, ylim
        self.xscale = self.yscale = "linear"
        self.xlabel = self.ylabel = ""
        self.transAxes = "axes"
        self.nclear = 0
        self.figure = None

    def plot(self, *args, **kwargs):
        args = list(args)
        out = []
        while args:
            if len(args) >= 2 and not isinstance(args[1], str):
                xs, ys = args[0], args[1]
                args = args[2:]
            else:
                xs, ys = None, args[0]
                args = args[1:]
            said = dict(kwargs)
            if args and isinstance(args[0], str):
                fmt, args = args[0], args[1:]
                # a format that names a marker and no line draws no line
                if "linestyle" not in said and "ls" not in said and "-" not in fmt and ":" not in fmt \
                        and any(c in fmt for c in ".,ov^<>12348spP*hH+xXDd|_"):
                    said["linestyle"] = "None"
            ln = Line(_freeze(xs), _freeze(ys), said)
            self.lines.append(ln)
            self.all_lines.append(ln)
            out.append(ln)
        return out

    semilogx = semilogy = loglog = plot

    def scatter(self, xs, ys, *a, **kwargs):
        return self.plot(xs, ys, **kwargs)[0]

    def contourf(self, *args, **kwargs):
        a = Artist(tuple(_freeze(x) for x in args), {k: _freeze(v) if k == "levels" else v for k, v in kwargs.items()})
        self.contours.append(a)
        return a

    pcolormesh = contour = contourf

    def errorbar(self, xx, mean, yerr=None, **kwargs):
        a = Artist((_freeze(xx), _freeze(mean), _freeze(yerr)), kwargs)
        self.errorbars.append(a)
        return a

    def text(self, x, y, s, *a, **k):
        t = Artist((x, y, s), k)
        self.texts.append(t)
        return t

    def clear(self):
        self.nclear += 1
        self.lines = []
        self.contours = []
        self.errorbars = []

    cla = clear

    def get_legend_handles_labels(self):
        # as matplotlib: handles and labels of labelled lines
        hl = [(ln, ln.label) for ln in self.lines
              if ln.label is not None and not str(ln.label).startswith("_")]
        return [x for x, _ in hl], [y for _, y in hl]

    def _lim(self, cur, a, k, lo, hi):
        cur = list(cur)
        if len(a) == 1 and a[0] is not None and hasattr(a[0], "__len__"):
            a = tuple(a[0])
        for i, v in enumerate(a[:2]):
            if v is not None:
                cur[i] = v
        for names, i in (((lo, "left", "bottom"), 0), ((hi, "right", "top"), 1)):
            for n in names:
                if n in k and k[n] is not None:
                    cur[i] = k[n]
        return tuple(cur)

    def set_xlim(self, *a, **k):
        self.xlim = self._lim(self.xlim, a, k, "xmin", "xmax")
        return self.xlim

    def set_ylim(self, *a, **k):
        self.ylim = self._lim(self.ylim, a, k, "ymin", "ymax")
        return self.ylim

    def get_xlim(self):
        return self.xlim

    def get_ylim(self):
        return self.ylim

    def set_xscale(self, s, **k):
        self.xscale = s

    def set_yscale(self, s, **k):
        self.yscale = s

    def get_xscale(self):
        return self.xscale

    def get_yscale(self):
        return self.yscale

    def set_xlabel(self, s, **k):
        self.xlabel = s

    def set_ylabel(self, s, **k):
        self.ylabel = s

    def get_xlabel(self):
        return self.xlabel

    def get_ylabel(self):
        return self.ylabel

    def set(self, **k):
        for n, v in k.items():
            getattr(self, "set_" + n)(v)

    def __getattr__(self, name):
        if name.startswith("__") or name == "_is_sarr":
            raise AttributeError(name)

        def rec(*a, **k):
            self.calls.append((name, a, k))
            return Artist(a, k)
        return rec


class FakeCanvas:
    def __init__(self, fig):
        self.fig = fig
        self.handlers = {}
        self.n = 0

    def mpl_connect(self, name, f):
        self.n += 1
        self.handlers[self.n] = f
        return self.n

    def mpl_disconnect(self, i):
        self.handlers.pop(i, None)

    def draw(self):
        pass

    draw_idle = flush_events = draw


class Event:
    def __init__(self, inaxes):
        self.inaxes = inaxes


class FakeFig:
    """One Figure; `clicks` scripts what ginput returns."""

    def __init__(self, axes=()):
        self.axes = list(axes)
        for ax in self.axes:
            ax.figure = self
        self.canvas = FakeCanvas(self)
        self.colorbars = []
        self.clicks = None         # callable(fig, n) -> list of (ax, x, y)

    def colorbar(self, *a, **k):
        c = Artist(a, k)
        self.colorbars.append(c)
        return c

    def ginput(self, n=1, timeout=30, **k):
        if n == 0:
            return []
        pts = self.clicks(self, n)
        for ax, _, _ in pts:
            for f in list(self.canvas.handlers.values()):
                f(Event(ax))
        return [(x, y) for _, x, y in pts]

    def get_axes(self):
        return list(self.axes)

    def __getattr__(self, name):
        if name.startswith("__") or name == "_is_sarr":
            raise AttributeError(name)
        return lambda *a, **k: None


def _freeze(x):
    """Snapshot of plotted data (the caller may reuse its buffers)."""
    if x is None:
        return None
    if hasattr(x, "copy") and not isinstance(x, (dict, list)):
        return x.copy()
    if isinstance(x, list):
        return list(x)
    return x


class Plt:
    """matplotlib.pyplot as far as the package uses it."""

    def __init__(self, mkarray):
        self._mkarray = mkarray
        self.figs = []
        self.ginput_script = None           # callable() -> list of (x, y)
        self.press_script = None            # callable(timeout) -> value
        self.on_fig = None
        self.presses = []

    def reset(self):
        self.figs = []
        self.ginput_script = self.press_script = self.on_fig = None
        self.presses = []

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        axs = [FakeAx() for _ in range(nrows * ncols)]
        fig = FakeFig(axs)
        self.figs.append(fig)
        if self.on_fig is not None:
            self.on_fig(fig)
        if len(axs) == 1 and squeeze:
            return fig, axs[0]
        return fig, self._mkarray(axs, nrows, ncols, squeeze)

    def figure(self, *a, **k):
        fig = FakeFig([])
        self.figs.append(fig)
        return fig

    def ginput(self, n=1, timeout=30, **k):
        vals = self.ginput_script()
        # a user may take any time: a session with a time limit ends before the last click
        return vals[:n] if n > 0 else vals[:-1] if timeout > 0 and len(vals) > 1 else vals

    def waitforbuttonpress(self, timeout=-1):
        r = self.press_script(timeout)
        self.presses.append((timeout, r))
        return r

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Artist(a, k)
