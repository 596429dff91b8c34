"""C38 resolution limits."""
from props import pk

BOUNDS = ("both limits of any value, on every pair of axes and quantity, 1..3 points of any value; drawn over any current view, "
          "linear or logarithmic")

XT = ["frequency", "wavelength"]
YT = ["velocity", "slowness", "wavenumber"]
AT = ["wavelength", "wavenumber"]


def _quantities(h, xt, yt, x, y):
    """frequency, velocity of the point shown at (x, y) with abscissa xt and ordinate yt."""
    if xt == "frequency":
        f = x
        v = {"velocity": lambda: y, "slowness": lambda: 1 / y, "wavenumber": lambda: 2 * h.np.pi * f / y}[yt]()
        return f, v
    v = y if yt == "velocity" else 1 / y
    return v / x, v


def _lim(h, at):
    lo, hi = {"wavelength": (1, 500), "wavenumber": (0.01, 6)}[at]
    return (h.real("lo", lo, hi), h.real("hi", lo, hi))


def calc(h, m=2):
    xt, yt, at = h.choice("xt", XT + ["velocity"]), h.choice("yt", YT + ["frequency"]), h.choice("at", AT + ["slowness", "frequency"])
    lim = _lim(h, at if at in AT else "wavelength")
    xs = h.np.array([h.real(f"x{i}", 1, 100) for i in range(m)])
    ys = h.np.array([h.real(f"y{i}", 1, 900) / (1 if yt == "velocity" else 1000) for i in range(m)])
    r, e = h.attempt(h.sw.PeaksSuite.calc_resolution_limits, xt, at, yt, list(lim), xs, ys)
    ok = at in AT and ((xt == "frequency" and yt in YT) or (xt == "wavelength" and yt in YT[:2]))
    if not ok:
        h.check(isinstance(e, NotImplementedError), "any other combination is refused with NotImplementedError")
        return
    if e is not None:
        raise e
    h.check(len(r) == 2, "one line per limit")
    for (a, b), want in zip(r, lim):
        a, b = h.tolist(a), h.tolist(b)
        h.check(len(a) == m and len(b) == m, "one point per position")
        for i in range(m):
            f, v = _quantities(h, xt, yt, a[i], b[i])
            got = pk.amount(h, at, f, v)
            h.check_eq(got, want, "every point of a limit line is at the limit", 1e-6)
        if xt == "frequency":
            h.check_eq(a, h.tolist(xs), "the line spans the frequencies given")
        else:
            h.check_eq(b, h.tolist(ys), "the line spans the ordinates given")


def draw(h, xt="frequency", yt="velocity", at="wavelength", log=False):
    ax = h.plt.subplots()[1]
    if log:
        ax.set_xlim(1.0, 100.0)
        ax.set_ylim(*((10.0, 1000.0) if yt == "velocity" else (0.001, 0.02)))
        ax.set_xscale("log")
        ax.set_yscale("log")
    else:
        x0, y0 = h.real("x0", 1, 50), h.real("y0", 1, 500)
        ax.set_xlim(x0, x0 + h.real("dx", 1, 50))
        ax.set_ylim(y0, y0 + h.real("dy", 1, 500))
    lim = _lim(h, at)
    kw = h.choice("kw", [None, {"color": "r"}, {"label": "mine", "linewidth": 2}])
    given = None if kw is None else dict(kw)
    h.sw.PeaksSuite.plot_resolution_limits(ax, xt, yt, at, lim, plot_kwargs=given)
    h.check(len(ax.lines) == 2, "both limits are drawn")
    for ln, want in zip(ax.lines, lim):
        a, b = h.tolist(ln.get_xdata()), h.tolist(ln.get_ydata())
        h.check(len(a) == len(b) and len(a) >= 2, "each limit is a line")
        for i in (0, len(a) // 2, len(a) - 1):
            f, v = _quantities(h, xt, yt, a[i], b[i])
            h.check_eq(pk.amount(h, at, f, v), want, "every point drawn is at the limit", 1e-6)
        s, lims = (a, ax.get_xlim()) if xt == "frequency" else (b, ax.get_ylim())
        h.check_eq([s[0], s[-1]], list(lims), "the line spans the view", 1e-6)
    lab = (kw or {}).get("label", "limit")
    h.check([ln.label for ln in ax.lines] == [lab, None], "only one entry in the legend")
    if kw and "color" in kw:
        h.check(all([ln.kwargs["color"] == "r" for ln in ax.lines]), "formatting given is used")
    h.check(given == kw, "formatting given is left unchanged")


def cannot(h):
    """A combination without limits only warns."""
    ax = h.plt.subplots()[1]
    ax.set_xlim(1.0, 50.0)
    ax.set_ylim(1.0, 50.0)
    xt, yt, at = h.choice("c", [("wavelength", "wavenumber", "wavelength"), ("frequency", "velocity", "slowness"),
                                ("velocity", "frequency", "wavelength"), ("frequency", "frequency", "wavenumber")])
    h.sw.PeaksSuite.plot_resolution_limits(ax, xt, yt, at, (1.0, 2.0))
    h.check(len(ax.lines) == 0, "nothing is drawn where there are no limits")


HARNESSES = [
    (calc, [dict()], [dict(m=3)]),
    (draw, [dict(xt="wavelength", log=True), dict(), dict(xt="wavelength", at="wavenumber"), dict(yt="slowness", log=True), dict(yt="wavenumber")],
     [dict(at="wavenumber"), dict(xt="wavelength", yt="slowness"), dict(log=True, at="wavenumber"), dict(xt="wavelength", yt="slowness", log=True, at="wavenumber")]),
    (cannot, [dict()]),
]
