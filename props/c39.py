"""C39 plotting peaks and statistics."""
from props import pk

BOUNDS = ("1..3 peaks of any values, missing or rejected, any mask, on 1..2 pairs of axes; 1..3 members with formatting for "
          "all or each; new and given axes")

LABELS = {"frequency": ("Frequency (Hz)", "log"), "wavelength": ("Wavelength (m)", "log"),
          "velocity": ("Velocity (m/s)", "linear"), "slowness": ("Slowness (s/m)", "log"),
          "azimuth": ("Azimuth (deg)", "linear")}
PAIRS = [("frequency", "velocity"), ("wavelength", "velocity"), ("frequency", "slowness"), ("wavelength", "slowness"),
         ("frequency", "azimuth"), ("wavenumber", "velocity")]


def _peaks(h, k, ident="a", tag="", gone=True):
    f, v = pk.values(h, k, tag)
    az = [h.real(f"z{tag}{i}", 0, 360) for i in range(k)]
    state = [h.choice(f"g{tag}{i}", ["here", "missing", "rejected"]) if gone else "here" for i in range(k)]
    vv = [pk.NAN if g == "missing" else x for g, x in zip(state, v)]
    p = h.sw.Peaks(f, vv, identifier=ident, azimuth=az)
    pk.drop(h, p, h.np.array([g == "rejected" for g in state]))
    return p, f, v, az, [g == "here" for g in state]


def _pts(h, ln, xt, yt, f, v, az, keep, label):
    one = lambda t, i: az[i] if t == "azimuth" else pk.amount(h, t, f[i], v[i])  # noqa: E731
    idx = [i for i, k in enumerate(keep) if k]
    h.check_eq(h.tolist(ln.get_xdata()), [one(xt, i) for i in idx], label + ": abscissae", 1e-6)
    h.check_eq(h.tolist(ln.get_ydata()), [one(yt, i) for i in idx], label + ": ordinates", 1e-6)


def _axes(h, ax, xt, yt):
    for t, lab, sc in ((xt, ax.get_xlabel(), ax.get_xscale()), (yt, ax.get_ylabel(), ax.get_yscale())):
        if t in LABELS:
            h.check((lab, sc) == LABELS[t], "axes are labelled and scaled for the quantity shown")


def single(h, k=2, two=False, masked=False):
    p, f, v, az, keep = _peaks(h, k, gone=not masked)
    pair = h.choice("pair", PAIRS)
    pairs = [pair] + ([h.choice("pair2", PAIRS[:4])] if two else [])
    kw = h.choice("kw", [None, {"color": "r", "label": "mine"}])
    given = None if kw is None else dict(kw)
    args = {"plot_kwargs": given}
    if masked:
        keep = [bool(h.flag(f"m{i}")) for i in range(k)]
        args["mask"] = h.np.array(keep)
    if two or h.flag("list"):
        xt, yt = [a for a, _ in pairs], [b for _, b in pairs]
    else:
        xt, yt = pair
    fig, ax = p.plot(xtype=xt, ytype=yt, **args)
    h.check(len(ax) == len(pairs) and all([a is b for a, b in zip(fig.axes, ax)]), "one new axes per pair")
    for a, (s, t) in zip(ax, pairs):
        h.check(len(a.lines) == 1, "the peaks are drawn once")
        _pts(h, a.lines[0], s, t, f, v, az, keep, "exactly the peaks left (or those of the mask) are drawn")
        _axes(h, a, s, t)
        want = {"label": "a", **(kw or {})}
        h.check(all([a.lines[0].kwargs.get(n) == w for n, w in want.items()]), "formatting given is used")
        h.check(a.lines[0].kwargs.get("linestyle") == "" and a.lines[0].kwargs.get("marker") == "o", "peaks are markers")
    h.check(given == kw, "formatting given is left unchanged")


NAMES = ["x", "y", "x", "z"] + [f"l{i}" for i in range(60)]


def suite(h, n=2, two=False, new=True, kw="none", three=False):
    ms = [_peaks(h, 1 if n > 2 else 2, f"id{i}", str(i), gone=((n == 2 and i == 1) or n == 1) and kw != "mask") for i in range(n)]
    s = h.sw.PeaksSuite.from_peaks([m[0] for m in ms])
    pairs = [h.choice("pair", PAIRS[:3])] + ([("wavelength", "slowness")] if two else []) + ([("frequency", "azimuth")] if three else [])
    args = {}
    if kw == "all":
        args["plot_kwargs"] = {"color": "r", "label": "same", "marker": None}
    elif kw == "each":
        args["plot_kwargs"] = {"color": [f"C{i}" for i in range(n)], "label": tuple(NAMES[:n]), "marker": "+"}
    keeps = [m[4] for m in ms]
    if kw == "mask":
        keeps = [[bool(h.flag(f"m{i}_{j}")) for j in range(len(m[4]))] for i, m in enumerate(ms)]
        args["mask"] = [h.np.array(q) for q in keeps]
    xt, yt = ([a for a, _ in pairs], [b for _, b in pairs]) if two else pairs[0]
    if new:
        fig, ax = s.plot(xtype=xt, ytype=yt, **args)
        ax = list(ax)
    else:
        ax = [h.plt.subplots()[1] for _ in pairs]
        old = ax[0].plot([1.0], [1.0], label="y")[0]
        r = s.plot(xtype=xt, ytype=yt, ax=ax if two or h.flag("list") else ax[0], **args)
        h.check(r is None, "nothing is returned when axes are given")
        h.check(ax[0].lines[0] is old, "what is on the axes stays")
    for a, (p, q) in zip(ax, pairs):
        lines = a.lines if new else [x for x in a.lines if x is not old]
        h.check(len(lines) == n, "every member is drawn once on every axes")
        for i, (ln, m) in enumerate(zip(lines, ms)):
            _pts(h, ln, p, q, m[1], m[2], m[3], keeps[i], "member")
            if kw == "each":
                h.check(ln.kwargs["color"] == f"C{i}" and ln.kwargs["marker"] == "+", "each member has its own formatting")
            if kw == "all":
                h.check(ln.kwargs["color"] == "r" and ln.kwargs["marker"] is None, "formatting for all")
        _axes(h, a, p, q)
        labs = [ln.label for ln in lines if ln.label is not None]
        if kw == "all":
            h.check(labs == ["same"], "only one entry in the legend")
        elif kw == "each":
            want = NAMES[:n]
            h.check(lines[0].label == "x", "first label is shown")
            taken = {"x"} | (set() if new else {"y"}) if a is ax[0] else {"x"}
            for i in range(1, n):
                if want[i] == "y" and not new and a is not ax[0]:
                    continue        # shown on the first axes already: either will do
                h.check(lines[i].label == (None if want[i] in taken else want[i]), "labels are shown once")
                taken.add(want[i])
        elif kw != "mask":
            h.check(labs == [f"id{i}" for i in range(n)], "members are labelled by identifier")


def bad(h):
    p, f, v, az, keep = _peaks(h, 1, gone=False)
    q = h.sw.Peaks(f, v, identifier="b")
    s = h.sw.PeaksSuite.from_peaks([p, q])
    o = h.choice("o", [p, s])
    what = h.choice("what", ["attr", "noaz", "count", "type", "mask", "kw", "ax"])
    if what == "attr":
        h.check_raises(AttributeError, "unknown quantities are refused", o.plot, xtype=h.choice("xt", ["depth", "Frequency"]))
    elif what == "noaz":
        h.check_raises(AttributeError, "quantities without values are refused", (q if o is p else s).plot, ytype="azimuth")
    elif what == "count":
        h.check_raises(IndexError, "as many abscissae as ordinates", o.plot, xtype=["frequency", "wavelength"], ytype=["velocity"])
        h.check_raises(IndexError, "as many abscissae as ordinates", o.plot, xtype="frequency", ytype=["velocity", "slowness"])
    elif what == "type":
        h.check_raises(TypeError, "quantities are text", o.plot, xtype=h.choice("t", [3, None]))
    elif what == "mask":
        h.check_raises(IndexError, "one mask per member", s.plot, mask=[h.np.array([True])])
    elif what == "kw":
        h.check_raises(NotImplementedError, "formatting is text or one per member", s.plot, plot_kwargs={"markersize": 3})
    else:
        ax = h.plt.subplots()[1]
        h.check_raises(IndexError, "as many axes as pairs", s.plot, xtype=["frequency", "wavelength"],
                       ytype=["velocity", "velocity"], ax=ax)


def bars(h, m=2):
    ax = h.plt.subplots()[1]
    xx, mu, sd = [h.real(f"x{i}", 1, 99) for i in range(m)], [h.real(f"m{i}", 1, 99) for i in range(m)], [h.real(f"s{i}", 0, 9) for i in range(m)]
    kw = h.choice("kw", [None, {"color": "r"}, {"label": "stat", "capsize": 5}])
    given = None if kw is None else dict(kw)
    h.sw.PeaksSuite.plot_statistics(ax, h.np.array(xx), h.np.array(mu), h.np.array(sd), errorbar_kwargs=given)
    h.check(len(ax.errorbars) == 1, "statistics are drawn once")
    a, b, c = ax.errorbars[0].args
    h.check_eq([h.tolist(a), h.tolist(b), h.tolist(c)], [xx, mu, sd], "mean with one standard deviation at each position")
    h.check(given == kw and all([ax.errorbars[0].kwargs[n] == w for n, w in (kw or {}).items()]), "formatting given is used")


HARNESSES = [
    (single, [dict(), dict(two=True, k=1), dict(masked=True)], [dict(k=3), dict(two=True)]),
    (suite, [dict(n=13, kw="each"), dict(n=9, kw="each", two=True, three=True, new=False), dict(n=3, two=True, three=True), dict(), dict(new=False), dict(two=True, kw="each", n=3), dict(kw="all", two=True), dict(kw="mask", new=False),
             dict(kw="each", new=False, n=3), dict(n=1), dict(two=True, new=False), dict(two=True, kw="mask"), dict(two=True, kw="mask", new=False, n=3)],
     [dict(kw="all", n=3, new=False, two=True), dict(kw="each", n=4)]),
    (bad, [dict()]),
    (bars, [dict()], [dict(m=4)]),
]
