"""C40 interactive trimming."""
from props import pk

BOUNDS = ("1..3 members of 1..2 peaks at any frequency and velocity; every history of up to 3 boxes at any corners, on "
          "1..2 pairs of axes, with clicks on different axes or outside in between, and every sequence of up to 4 answers "
          "(continue, undo, quit, not understood)")


def _near(h, q, lims):
    for c in lims:
        h.require(h.any_([h.gap(q, c, 1e-6), h.gap(c, q, 1e-6)]))


def trim(h, k=2, n=1, boxes=2, pairs=(("frequency", "velocity"),), stray=False, replies=("0", "1", "2"), nre=2, fixed=False,
         limits=False):
    f, v = pk.values(h, k * n)
    if fixed:
        f, v = [2.0 + 3 * i for i in range(k * n)], [100.0 + 50 * i for i in range(k * n)]
    ps = [h.sw.Peaks(f[i * k:i * k + k], v[i * k:i * k + k], identifier=f"id{i}") for i in range(n)]
    s = h.sw.PeaksSuite.from_peaks(ps)
    state = {"boxes": 0, "log": [], "asked": 0, "stray": 0}
    scripted = []
    answers = [h.choice(f"r{i}", list(replies)) for i in range(nre)]
    rng = {"frequency": (0, 110), "velocity": (40, 1100), "wavelength": (0.4, 1100), "slowness": (0.0005, 0.025)}

    def clicks(fig, m):
        h.check(m == 2, "a box takes two clicks")
        b = state["boxes"]
        if stray and state["stray"] < 2:
            state["stray"] += 1
            kind = h.choice(f"stray{state['stray']}", ["outside", "two axes", "one", "fine"] if len(pairs) > 1 else ["outside", "one", "fine"])
            ax = fig.axes
            lo, hi = 0.0, 2000.0
            if kind == "outside":
                return [(None, lo, lo), (None, hi, hi)]
            if kind == "one":
                return [(ax[0], lo, lo), (None, hi, hi)]
            if kind == "two axes":
                return [(ax[0], lo, lo), (ax[1], hi, hi)]
        if b >= boxes or (b > 0 and scripted[-1] is None and state["asked"] == 0 and False):
            scripted.append(None)
            ax = fig.axes[-1]
            return [(ax, -5.0, -5.0), (ax, -4.0, -4.0)]
        state["boxes"] = b + 1
        a = h.choice(f"ax{b}", range(len(pairs)))
        xt, yt = pairs[a]
        c = [h.real(f"x{b}a", *rng[xt]), h.real(f"x{b}b", *rng[xt]), h.real(f"y{b}a", *rng[yt]), h.real(f"y{b}b", *rng[yt])]
        scripted.append((a, c))
        return [(fig.axes[a], c[0], c[2]), (fig.axes[a], c[1], c[3])]

    h.plt.on_fig = lambda fig: (setattr(fig, "clicks", clicks), [(a.set_xlim(0.5, 600.0 + i), a.set_ylim(0.25, 900.0 + i))
                                                                for i, a in enumerate(fig.axes)])
    h.answers(answers + ["0"])
    kw = {}
    if limits:
        kw["resolution_limits"] = ("wavelength", (2.0, 50.0))
    if len(pairs) == 1 and h.flag("text"):
        s.interactive_trimming(xtype=pairs[0][0], ytype=pairs[0][1], **kw)
    else:
        s.interactive_trimming(xtype=[a for a, _ in pairs], ytype=[b for _, b in pairs], **kw)

    # the same history on plain sets
    left = set(range(k * n))
    pending = set()
    it = iter(answers + ["0"])
    asked = 0
    done = False
    nclear = 0
    for step in scripted:
        h.check(not done, "trimming ends when asked to")
        inside = set()
        if step is not None:
            a, c = step
            xt, yt = pairs[a]
            for i in sorted(left):
                x, y = pk.amount(h, xt, f[i], v[i]), pk.amount(h, yt, f[i], v[i])
                _near(h, x, c[:2])
                _near(h, y, c[2:])
                ok = h.all_([h.any_([h.all_([h.lt(c[0], x), h.lt(x, c[1])]), h.all_([h.lt(c[1], x), h.lt(x, c[0])])]),
                             h.any_([h.all_([h.lt(c[2], y), h.lt(y, c[3])]), h.all_([h.lt(c[3], y), h.lt(y, c[2])])])])
                if bool(ok):
                    inside.add(i)
        if inside:
            pending |= inside
            continue
        while True:
            r = next(it)
            asked += 1
            if r in ("0", "1", "2"):
                break
        if r in ("0", "1"):
            left -= pending
        pending = set()
        done = r == "0"
        nclear += 2
    h.check(done, "trimming goes on until asked to quit")
    h.check(h.prompts() == asked, "the user is asked exactly when a box is empty, again if not understood")
    for i, p in enumerate(ps):
        idx = range(i * k, i * k + k)
        pk.check_valid(h, p, [f[j] for j in idx], [v[j] for j in idx], [j in left for j in idx],
                       "exactly the boxes confirmed are removed")
    fig = h.plt.figs[-1]
    for i, (ax, (xt, yt)) in enumerate(zip(fig.axes, pairs)):
        h.check(ax.get_xlim() == (0.5, 600.0 + i) and ax.get_ylim() == (0.25, 900.0 + i), "the view stays as it was")
        lines = [ln for ln in ax.lines if ln.kwargs.get("linestyle") == ""]
        h.check(len(lines) == n, "in the end every member is drawn once")
        for j, ln in enumerate(lines):
            idx = [q for q in range(j * k, j * k + k) if q in left]
            h.check_eq(h.tolist(ln.get_xdata()), [pk.amount(h, xt, f[q], v[q]) for q in idx], "the peaks left are drawn", 1e-6)
            h.check_eq(h.tolist(ln.get_ydata()), [pk.amount(h, yt, f[q], v[q]) for q in idx], "the peaks left are drawn", 1e-6)
        if limits:
            h.check(len([ln for ln in ax.lines if ln.kwargs.get("linestyle") == "--"]) == 2, "resolution limits are drawn")


W = (("wavelength", "velocity"),)
TWO = (("frequency", "velocity"), ("wavelength", "slowness"))
THREE = (("frequency", "velocity"), ("wavelength", "velocity"), ("frequency", "slowness"))
HARNESSES = [
    (trim, [dict(boxes=1, k=1, pairs=THREE, nre=1), dict(boxes=1, k=1, fixed=True, replies=("2", "x"), nre=5), dict(), dict(boxes=1, k=1, replies=("0", "1", "2", "3", "")), dict(boxes=2, k=1, pairs=TWO, limits=True),
            dict(boxes=1, k=1, pairs=TWO, stray=True, nre=1), dict(boxes=1, k=1, stray=True, nre=1), dict(boxes=2, k=1, n=2, nre=1, fixed=True),
            dict(boxes=1, k=2, pairs=W, nre=1), dict(boxes=3, k=1, fixed=True, nre=3),
            dict(boxes=2, k=1, n=3, fixed=True, nre=2)],
     [dict(boxes=3, k=2, fixed=True), dict(boxes=2, n=2, k=1), dict(boxes=3, k=1, nre=3), dict(boxes=2, k=2, pairs=W)]),
]
