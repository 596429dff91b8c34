"""C46 drawings of records, arrays and images."""

BOUNDS = ("1..3 (and 26) receivers of 2..3 samples of any values, positions, steps, times before the trigger and source positions on either side; time on either axis; any "
          "scale; new and given axes; 1..3 frequencies")


def _array(h, k, n, tag="", equal=False, right=False, late=False, level=1.0):
    amps = [h.reals(f"a{tag}{i}_", n, -10, 10) for i in range(k)]
    for a in amps:
        h.require(h.any_([h.gap(0.5, v, 0) for v in a]))
    amps = [[v * level for v in a] for a in amps]
    dt = h.real(f"dt{tag}", 0.001, 1)
    xs = [h.real(f"x{tag}0", -50, 50)]
    for i in range(1, k):
        xs.append(xs[-1] + (2.0 if equal else h.real(f"gap{tag}{i}", 0.5, 10)))
    return amps, dt, xs, h.mk_array(amps, dt, xs, src=((xs[-1] + h.real(f"src{tag}", 5, 60)) if right else h.real(f"src{tag}", -200, -60), 0.0, 0.0),
                                    **({"delay": h.real("late", -1, 0)} if late else {}))


def _top(h, vals):
    m = None
    for v in vals:
        v = h.ite(h.le(0.0, v), v, 0 - v)
        m = v if m is None else h.ite(h.le(m, v), v, m)
    return m


def waterfall(h, k=2, n=2, tax="y", norm="each", given=False, scaled=True, shift=False, late=False, level=1.0):
    amps, dt, xs, arr = _array(h, k, n, late=late, level=level)
    t0 = arr.sensors[0].delay if late else 0.0
    kw = {"amplitude_detrend": False, "amplitude_normalization": norm}
    if tax != "y" or h.flag("explicit"):
        kw["time_ax"] = tax
    if scaled:
        kw["amplitude_scale"] = sc = h.real("scale", 0, 5)
    else:
        sc = (xs[-1] - xs[0]) / (k - 1) / 2
    if shift:
        kw["position_normalization"] = True
    style = h.choice("style", [None, {"color": "k", "label": "shot"}])
    mine = None if style is None else dict(style)
    if style is not None:
        kw["plot_kwargs"] = mine
    if given:
        ax = h.plt.subplots()[1]
        old = ax.plot([0.0], [0.0], label="old")[0]
        r = arr.waterfall(ax=ax, **kw)
        h.check(r is None, "nothing is returned when axes are given")
        h.check(ax.lines[0] is old, "what is on the axes stays")
        lines = ax.lines[1:]
    else:
        fig, ax = arr.waterfall(**kw)
        h.check(fig.axes[0] is ax, "new axes are returned with their figure")
        lines = ax.lines
    h.check(len(lines) == k, "every receiver is drawn once")
    pos = [x - xs[0] for x in xs] if shift else xs
    raw = [[v / level for v in a] for a in amps]
    top = _top(h, [v for a in raw for v in a])
    for i, ln in enumerate(lines):
        t, d = (ln.get_xdata(), ln.get_ydata()) if tax == "x" else (ln.get_ydata(), ln.get_xdata())
        h.check_eq(h.tolist(t), [t0 + dt * j for j in range(n)], "records are drawn over their time")
        m = {"none": 1.0 / level, "all": top, "each": _top(h, raw[i])}[norm]
        h.check_eq([(v - pos[i]) * m for v in h.tolist(d)], [a * sc for a in raw[i]], "records swing around their receiver", 1e-6)
    tl, dl = (ax.get_xlim(), ax.get_ylim()) if tax == "x" else (ax.get_ylim(), ax.get_xlim())
    tmax = t0 + dt * (n - 1)
    h.check_eq(list(tl), [t0, tmax] if tax == "x" else [tmax, t0], "the whole record is in view, time runs down or to the right")
    h.check(h.all_([h.lt(dl[0], pos[0], 0), h.lt(pos[-1], dl[1], 0)]), "all receivers are in view")
    tlab, dlab = (ax.get_xlabel(), ax.get_ylabel()) if tax == "x" else (ax.get_ylabel(), ax.get_xlabel())
    h.check("ime" in tlab and "istance" in dlab, "the axes say which is which")
    h.check(mine == style, "formatting given is left unchanged")
    if style:
        h.check(all([ln.kwargs["color"] == "k" for ln in lines]), "formatting given is used")
        h.check([ln.label for ln in lines] == ["shot"] + [None] * (k - 1), "only one entry in the legend")
    h.check_eq([h.tolist(s.amplitude) for s in arr.sensors], amps, "drawing leaves the records unchanged")
    h.check_eq(arr.position(), xs, "drawing leaves the positions unchanged")


def bad(h):
    _, _, _, arr = _array(h, 2, 2)
    h.check_raises(ValueError, "time is on the x or the y axis", arr.waterfall, time_ax=h.choice("t", ["z", "time", None, "xy"]))


def schematic(h, k=3, given=False, equal=False):
    amps, dt, xs, arr = _array(h, k, 2, equal=equal)
    kw = h.choice("kw", [{}, {"sensor_kwargs": {"color": "g"}, "source_kwargs": {"color": "m", "label": "shot"}}])
    ax = None
    if given:
        ax = h.plt.subplots()[1]
        h.check(arr.plot(ax=ax, **kw) is None, "nothing is returned when axes are given")
    else:
        fig, ax = arr.plot(**kw)
    h.check(len(ax.lines) == 2, "receivers and source are drawn")
    by = {}
    for ln in ax.lines:
        by["sensor" if ln.kwargs.get("marker") == "^" else "source"] = ln
    h.check(len(by) == 2, "receivers and source are told apart")
    h.check("istance" in ax.get_xlabel(), "the axis says what it shows")
    h.check_eq(h.tolist(by["sensor"].get_xdata()), xs, "receivers are drawn where they are")
    h.check_eq(h.tolist(by["sensor"].get_ydata()), [0.0] * k, "receivers are drawn where they are (y)")
    h.check_eq([by["source"].get_xdata(), by["source"].get_ydata()], [arr.source.x, arr.source.y], "the source is drawn where it is")
    if kw:
        h.check(by["sensor"].kwargs["color"] == "g" and by["source"].kwargs["color"] == "m" and by["source"].label == "shot",
                "formatting given is used")
    txt = [str(t.args[2]) for t in ax.texts]
    h.check(any([str(k) in s for s in txt]), "the number of receivers is told")
    if equal:
        h.check(any(["2.0 m" in s for s in txt]), "the spacing is told")
    lo, hi = ax.get_ylim()
    h.check(h.all_([h.lt(lo, 0.0), h.lt(0.0, hi)]), "the array is in view")


def _image(h, nf=2, nv=2):
    fr, ve = [5.0 + i for i in range(nf)], [100.0 + 50 * i for i in range(nv)]
    p = h.np.array([[h.real(f"p{i}_{j}", 0.1, 10) for j in range(nf)] for i in range(nv)])
    return h.mod("wavefieldtransforms").EmptyWavefieldTransform(h.np.array(fr), h.np.array(ve), p)


def snr(h, n=2, given=False):
    t = _image(h)
    if h.flag("none"):
        ax = h.plt.subplots()[1]
        h.check(t.plot_snr(ax=ax) is None and len(ax.lines) == 0, "nothing is drawn without a ratio")
        return
    f, s = [5.0 + 2 * i for i in range(n)], h.reals("s", n, 0, 1000000)
    t.snr, t.snr_frequencies = h.np.array(s), h.np.array(f)
    kw = h.choice("kw", [None, {"color": "k"}])
    if given:
        ax = h.plt.subplots()[1]
        h.check(t.plot_snr(ax=ax, plot_kwargs=kw) is None, "nothing is returned when axes are given")
    else:
        fig, ax = t.plot_snr(plot_kwargs=kw)
    h.check(len(ax.lines) == 1, "the ratio is drawn once")
    h.check_eq(h.tolist(ax.lines[0].get_xdata()), f, "over its own frequencies")
    h.check_eq(h.tolist(ax.lines[0].get_ydata()), s, "the ratio itself is drawn")
    h.check("requency" in ax.get_xlabel() and "oise" in ax.get_ylabel(), "the axes say which is which")
    if kw:
        h.check(ax.lines[0].kwargs.get("color") == "k", "formatting given is used")


def nearfield(h, k=2, right=False):
    """The near-field line is at the wavelength asked for."""
    _, _, xs, arr = _array(h, k, 2, right=right)
    t = _image(h)
    t.array = arr
    fig, ax = h.plt.subplots()
    ax.set_xlim(1.0, h.real("fmax", 10, 100))
    ax.set_ylim(10.0, h.real("vmax", 100, 900))
    view = ax.get_ylim()
    n = h.choice("n", [1, 2])
    t.plot(fig=fig, ax=ax, cax=h.plt.subplots()[1], peaks="none", nearfield=n)
    h.check(len(ax.lines) == 1, "the line is drawn once")
    fs, vs = h.tolist(ax.lines[0].get_xdata()), h.tolist(ax.lines[0].get_ydata())
    off = [arr.source.x - x if right else x - arr.source.x for x in xs]
    c = off[0]
    for o in off[1:]:
        c = c + o
    for i in (0, len(fs) // 2, len(fs) - 1):
        h.check_eq(vs[i] * n * k, c * fs[i], "on the line the array's centre is the number of wavelengths asked for away", 1e-6)
    h.check_eq([fs[0], fs[-1]], list(ax.get_xlim()), "the line spans the frequencies in view")
    h.check_eq(list(ax.get_ylim()), list(view), "the view stays")
    h.check_raises(ValueError, "axes need their figure", t.plot, ax=ax)


HARNESSES = [
    (waterfall, [dict(), dict(tax="x", norm="none", given=True), dict(norm="all", scaled=False), dict(k=3, scaled=False, shift=True, norm="none"),
                 dict(tax="x", norm="none", n=3), dict(norm="none", n=3, late=True), dict(k=26, norm="none"),
                 dict(norm="each", level=2.0**-40), dict(norm="all", level=2.0**-40), dict(norm="each", level=2.0**30)], [dict(k=3, n=3), dict(k=3, norm="all", given=True, tax="x")]),
    (bad, [dict()]),
    (schematic, [dict(), dict(given=True, equal=True), dict(k=1 + 1)], [dict(k=4)]),
    (snr, [dict(), dict(given=True, n=3)]),
    (nearfield, [dict(), dict(right=True)], [dict(k=3)]),
]
