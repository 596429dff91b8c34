"""C21 normalisation, peak picking and plotting of a dispersion image."""
BOUNDS = ("images of 2..3 velocities by 1..3 frequencies: any non-zero real power, or complex power of any "
          "magnitude in one of three directions, of a transform and of stacks of one and two; every history of 3 normalisations and 1 plot; every option of the plot")
MODES = ["none", "absolute-maximum", "frequency-maximum"]
UNITS = [1.0, 0.6 + 0.8j, -0.8 - 0.6j]


def _image(h, nv, nf, cplx, stacks=True, span=(0.25, 8)):
    mags = [[h.real(f"m{i}{j}", *span) for j in range(nf)] for i in range(nv)]
    if cplx:
        units = h.choice("units", [0, 1, 2])
        vals = [[m * UNITS[(units + i + j) % 3] for j, m in enumerate(r)] for i, r in enumerate(mags)]
    else:
        sg = -1.0 if h.flag("negative") else 1.0
        vals = [[m * (sg if (i + j) % 2 else 1.0) for j, m in enumerate(r)] for i, r in enumerate(mags)]
    fr, ve = [float(5 + j) for j in range(nf)], [100.0 + 50.0 * i for i in range(nv)]
    wt = h.mod("wavefieldtransforms")
    t = wt.PhaseShift(h.np.array(fr), h.np.array(ve), h.np.array(vals))
    made = h.choice("made", ["transform", "stack of one", "stack of two"]) if stacks else "transform"
    if made != "transform":
        e = wt.EmptyWavefieldTransform(h.np.array(fr), h.np.array(ve), h.np.zeros((nv, nf), dtype=complex))
        e.stack(t)
        if made == "stack of two":
            e.stack(wt.PhaseShift(h.np.array(fr), h.np.array(ve), h.np.array(vals)))
        t = e
    return t, mags, fr, ve


def _expected(h, mags, by, got, label):
    nv, nf = len(mags), len(mags[0])
    every = [m for r in mags for m in r]
    for j in range(nf):
        col = [mags[i][j] for i in range(nv)]
        ref = [1.0] if by == "none" else (every if by == "absolute-maximum" else col)
        for i in range(nv):
            ok = []
            for m in ref:
                ok.append(h.all_([h.le(o, m, 0.0) for o in ref]
                                 + [h.eq(got[i][j] * m, mags[i][j], 1e-6)]))
            h.check(h.any_(ok), label)


def history(h, nv=2, nf=2, cplx=False, steps=2, span=(0.25, 8)):
    t, mags, fr, ve = _image(h, nv, nf, cplx, nv * nf <= 4, span)
    for s in range(steps):
        by = h.choice(f"by{s}", MODES)
        if s == 0 and h.flag("default") and by == "frequency-maximum":
            t.normalize()
        else:
            t.normalize(by=by)
        if s == 0:
            p = h.np.asarray(t.power)
            _expected(h, mags, by, [[p[i, j] for j in range(nf)] for i in range(nv)], "normalised power is the magnitude over the chosen maximum")
    got = [[h.np.asarray(t.power)[i, j] for j in range(nf)] for i in range(nv)]
    _expected(h, mags, by, got, "normalised power is the magnitude over the chosen maximum, whatever was applied before")
    h.check_eq(t.frequencies, fr, "frequencies unchanged")
    h.check_eq(t.velocities, ve, "velocities unchanged")


def peaks(h, nv=3, nf=1, cplx=True, norm=None):
    t, mags, fr, ve = _image(h, nv, nf, cplx)
    if norm is not None:
        t.normalize(by=norm)
    vs = h.tolist(t.find_peak_power(by="frequency-maximum") if h.flag("named") else t.find_peak_power())
    h.check(len(vs) == nf, "one peak per frequency")
    for j in range(nf):
        i = [q for q in range(nv) if bool(h.eq(vs[j], ve[q]))]
        h.check(len(i) == 1, "a peak is one of the trial velocities")
        for q in range(nv):
            h.check(h.le(mags[q][j], mags[i[0]][j] + 1e-9, 0.0), "the peak has the largest power of its frequency")


def refuse(h):
    t, *_ = _image(h, 2, 1, False, False)
    h.check_raises(NotImplementedError, "unknown peak searches are refused", t.find_peak_power, by="find_peaks")
    h.check_raises(KeyError, "unknown normalisations are refused", t.normalize, by="maximum")


def plot(h, nv=2, nf=2, norm="frequency-maximum"):
    """The image drawn is the normalised power; the peaks drawn are its peaks."""
    t, mags, fr, ve = _image(h, nv, nf, cplx=False, stacks=nf == 1)
    marks = h.choice("peaks", ["frequency-maximum", "none"])
    before = h.choice("before", [None] + [m for m in MODES if m != norm]) if nf == 1 else None
    if before is not None:
        t.normalize(before)
    kw = {} if norm == "frequency-maximum" and marks != "none" and h.flag("default") else \
        dict(normalization=norm, peaks=marks)
    fig, ax = t.plot(**kw)
    cs = ax.contours
    h.check(len(cs) == 1, "one image is drawn")
    x, y, z = cs[0].args[:3]
    h.check_eq(x, fr, "the horizontal axis shows frequency")
    h.check_eq(y, ve, "the vertical axis shows velocity")
    got = [[h.np.asarray(z)[i, j] for j in range(nf)] for i in range(nv)]
    _expected(h, mags, norm, got, "the image drawn is the normalised power")
    if marks == "none":
        h.check(len(ax.lines) == 0, "peaks are drawn only when asked for")
        return
    h.check(len(ax.lines) == 1, "the peaks are drawn once")
    h.check_eq(ax.lines[0].get_xdata(), fr, "peaks are drawn at their frequency")
    for j, v in enumerate(h.tolist(ax.lines[0].get_ydata())):
        i = [q for q in range(nv) if bool(h.eq(v, ve[q]))]
        for q in range(nv):
            h.check(h.le(mags[q][j], mags[i[0]][j] + 1e-9, 0.0), "peaks drawn have the largest power")


def options(h, nv=2, nf=2, span=(0.25, 8)):
    """Levels and bar span the image; what is asked for is used."""
    t, mags, fr, ve = _image(h, nv, nf, False, stacks=False, span=span)
    kw = dict(normalization=h.choice("norm", MODES), peaks=h.choice("peaks", ["frequency-maximum", "none"]))
    if h.flag("rasterize"):
        kw["rasterize"] = True
    if h.flag("style"):
        kw.update(peak_kwargs={"markersize": 4.0, "label": "p"}, colorbar_kwargs={"label": "c", "ticks": [0.0, 0.5]})
    styles = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}
    cax = None
    if h.flag("given"):
        fig, ax = h.plt.subplots()
        cax = h.plt.subplots()[1]
        h.check(t.plot(fig=fig, ax=ax, cax=cax, **kw) is None, "nothing is returned when axes are given")
    else:
        fig, ax = t.plot(**kw)
    h.check(len(ax.contours) == 1, "one image is drawn")
    cs = ax.contours[0]
    p = [h.np.asarray(t.power)[i, j] for i in range(nv) for j in range(nf)]
    levels = cs.args[3] if len(cs.args) > 3 else cs.kwargs.get("levels", 8)
    if not isinstance(levels, int):            # a number of levels leaves their span to matplotlib
        levels = h.tolist(levels)
        h.check(len(levels) > 2, "several levels are drawn")
        h.check(h.all_([h.le(levels[0], x, 0.0) for x in p]), "the levels reach down to the lowest power")
        h.check(h.all_([h.le(x, levels[-1], 1e-9) for x in p]), "the levels reach up to the largest power")
        h.check(h.any_([h.eq(x, levels[-1], 1e-9) for x in p]), "the levels end with the largest power")
        h.check(h.all_([h.lt(a, b, 0.0) for a, b in zip(levels, levels[1:])]), "the levels ascend")
    h.check(bool(cs.rasterized) == bool(kw.get("rasterize", False)), "the image is rasterised when asked for")
    h.check(len(fig.colorbars) == 1, "one bar is drawn")
    bar = fig.colorbars[0]
    had = dict(zip(("mappable", "cax", "ax"), bar.args), **bar.kwargs)
    h.check(had.get("mappable") is cs, "the bar is that of the image")
    h.check((had.get("cax") is cax) if cax is not None else (had.get("ax") is ax), "the bar is where it is asked for")
    if "colorbar_kwargs" in kw:
        h.check(bar.kwargs.get("label") == "c" and bar.kwargs.get("ticks") == [0.0, 0.5], "formatting given for the bar is used")
    h.check(len(ax.lines) == (1 if kw["peaks"] != "none" else 0), "peaks are drawn only when asked for")
    for ln in ax.lines:
        style = ln.kwargs.get("linestyle", ln.kwargs.get("ls", "-"))
        h.check(style in ("none", "None", "", " "), "peaks are not joined")
        if "peak_kwargs" in kw:
            h.check(ln.kwargs.get("markersize") == 4.0 and ln.label == "p", "formatting given for the peaks is used")
    h.check({k: dict(v) for k, v in kw.items() if isinstance(v, dict)} == styles, "formatting given is left unchanged")
    h.check("requency" in ax.get_xlabel() and "elocity" in ax.get_ylabel(), "the axes say which is which")


HARNESSES = [
    (options, [dict(), dict(nv=3, nf=1), dict(nf=1, span=(100, 5000)), dict(nf=1, span=(1e-4, 0.02))], [dict(nv=3)]),
    (history, [dict(), dict(cplx=True, nf=1, steps=3), dict(nv=1, nf=3), dict(nf=1, span=(100, 5000)), dict(nf=1, span=(1e-3, 0.02))],
     [dict(steps=3), dict(nv=3, nf=2), dict(cplx=True)]),
    (peaks, [dict(), dict(nf=2, nv=2), dict(norm="absolute-maximum"), dict(norm="frequency-maximum", cplx=False)],
     [dict(nf=2), dict(nv=5)]),
    (refuse, [dict()]),
    (plot, [dict(norm=m) for m in MODES] + [dict(norm=m, nf=1) for m in MODES], [dict(norm=m, nv=3) for m in MODES]),
]
