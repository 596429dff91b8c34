"""C13 muting outside a signal window."""
BOUNDS = ("2..3 sensors of 5..8 samples with any values, steps 0.25, delays 0, negative (whole steps or not) and (after trimming) "
          "positive; window lines through any two points, including lines that leave the record; rectangular "
          "and tapered windows; two mutings one after the other")


def _line(h, nm, x1, x2, lo, hi):
    return ((x1, h.real(nm + "1", lo, hi)), (x2, h.real(nm + "2", lo, hi)))


def _at(line, x):
    (x1, t1), (x2, t2) = line
    return t1 + (t2 - t1) / (x2 - x1) * (x - x1)


def window(h, n=6, k=2, wide=False, delayed="no", both=True):
    dt = 0.25
    delay = {"no": 0.0, "neg": -0.5, "late": 0.0, "odd": -0.4375, "small": -0.0625}[delayed]
    xs = [2.0, 4.0, 8.0][:k] if k < 4 else [1.25 + 0.5 * i for i in range(k)]
    amps = [h.reals(f"a{i}_", n, -1e6, 1e6) if k < 4 else [1.0] * n for i in range(k)]
    arr = h.mk_array(amps, dt, xs, delay=delay)
    first = 0
    if delayed == "late":
        arr.trim(2 * dt, (n - 1) * dt)
        first = 2
        delay = 2 * dt
    m = n - first
    t_lo, t_hi = delay, delay + (m - 1) * dt
    pad = 3 * dt if wide else 0.0
    which = h.choice("which", ["both", "start", "end"]) if both is True else both
    start = _line(h, "s", 1.0, 5.0, t_lo - pad, t_hi + pad) if which != "end" else None
    end = _line(h, "e", 2.0, 10.0, t_lo - pad, t_hi + pad) if which != "start" else None
    for x in xs:
        if not wide:
            for ln in (start, end):
                if ln is not None:
                    h.require(h.all_([h.le(t_lo, _at(ln, x)), h.le(_at(ln, x), t_hi)]))
        if start is not None and end is not None:
            h.require(h.gap(_at(start, x), _at(end, x), dt))
    before = [list(h.tolist(c.amplitude)) for c in arr.sensors]
    arr.mute(signal_start=start, signal_end=end, window_kwargs={"alpha": 0.0})
    for c, x, old in zip(arr.sensors, xs, before):
        new = h.tolist(c.amplitude)
        h.check(len(new) == m, "length unchanged")
        h.check_eq(c.delay, delay, "delay unchanged")
        for j in range(m):
            t = delay + j * dt
            zero, kept = [], []
            if start is not None:
                ts = _at(start, x)
                zero.append(h.gap(t + dt, ts, 0.0))
                kept.append(h.gap(ts, t, 1e-6))
            if end is not None:
                te = _at(end, x)
                zero.append(h.gap(te, t, 1e-6))
                kept.append(h.gap(t + dt, te, 1e-6))
            h.check(h.implies(h.any_(zero), h.eq(new[j], 0.0)), "samples outside the window are zero")
            h.check(h.implies(h.all_(kept), h.eq(new[j], old[j])),
                    "with a rectangular window samples inside are unchanged")


def taper(h, n=8):
    """The default window only tapers: never grows, flips or moves samples."""
    dt = 0.25
    amps = [h.reals("a", n, -10, 10), h.reals("b", n, -10, 10)]
    arr = h.mk_array(amps, dt, [2.0, 4.0])
    i0, i1 = h.choice("i0", [0, 1, 2]), h.choice("i1", [5, 7])
    kw = h.choice("kw", [None, {"alpha": 0.2}, {"alpha": 1.0}])
    t0, t1 = i0 * dt + dt / 2, i1 * dt + dt / 2
    arr.mute(signal_start=((0.0, t0), (9.0, t0)), signal_end=((0.0, t1), (9.0, t1)),
             window_kwargs=kw)
    for c, old in zip(arr.sensors, amps):
        new = h.tolist(c.amplitude)
        for j in range(n):
            if j < i0 or j > i1:
                h.check_eq(new[j], 0.0, "samples outside the tapered window are zero")
            else:
                ok = h.any_([h.all_([h.le(0, old[j], 0), h.le(0, new[j], 1e-9), h.le(new[j], old[j], 1e-9)]),
                             h.all_([h.le(old[j], 0, 0), h.le(new[j], 0, 1e-9), h.le(old[j], new[j], 1e-9)])])
                h.check(ok, "samples inside are scaled by a factor between zero and one")
        mid = (i0 + i1) // 2
        if kw != {"alpha": 1.0}:
            h.check_eq(new[mid], old[mid], "the middle of the window is unchanged by the default taper")
    # both sensors get the same treatment for horizontal lines
    for j in range(n):
        h.check_eq(arr.sensors[0].amplitude[j] * amps[1][j], arr.sensors[1].amplitude[j] * amps[0][j],
                   "horizontal lines treat all sensors alike", 1e-6)


def interactive(h):
    """Picked points define the window whatever axis shows time."""
    n, dt = 6, 0.25
    amps = [h.reals("a", n, -10, 10), h.reals("b", n, -10, 10)]
    tax = h.choice("tax", ["y", "x"])
    loc = h.choice("loc", ["both", "before", "after"])
    for a in amps:
        h.require(h.any_([h.lt(1.0, a[0]), h.lt(a[1], -1.0)]))
    ts = [h.real("s1", 0.1, 0.4), h.real("s2", 0.1, 0.4), h.real("e1", 0.8, 1.2), h.real("e2", 0.8, 1.2)]
    ds = [1.0, 6.0, 0.0, 5.0]
    pts = list(zip(ds, ts))
    if loc == "before":
        pts = pts[:2]
    elif loc == "after":
        pts = pts[2:]
    clicks = iter([(d, t) if tax == "y" else (t, d) for d, t in pts])
    h.plt.ginput_script = lambda: [next(clicks)]
    h.plt.press_script = lambda timeout: None if timeout > 0 else True
    arr = h.mk_array(amps, dt, [2.0, 4.0])
    ref = h.mk_array(amps, dt, [2.0, 4.0])
    kw = {"waterfall_kwargs": {"time_ax": tax}} if tax == "x" or h.flag("explicit") else {}
    got = arr.interactive_mute(mute_location=loc, window_kwargs={"alpha": 0.0}, **kw)
    want_s = (pts[0], pts[1]) if loc != "after" else None
    want_e = (pts[-2], pts[-1]) if loc != "before" else None
    for g, w, what in ((got[0], want_s, "start"), (got[1], want_e, "end")):
        if w is None:
            h.check(g is None, f"no {what} line when not requested")
        else:
            h.check_eq([list(q) for q in g], [list(q) for q in w], f"the {what} line is the picked (distance, time) pair")
    ref.mute(signal_start=want_s, signal_end=want_e, window_kwargs={"alpha": 0.0})
    h.check_eq(arr.timeseriesmatrix(), ref.timeseriesmatrix(), "interactive muting equals muting with the picked lines")


def again(h, n=10):
    """A second muting works on what the first one left, with its own lines and window."""
    dt = 0.25
    amps = [h.reals("a", n, -10, 10), h.reals("b", n, -10, 10)]
    arr = h.mk_array(amps, dt, [2.0, 4.0])
    mk = lambda i, d: ((0.0, i * dt + dt / 2), (9.0, i * dt + dt / 2 + d))  # noqa: E731
    lines = [(mk(0, 0.0), mk(n - 2, 0.0)), (mk(1, dt), None), (None, mk(n - 3, -dt)), (mk(1, 0.0), mk(n - 3, 0.0))]
    kws = [{"alpha": 0.0}, None, {"alpha": 0.5}]
    for r in range(2):
        w, kw = h.choice(f"lines{r}", range(len(lines))), h.choice(f"kw{r}", range(len(kws)))
        s, e = lines[w]
        fresh = h.mk_array([h.tolist(c.amplitude) for c in arr.sensors], dt, [2.0, 4.0])
        d = None if kws[kw] is None else dict(kws[kw])
        arr.mute(signal_start=s, signal_end=e, window_kwargs=d)
        h.check(d == kws[kw], "the window handed in stays")
        fresh.mute(signal_start=s, signal_end=e, window_kwargs=kws[kw])
        h.check_eq(arr.timeseriesmatrix(), fresh.timeseriesmatrix(), "muting does not depend on what was muted before", 1e-9)
        if kws[kw] is None and s is not None and e is not None:
            # the default window is tapered at both ends
            i0 = int(s[0][1] / dt)
            for c in arr.sensors:
                h.check_eq(c.amplitude[i0], 0.0, "the default window starts from zero")


HARNESSES = [
    (again, [dict()]),
    (window, [dict(), dict(delayed="neg"), dict(delayed="late", n=8), dict(wide=True, both="both"),
              dict(wide=True, both="start"), dict(wide=True, both="end", delayed="neg"), dict(delayed="odd", both="start"), dict(delayed="small", both="end"), dict(delayed="odd", both="both", n=5),
              dict(k=16, n=7, both="start"), dict(k=10, n=7, both="end", delayed="odd")],
     [dict(k=3), dict(wide=True, delayed="late", n=8)]),
    (taper, [dict()]),
    (interactive, [dict()]),
]
