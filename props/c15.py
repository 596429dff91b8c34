"""C15 first arrival picking."""
BOUNDS = "1..2 sensors of 3..5 samples with any values, and of 12 and 28 samples of which one or two vary, any threshold in [0.01, 0.9] (0.3 for 12 and 28 samples), any delay"


def auto(h, k=1, n=4, free=None, level=1.0):
    """The leading mean is that of the first ten samples, or of all when there are fewer."""
    if free is None:
        amps = [h.reals(f"a{i}_", n, -10, 10) for i in range(k)]
    else:
        amps = [[0.0] * n for _ in range(k)]
        for i in range(k):
            for j in free:
                amps[i][j] = h.real(f"a{i}_{j}", -10, 10)
        amps[0][1] = 1.0
    th = h.real("th", 0.01, 0.9) if free is None else 0.3
    de = h.real("delay", -2, 0)
    for a in amps if free is None else ():
        h.require(h.any_([h.le(1.0, a[0] + a[2] - 2 * a[1], 0.0), h.le(1.0, 2 * a[1] - a[0] - a[2], 0.0)]))
    amps = [[v * level for v in a] for a in amps]
    arr = h.mk_array(amps, 0.5, [2.0 * i for i in range(k)], delay=de)
    mat = arr.timeseriesmatrix(detrend=True, normalize="each")
    pos, times = arr.auto_pick_first_arrivals(algorithm="threshold", threshold=th)
    h.check_eq(list(pos), [2.0 * i for i in range(k)], "one pick per sensor position, in order")
    h.check(len(times) == k, "one time per sensor")
    for i in range(k):
        row = h.tolist(mat[i])
        lead = row[:10]
        mean = lead[0]
        for v in lead[1:]:
            mean = mean + v
        mean = mean / len(lead)
        ok = []
        for j in range(n):
            over = lambda v: h.any_([h.lt(th, v - mean), h.lt(th, mean - v)])  # noqa: E731
            under = lambda v: h.all_([h.le(v - mean, th), h.le(mean - v, th)])  # noqa: E731
            ok.append(h.all_([h.eq(times[i], de + 0.5 * j), over(row[j])] + [under(row[q]) for q in range(j)]))
        h.check(h.any_(ok), "the pick is the first sample beyond the threshold from the leading mean")


def other(h):
    arr = h.mk_array([[1.0, 2.0, 0.0]], 0.5, [0.0])
    h.check_raises(NotImplementedError, "unknown algorithms are refused", arr.auto_pick_first_arrivals, algorithm="aic")


def manual(h, npts=2):
    """Manual picks come back as (distance, time) whatever axis shows time."""
    arr = h.mk_array([h.reals("a", 3, 1, 10), h.reals("b", 3, 1, 10)], 0.5, [0.0, 2.0])
    tax = h.choice("tax", ["y", "x"])
    for c in arr.sensors:
        h.require(h.le(1.0, c.amplitude[0] + c.amplitude[2] - 2 * c.amplitude[1], 0.0))
    ds, ts = h.reals("d", npts, 0, 5), h.reals("t", npts, 0, 1)
    clicks = iter([(d, t) if tax == "y" else (t, d) for d, t in zip(ds, ts)])
    left = [npts]

    def click():
        left[0] -= 1
        return [next(clicks)]
    h.plt.ginput_script = click
    h.plt.press_script = lambda timeout: True if (timeout < 0 or left[0] == 0) else None
    kw = {} if tax == "y" and not h.flag("explicit") else {"waterfall_kwargs": {"time_ax": tax}}
    d, t = arr.manual_pick_first_arrivals(**kw)
    h.check_eq(list(d), ds, "picked distances in order")
    h.check_eq(list(t), ts, "picked times in order")


def again(h, n=12):
    """Picks are those of the samples there are now, whatever was picked before."""
    dt, xs = 0.25, [0.0, 2.0]
    amps = [[float((5 * i + 3 * j) % 7 - 3) for j in range(n)] for i in range(2)]
    amps[0][2] = h.real("a", 2, 8)
    arr = h.mk_array(amps, dt, xs)
    th = 0.3
    for op in [None, h.choice("op", ["mute", "trim", "own"])]:
        if op == "mute":
            arr.mute(signal_start=((0.0, 2.5 * dt), (9.0, 2.5 * dt)), window_kwargs={"alpha": 0.0})
        elif op == "trim":
            arr.trim(0.0, 9 * dt)
        elif op == "own":
            p, t = arr.auto_pick_first_arrivals(threshold=0.3)
            t[0] = 99.0
        fresh = h.mk_array([h.tolist(c.amplitude) for c in arr.sensors], dt, xs)
        p, t = arr.auto_pick_first_arrivals(threshold=th)
        _, q = fresh.auto_pick_first_arrivals(threshold=th)
        h.check_eq(list(p), xs, "one pick per sensor")
        h.check_eq(list(t), list(q), "picks are those of the samples there are")


HARNESSES = [
    (again, [dict()]),
    (auto, [dict(), dict(n=3, k=2), dict(n=12, free=[11]), dict(n=28, free=[25]), dict(n=3, level=2.0**-40), dict(n=3, level=2.0**30)], [dict(n=5), dict(n=4, k=2), dict(n=11, free=[10, 9])]),
    (other, [dict()]),
    (manual, [dict()], [dict(npts=3)]),
]
