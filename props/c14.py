"""C14 sample matrix: order, normalisation, detrending."""
BOUNDS = "1..3 sensors of 2..5 samples with any values, 20 sensors, 30 samples; amplitudes of 1e-12 to 1e10"


def matrix(h, k=2, n=3, detrend=False, mode="none", level=1.0):
    """Every level: traces of a few nanometres per second to those in counts."""
    free = [h.reals(f"a{i}_", n, -10, 10) for i in range(k)]
    amps = [[v * level for v in a] for a in free]
    for a in free:
        h.require(h.any_([h.le(1.0, v, 0.0) for v in a]))
        if detrend:
            h.require(h.any_([h.le(1.0, a[i] + a[i + 2] - 2 * a[i + 1], 0.0) for i in range(n - 2)]))
    arr = h.mk_array(amps, 0.5, [2.0 * i for i in range(k)])
    got = arr.timeseriesmatrix(detrend=detrend, normalize=mode)
    if mode == "none":
        got = [[v / level for v in r] for r in h.tolist(got)]
    h.check_eq([[v / level for v in r] for r in h.tolist(arr.timeseriesmatrix())], free, "reading the matrix leaves the sensors unchanged")
    base = []
    for a in free:
        if not detrend:
            base.append(a)
            continue
        tm = (n - 1) / 2
        den = sum((t - tm) ** 2 for t in range(n))
        mean = a[0]
        for v in a[1:]:
            mean = mean + v
        mean = mean / n
        sl = (0 - tm) * a[0]
        for t in range(1, n):
            sl = sl + (t - tm) * a[t]
        sl = sl / den
        base.append([a[t] - mean - sl * (t - tm) for t in range(n)])

    def top(vals):
        m = None
        for v in vals:
            v = h.ite(h.le(0.0, v, 0.0), v, 0 - v)
            m = v if m is None else h.ite(h.le(m, v, 0.0), v, m)
        return m
    if mode == "none":
        h.check_eq(got, base, "rows are the (detrended) samples in sensor order", 1e-6)
    elif mode == "each":
        for i in range(k):
            m = top(base[i])
            h.check_eq([v * m for v in h.tolist(got[i])], base[i], "each row is divided by its own peak", 1e-6)
    else:
        m = top([v for r in base for v in r])
        for i in range(k):
            h.check_eq([v * m for v in h.tolist(got[i])], base[i], "all rows are divided by the common peak", 1e-6)


def again(h, k=2, n=6):
    """Every request is answered from the samples there are now, whatever was asked for before."""
    dt = 0.25
    amps = [[h.real(f"a{i}_{j}", -10, 10) if j in (1, 4) else float((3 * i + 5 * j) % 7 - 3) for j in range(n)] for i in range(k)]
    xs = [2.0 * i for i in range(k)]
    arr = h.mk_array(amps, dt, xs)
    kws = [dict(), dict(normalize="each"), dict(normalize="all"), dict(detrend=True), dict(detrend=True, normalize="each")]
    kw = kws[h.choice("kw", range(len(kws)))]
    ops = [h.choice(f"op{r}", ["mute", "pad", "trim", "own"]) for r in range(2)]
    for op in [None] + ops:
        if op == "mute":
            arr.mute(signal_start=((0.0, dt / 2), (9.0, dt / 2)), signal_end=((0.0, (n - 2.5) * dt), (9.0, (n - 2.5) * dt)), window_kwargs={"alpha": 0.0})
        elif op == "pad":
            arr.zero_pad(0.5)
        elif op == "trim":
            arr.trim(dt, 4 * dt)
        elif op == "own":
            # what was handed out belongs to the caller
            m = arr.timeseriesmatrix(**kw)
            m[0] = m[0] * 0.0 + 7.0
        fresh = h.mk_array([h.tolist(c.amplitude) for c in arr.sensors], dt, xs)
        h.check_eq(arr.timeseriesmatrix(**kw), fresh.timeseriesmatrix(**kw), "the matrix is that of the samples there are", 1e-9)
    h.check_eq(arr.timeseriesmatrix(), [h.tolist(c.amplitude) for c in arr.sensors], "and the samples are those of the sensors", 1e-9)


HARNESSES = [
    (again, [dict()], [dict(k=3)]),
    (matrix, [dict(mode="none"), dict(mode="each"), dict(mode="all"), dict(mode="none", detrend=True, n=4),
              dict(mode="each", detrend=True, n=3, k=1), dict(mode="all", detrend=True, n=3, k=2), dict(k=3, n=2), dict(k=20, n=2), dict(k=1, n=30, detrend=True)]
     + [dict(mode=m, level=v) for m in ("none", "each", "all") for v in (2.0**-40, 2.0**30)]
     + [dict(mode="each", detrend=True, k=1, level=v) for v in (2.0**-40, 2.0**30)],
     [dict(mode="each", k=3, n=3), dict(mode="all", k=3, n=3), dict(mode="each", detrend=True, n=4, k=2),
      dict(mode="none", detrend=True, n=5, k=3)]),
]
