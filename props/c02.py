"""C02 trimming."""
BOUNDS = ("records of 2..6 samples and of 40 (thorough 120) samples, any sample values, any sampling step in [0.01, 1], any delay in "
          "[-2, 0], any requested start and end time; up to two successive trims, of records that were zero padded "
          "(to a whole multiple or not), stacked, copied or left alone before")


def _mk(h, n, pre=False):
    dt = h.real("dt", 0.01, 1.0)
    delay = h.real("delay", -2.0, 0.0)
    x = h.reals("x", n, -1e6, 1e6)
    kind = h.choice("kind", ["record", "sensor"]) if pre else "record"
    if kind == "record":
        a = h.sw.ActiveTimeSeries(x, dt, nstacks=3, delay=delay)
    else:
        a = h.sw.Sensor1C(x, dt, 1.0, 2.0, 3.0, nstacks=3, delay=delay)
    if not pre:
        return dt, delay, x, a
    for i, ops in enumerate((["pad", "multiple"], ["none", "stack", "copy"])):
        op = h.choice(f"op{i}", ops)
        if op == "pad":
            a.zero_pad(1 / ((n + 1) * dt))
            x = x + [0.0]
        elif op == "multiple":
            a.zero_pad(1 / (2 * dt))
            x = x + [0.0] * (n % 2)
        elif op == "stack":
            b = h.sw.ActiveTimeSeries(x, dt, nstacks=3, delay=delay)
            if kind == "sensor":
                b = h.sw.Sensor1C(x, dt, 1.0, 2.0, 3.0, nstacks=3, delay=delay)
            a.stack_append(b)
        elif op == "copy":
            a = (h.sw.ActiveTimeSeries.from_activetimeseries(a) if kind == "record"
                 else h.sw.Sensor1C.from_sensor1c(a))
    return dt, delay, x, a


def _contiguous(h, out, x):
    """Is `out` a contiguous part of x (identified by position)?"""
    return


def legal(h, n=4):
    dt, delay, x, a = _mk(h, n)
    s, e = h.real("start"), h.real("end")
    h.require(h.le(delay, s))
    h.require(h.gap(s, e, 0))
    h.require(h.le(e, delay + (n - 1) * dt))
    a.trim(s, e)
    m = a.nsamples
    out = h.tolist(h.np.atleast_1d(a.amplitude))
    h.check(m == len(out) and 1 <= m <= n, "a legal trim keeps between one and all samples")
    t = [delay + i * dt for i in range(n)]
    # the kept samples are those between the samples closest to start and end
    options = []
    for i in range(n - m + 1):
        same = h.eq(out, x[i:i + m])
        near = h.all_([h.le(t[i] - s, dt / 2), h.le(s - t[i], dt / 2),
                       h.le(t[i + m - 1] - e, dt / 2), h.le(e - t[i + m - 1], dt / 2)])
        options.append(h.all_([same, near]))
    h.check(h.any_(options), "exactly the samples from start to end (nearest samples) are kept")
    h.check_eq(a.delay, s, "the record starts at the requested start time")
    h.check_eq([a.dt, a.nstacks], [dt, 3], "step and stack count unchanged")
    h.check_eq(a.time, [s + i * dt for i in range(m)] if m > 1 else s, "time axis restarts at the start time")
    h.observe("m", m)


def exact(h, n=5, pre=False):
    """Start and end exactly on samples: those samples and nothing else."""
    dt, delay, x, a = _mk(h, n, pre)
    n = len(x)
    i = h.choice("i", range(n - 1))
    j = h.choice("j", range(i + 1, n))
    a.trim(delay + i * dt, delay + j * dt)
    h.check_eq(a.amplitude, x[i:j + 1], "trimming at sample times keeps those samples inclusively")
    h.check_eq(a.nsamples, j + 1 - i, "sample count follows")
    h.check_eq(a.time, [delay + k * dt for k in range(i, j + 1)], "samples keep their times")


def twice(h, n=5, pre=False):
    """Trim of a trim equals the direct trim."""
    dt, delay, x, a = _mk(h, n, pre)
    n = len(x)
    i = h.choice("i", range(n - 2))
    j = h.choice("j", range(i + 2, n))
    k = h.choice("k", range(i, j))
    m = h.choice("m", range(k + 1, j + 1))
    a.trim(delay + i * dt, delay + j * dt)
    a.trim(delay + k * dt, delay + m * dt)
    h.check_eq(a.amplitude, x[k:m + 1], "a trim of a trimmed record uses its own times")
    h.check_eq(a.time, [delay + q * dt for q in range(k, m + 1)], "samples keep their times over two trims")


def long(h, n=40):
    """Long records, start and end anywhere between two samples."""
    dt, delay, x = h.real("dt", 0.01, 1.0), h.real("delay", -2.0, 0.0), [float(i) for i in range(n)]
    i, j = h.choice("i", [0, 3, 11, n - 4]), h.choice("j", [5, 20, n - 2])
    h.require(i < j)
    u, v = h.real("u", -0.45, 0.45), h.real("v", -0.45, 0.45)
    if i == 0:
        h.require(h.le(0, u, 0.0))
    x[i], x[j] = h.real("xi", -100, 100), h.real("xj", -100, 100)
    a = h.sw.ActiveTimeSeries(x, dt, nstacks=2, delay=delay)
    s, e = delay + (i + u) * dt, delay + (j + v) * dt
    a.trim(s, e)
    h.check_eq(a.amplitude, x[i:j + 1], "exactly the samples from start to end (nearest samples) are kept")
    h.check_eq(a.time, [s + q * dt for q in range(j - i + 1)], "time axis restarts at the start time")
    h.check_eq([a.delay, a.dt, a.nstacks], [s, dt, 2], "step and stack count unchanged")


def illegal(h, n=3, pre=False):
    dt, delay, x, a = _mk(h, n, pre)
    n = len(x)
    state = [a.multiple, a.df, a.nstacks]
    s, e = h.real("start", -10, 10), h.real("end", -10, 10)
    end = delay + (n - 1) * dt
    h.require(h.any_([h.gap(s, delay, 0.001), h.le(e, s), h.gap(end, e, 0.001)]))
    h.check_raises(IndexError, "an illogical window is refused with IndexError", a.trim, s, e)
    h.check_eq(a.amplitude, x, "a refused trim leaves the samples unchanged")
    h.check_eq([a.delay, a.dt, a.nsamples], [delay, dt, n], "a refused trim leaves the attributes unchanged")
    h.check_eq([a.multiple, a.df, a.nstacks], state, "a refused trim leaves step and stack count unchanged")
    h.check_eq(a.time, [delay + i * dt for i in range(n)], "a refused trim leaves the time axis unchanged")


def border(h, n=4):
    """The whole record is a legal window, one just beyond it is not."""
    x = h.reals("x", n, -10, 10)
    k = h.int("k", -40, 0)
    dt, delay = 0.25, k * 0.125
    a = h.sw.ActiveTimeSeries(x, dt, delay=delay)
    s, e = h.int("s", -90, 90) * 0.125, h.int("e", -90, 90) * 0.125
    end = delay + (n - 1) * dt
    legal = h.all_([h.le(delay, s, 0.0), h.lt(s, e, 0.0), h.le(e, end, 0.0)])
    _, err = h.attempt(a.trim, s, e)
    if err is not None:
        h.check(isinstance(err, IndexError), "an illogical window is refused with IndexError")
        h.check(h.not_(legal), "a window within the record is not refused")
    else:
        h.check(legal, "only a window within the record is accepted")


HARNESSES = [
    (legal, [dict(n=2), dict(n=3), dict(n=4)], [dict(n=5), dict(n=6), dict(n=9)]),
    (exact, [dict(n=4), dict(n=5), dict(n=3, pre=True)], [dict(n=7), dict(n=4, pre=True), dict(n=17), dict(n=5, pre=True)]),
    (twice, [dict(n=4)], [dict(n=5), dict(n=3, pre=True), dict(n=4, pre=True)]),
    (long, [dict()], [dict(n=120)]),
    (border, [dict(n=3)], [dict(n=5)]),
    (illegal, [dict(n=2), dict(n=3), dict(n=3, pre=True)], [dict(n=5), dict(n=4, pre=True)]),
]
