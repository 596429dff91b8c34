"""C05 copies of records, sensors and arrays."""
BOUNDS = ("records of 4 and 24 samples with any values, step, stack count and delay, in every state reached by "
          "at most two of: trim, zero-pad, stack; arrays of 2, 3 and 20 sensors in the same states")


def _state(h, a, dt, delay, n, names):
    """Bring `a` into some reachable state."""
    for i, nm in enumerate(names):
        op = h.choice(f"op{i}", nm)
        m = a.nsamples
        if op == "trim" and m > 2:
            a.trim(a.delay + dt, a.delay + (m - 1) * dt)
        elif op == "trim-late":
            a.trim(a.delay + 2 * dt, a.delay + (m - 1) * dt)
        elif op == "pad":
            a.zero_pad(1 / ((m + 2) * dt))
        elif op == "pad-multiple":
            a.zero_pad(1 / (2 * dt))
        elif op == "pad-many":
            a.zero_pad(1 / dt)
        elif op == "stack":
            other = h.reals(f"k{i}_", m, -10, 10)
            b = (h.sw.Sensor1C(other, dt, a.x, a.y, a.z, nstacks=2, delay=delay)
                 if hasattr(a, "x") else h.sw.ActiveTimeSeries(other, dt, nstacks=2, delay=delay))
            a.stack_append(b)


OPS = [["none", "stack", "trim", "trim-late", "pad", "pad-multiple"], ["none", "trim", "pad-multiple", "pad"]]


def _same(h, a, c, who):
    h.check_eq(c.amplitude, a.amplitude, f"{who}: equal samples")
    h.check_eq([c.dt, c.nstacks, c.delay, c.nsamples], [a.dt, a.nstacks, a.delay, a.nsamples],
               f"{who}: equal step, stack count, delay and length")
    h.check_eq(c.time, a.time, f"{who}: equal time axis")
    h.check_eq([c.df, c.multiple], [a.df, a.multiple], f"{who}: equal frequency step")


def record(h, n=4, kind="ts", ops=None):
    dt = h.real("dt", 0.01, 1.0)
    delay = h.real("delay", -2.0, 0.0)
    x = h.reals("x", n, -100, 100)
    ns = h.int("ns", 1, 900)
    pos = h.reals("p", 3, -500, 500)
    sw = h.sw
    if kind == "ts":
        a = sw.ActiveTimeSeries(x, dt, nstacks=ns, delay=delay)
    else:
        a = sw.Sensor1C(x, dt, *pos, nstacks=ns, delay=delay)
    _state(h, a, dt, delay, n, ops or OPS)
    if kind == "ts":
        c = sw.ActiveTimeSeries.from_activetimeseries(a)
    elif kind == "sensor":
        c = sw.Sensor1C.from_sensor1c(a)
    else:
        c = sw.Sensor1C.from_activetimeseries(a, *pos)
    _same(h, a, c, "copy")
    if kind != "ts":
        h.check_eq([c.x, c.y, c.z], pos, "copy: same position")
    h.check(c == a, "the copy compares equal")
    before = h.tolist(h.np.array(a.amplitude))
    state = [a.dt, a.nstacks, a.delay, a.nsamples, a.multiple]
    c._amp[0, 0] = c._amp[0, 0] + 1.0
    c.zero_pad(1 / ((c.nsamples + 3) * dt))
    if h.flag("rewrite"):
        a._amp[0, -1] = a._amp[0, -1] + 2.0
        before[-1] = before[-1] + 2.0
        h.check_eq(h.tolist(h.np.array(c.amplitude))[len(before) - 1], before[-1] - 2.0 + (1.0 if len(before) == 1 else 0.0),
                   "changing the original leaves the copy alone")
    h.check_eq(a.amplitude, before, "changing the copy leaves the original samples alone")
    h.check_eq([a.dt, a.nstacks, a.delay, a.nsamples, a.multiple], state,
               "changing the copy leaves the original attributes alone")


def array(h, n=4, k=2):
    dt = h.real("dt", 0.01, 1.0)
    delay = h.real("delay", -2.0, 0.0)
    ns = h.int("ns", 1, 9)
    xs = h.choice("xs", [[0.0, 2.0, 4.0], [-3.0, 1.5, 2.0]])[:k] if k < 4 else [0.25 * i for i in range(k)]
    amps = [h.reals(f"x{i}_", n, -100, 100) if k < 4 or i in (0, k - 1) else [float(i)] * n for i in range(k)]
    src = h.reals("s", 3, -40, 40)
    h.require(h.any_([h.lt(src[0], -4), h.lt(5, src[0])]))
    arr = h.mk_array(amps, dt, xs, src=src, nstacks=ns, delay=delay)
    op = h.choice("op", ["none", "trim", "trim-late", "pad", "pad-multiple", "trim+pad"])
    end = delay + (n - 1) * dt
    if op in ("trim", "trim+pad"):
        arr.trim(delay + dt, end)
    elif op == "trim-late":
        arr.trim(delay + 2 * dt, end)
    if op in ("pad", "trim+pad"):
        arr.zero_pad(1 / ((n + 2) * dt))
    elif op == "pad-multiple":
        arr.zero_pad(1 / (2 * dt))
    c = h.sw.Array1D.from_array1d(arr)
    h.check(c.nchannels == arr.nchannels, "array copy: same channel count")
    for p, q in zip(arr.sensors, c.sensors):
        _same(h, p, q, "array copy")
        h.check_eq([q.x, q.y, q.z], [p.x, p.y, p.z], "array copy: same sensor positions")
    h.check_eq([c.source.x, c.source.y, c.source.z], src, "array copy: same source")
    h.check(c == arr, "array copy: compares equal")
    h.check_eq(c.timeseriesmatrix(), arr.timeseriesmatrix(), "array copy: same matrix")
    before = h.np.array(arr.timeseriesmatrix())
    c.sensors[0]._amp[0, 0] = c.sensors[0]._amp[0, 0] + 1.0
    c.zero_pad(1 / ((c.sensors[0].nsamples + 3) * dt))
    h.check_eq(arr.timeseriesmatrix(), before, "array copy: changing the copy leaves the original alone")
    h.check_eq([c.source.x], [arr.source.x], "array copy: source kept")
    h.check(c.source is not arr.source and c.sensors is not arr.sensors and
            not any(q is p for q in c.sensors for p in arr.sensors), "array copy: nothing is shared")
    d = h.sw.Array1D.from_array1d(arr)
    h.check(d.source is not arr.source, "array copy: the source is a copy of its own")
    d.source._x = d.source._x + 1.0
    h.check_eq(arr.source.x, src[0], "array copy: moving the copy's source leaves the original alone")
    s2 = h.sw.Source.from_source(arr.source)
    h.check(s2 is not arr.source and s2 == arr.source, "source copy: equal and separate")


HARNESSES = [
    (record, [dict(kind="ts"), dict(kind="sensor"), dict(kind="from-ts"), dict(n=24, kind="sensor"), dict(n=40, kind="sensor", ops=[["pad-many"]]), dict(n=40, ops=[["trim"], ["pad-many"]])], [dict(n=6, kind="sensor"), dict(n=7)]),
    (array, [dict(k=2), dict(k=3), dict(k=20, n=4)], [dict(n=6, k=3)]),
]
