"""C06 record construction, derived axes, equality."""
BOUNDS = ("records of 2..30 samples with any values, any step in [1e-3, 1], stack counts in [-20, 20], "
          "delays in [-5, 5], positions in [-50, 50]")


def build(h, n=4, kind="ts"):
    dt = h.real("dt", 0.001, 1.0)
    ns = h.int("ns", -20, 20)
    delay = h.real("delay", -5.0, 5.0)
    x = h.reals("x", n, -100, 100)
    pos = h.reals("p", 3, -50, 50)
    if kind == "ts":
        a, e = h.attempt(h.sw.ActiveTimeSeries, x, dt, nstacks=ns, delay=delay)
    else:
        a, e = h.attempt(h.sw.Sensor1C, x, dt, *pos, nstacks=ns, delay=delay)
    bad = h.any_([h.le(ns, 0), h.not_(h.le(delay, 0, 0.0))])
    if e is not None:
        h.check(isinstance(e, ValueError), "bad arguments are refused with ValueError")
        h.check(bad, "only a stack count below one or a positive delay is refused")
        return
    h.check(h.not_(bad), "a stack count below one or a positive delay is refused")
    h.check_eq(a.amplitude, x, "samples are stored unchanged")
    h.check_eq([a.dt, a.nstacks, a.delay, a.nsamples, a.multiple], [dt, ns, delay, n, 1],
               "attributes are stored unchanged")
    h.check_eq(a.time, [delay + i * dt for i in range(n)], "sample i is at delay + i dt")
    h.check_eq(a.fs * dt, 1.0, "sampling frequency is 1/dt")
    h.check_eq(a.fnyq * dt, 0.5, "Nyquist is half the sampling frequency")
    h.check_eq(a.df * dt * n, 1.0, "frequency step is 1/(n dt)")
    if kind != "ts":
        h.check_eq([a.x, a.y, a.z], pos, "position is stored unchanged")


def alias(h, n=3):
    """The record does not share memory with the samples it was given."""
    x = h.reals("x", n, -10, 10)
    data = h.arr(x)
    a = h.sw.ActiveTimeSeries(data, 0.5)
    data[0] = data[0] + 1.0
    h.check_eq(a.amplitude, x, "later changes of the input do not reach the record")
    y = h.reals("y", n, -10, 10)
    b = h.sw.Sensor1C(h.arr(y), 0.5, 0, 0, 0)
    a.stack_append(h.sw.ActiveTimeSeries(y, 0.5))
    h.check_eq(data[1], x[1], "stacking does not write into the input")
    h.check_eq(b.amplitude, y, "sensor keeps its samples")


def equality(h, n=3, kind="ts"):
    """Equal exactly when all attributes agree and the samples agree."""
    what = h.choice("what", ["same", "dt", "nstacks", "delay", "nsamples", "sample", "swap", "shift", "sign", "other"]
                    + (["x", "y", "z"] if kind == "sensor" else []))
    dt, ns, de = h.real("dt", 0.01, 1), h.int("ns", 1, 9), h.real("de", -2, 0)
    dt2, ns2, de2 = h.real("dt2", 0.01, 1), h.int("ns2", 1, 9), h.real("de2", -2, 0)
    x = (h.reals("x", n, -10, 10) if n < 8 else
         [h.real(f"x{i}", -10, 10) if i in (1, n // 2, n - 1) else float((5 * i) % 13 - 6) for i in range(n)])
    pos = h.reals("p", 3, -50, 50)
    pos2 = list(pos)
    y = list(x)
    a2 = [dt, ns, de]
    if what == "dt":
        h.require(h.ne(dt, dt2))
        a2[0] = dt2
    elif what == "nstacks":
        h.require(h.ne(ns, ns2))
        a2[1] = ns2
    elif what == "delay":
        h.require(h.ne(de, de2))
        a2[2] = de2
    elif what == "nsamples":
        y = y + [0.0]
    elif what == "sample":
        i = h.choice("i", range(n) if n < 8 else [0, 1, 7, n // 2, n - 2, n - 1])
        d = h.real("d", -5, 5)
        h.require(h.any_([h.lt(d, -0.01), h.lt(0.01, d)]))
        y[i] = y[i] + d
    elif what in ("swap", "shift"):
        i, j = h.choice("i", sorted({0, 1, n // 2})), n - 1
        h.require(h.any_([h.lt(x[i], x[j] - 0.01), h.lt(x[j] + 0.01, x[i])]))
        if what == "swap":
            y[i], y[j] = y[j], y[i]
        else:       # same sum
            y[i], y[j] = y[i] + 0.25, y[j] - 0.25
    elif what == "sign":
        i = h.choice("i", sorted({0, n // 2, n - 1}))
        h.require(h.any_([h.lt(x[i], -0.01), h.lt(0.01, x[i])]))
        y[i] = 0 - y[i]
    elif what in ("x", "y", "z"):
        i = "xyz".index(what)
        d = h.real("d", -5, 5)
        h.require(h.ne(d, 0.0))
        pos2[i] = pos2[i] + d

    def mk(v, at, p):
        if kind == "sensor":
            return h.sw.Sensor1C(v, at[0], *p, nstacks=at[1], delay=at[2])
        return h.sw.ActiveTimeSeries(v, at[0], nstacks=at[1], delay=at[2])
    a = mk(x, [dt, ns, de], pos)
    if what == "other":
        for o in (None, 1.0, "x", x):
            r = a == o
            h.check(not r, "a record never equals something that is not a record")
        return
    b = mk(y, a2, pos2)
    same = what == "same"
    h.check(bool(a == b) == same, f"equality sees {what}")
    h.check(bool(b == a) == same, f"equality sees {what} from either side")
    h.check(bool(a != b) == (not same), "inequality is the negation of equality")


HARNESSES = [
    (build, [dict(n=2), dict(n=4), dict(n=3, kind="sensor"), dict(n=30)], [dict(n=6), dict(n=6, kind="sensor")]),
    (alias, [dict()]),
    (equality, [dict(), dict(kind="sensor"), dict(n=24), dict(n=9, kind="sensor")], [dict(n=5), dict(n=5, kind="sensor")]),
]
