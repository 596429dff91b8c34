"""C08 writing an array to an SU file and reading it back."""
BOUNDS = ("1..3 sensors with 2..3 samples and 24 (thorough 60) with 40 (100) (16-bit integer samples times a power of two from 2^-16 to 2^20 so that 32-bit storage is exact), "
          "positions and source within +-2000 m at any resolution (stored to the millimetre), "
          "delays of 0 to -30 s (stored to the millisecond), steps of 1 us to 30 ms, stack counts 1..30000")
ASSUMPTIONS = ["SU storage of header fields and samples by obspy is faithful (replays use the real files)"]


def small(h, k=2):
    """Samples of any size, down to a millionth."""
    unit = h.choice("unit", [1.0, 2.0 ** -10, 2.0 ** -16, 2.0 ** 20])
    ns = h.int("ns", 1, 30000)
    amps = [[h.int(f"a{i}_{j}", -30000, 30000) * unit for j in range(3)] for i in range(k)]
    arr = h.mk_array(amps, 0.002, [2.0 * i for i in range(k)], nstacks=ns)
    arr.to_file("out.su")
    back = h.sw.Array1D.from_files("out.su")
    for p, q in zip(back.sensors, amps):
        h.check_eq([v / unit for v in h.tolist(p.amplitude)], [v / unit for v in q], "samples of any size survive")


def large(h, k=24, n=40):
    """Many sensors, long records, any order of positions."""
    xs = [float((7 * i) % k) * 2.5 - 10.0 for i in range(k)]
    odd = h.choice("odd", [0, 5, k - 1])
    move = h.int("move", -1000, 1000)
    xs[odd] = xs[odd] + move / 1000
    amps = [[float((3 * i + j) % 11 - 5) for j in range(n)] for i in range(k)]
    amps[odd][n - 1] = h.int("a", -30000, 30000)
    ns, dm = h.int("ns", 1, 300), h.int("delay", -3000, 0)
    sensors = [h.sw.Sensor1C(a, 0.001, x, 0.5 * i, 0.0, nstacks=ns, delay=dm / 1000)
               for i, (a, x) in enumerate(zip(amps, xs))]
    arr = h.sw.Array1D(sensors, h.sw.Source(-15.25, 3.125, 0.0))
    arr.to_file("out.su")
    back = h.sw.Array1D.from_files("out.su")
    h.check(back.nchannels == k, "every channel is written and read")
    h.check_eq(back.timeseriesmatrix(), arr.timeseriesmatrix(), "samples survive in sensor order")
    h.check_eq([[c.x, c.y, c.delay] for c in back.sensors], [[c.x, c.y, c.delay] for c in arr.sensors],
               "positions and delays survive")
    h.check_eq([c.nstacks for c in back.sensors], [ns] * k, "stack count survives")
    h.check_eq([back.source.x, back.source.y], [-15.25, 3.125], "source survives")


def roundtrip(h, k=2, n=2, grid=False):
    us = h.choice("us", [125, 1000, 2000])
    dt = us / 1000000
    ns = h.int("ns", 1, 30000)
    if grid:
        dm = h.int("delay", -30000, 0)
        delay = dm / 1000
        xm = [h.int(f"x{i}", -2000000, 2000000) for i in range(k)]
        xs = [x / 1000 for x in xm]
    else:
        delay = h.real("delay", -30, 0)
        xs = h.reals("x", k, -2000, 2000)
    for i in range(k):
        for j in range(i):
            h.require(h.any_([h.gap(xs[i], xs[j], 0.01), h.gap(xs[j], xs[i], 0.01)]))
    ys = h.reals("y", k, -2000, 2000)
    src = h.reals("s", 2, -2000, 2000)
    amps = [[h.int(f"a{i}_{j}", -30000, 30000) for j in range(n)] for i in range(k)]
    sensors = [h.sw.Sensor1C(a, dt, x, y, 0.0, nstacks=ns, delay=delay) for a, x, y in zip(amps, xs, ys)]
    arr = h.sw.Array1D(sensors, h.sw.Source(src[0], src[1], 0.0))
    arr.to_file("out.su")
    back = h.sw.Array1D.from_files("out.su")
    h.check(back.nchannels == k, "every channel is written and read")
    h.check_eq(back.timeseriesmatrix(), arr.timeseriesmatrix(), "samples survive in sensor order")
    near = 0.000501
    for p, q in zip(arr.sensors, back.sensors):
        for u, v, what in ((p.x, q.x, "x"), (p.y, q.y, "y")):
            h.check(h.all_([h.le(u - v, near), h.le(v - u, near)]), f"receiver {what} survives to the millimetre")
        h.check_eq(q.nstacks, ns, "stack count survives")
        h.check_eq(q.dt, dt, "sampling step survives")
        h.check(h.all_([h.le(q.delay - delay, near), h.le(delay - q.delay, near)]),
                "delay survives to the millisecond")
        if grid:
            h.check_eq([q.x, q.delay], [p.x, p.delay], "values on the storage grid survive exactly", 1e-9)
    for u, v, what in ((src[0], back.source.x, "x"), (src[1], back.source.y, "y")):
        h.check(h.all_([h.le(u - v, near), h.le(v - u, near)]), f"source {what} survives to the millimetre")


def bad_type(h):
    arr = h.mk_array([[1.0, 2.0], [1.0, 3.0]], 0.5, [0.0, 1.0])
    h.check_raises(ValueError, "unknown file types are refused", arr.to_file, "x.dat", h.choice("t", ["segy", "seg2", "SU2"]))
    h.check(not h.exists("x.dat"), "nothing is written for an unknown type")


HARNESSES = [
    (small, [dict()], [dict(k=3)]),
    (large, [dict()], [dict(k=60, n=100)]),
    (roundtrip, [dict(k=1), dict(k=2), dict(k=2, grid=True)], [dict(k=3), dict(k=3, grid=True, n=3)]),
    (bad_type, [dict()]),
]
