"""C11 array geometry."""
BOUNDS = "2..5 sensors at any distinct positions in [-100, 100], 24 (thorough 60) of which one varies, any source in [-200, 200]; records of 2 samples"


def _arr(h, k, gap=0.1):
    xs = h.reals("x", k, -100, 100)
    for i in range(k - 1):
        h.require(h.le(xs[i] + gap, xs[i + 1], 0.0))
    sx = h.real("sx", -200, 200)
    amps = [h.reals(f"a{i}_", 2, -10, 10) for i in range(k)]
    return xs, sx, amps, h.mk_array(amps, 0.5, xs, src=(sx, 1.0, 2.0))


def geometry(h, k=3):
    xs, sx, amps, arr = _arr(h, k)
    off = [h.ite(h.le(sx, x), x - sx, sx - x) for x in xs]
    h.check_eq(arr.offsets, off, "offset is the distance of the sensor from the source")
    h.check_eq(arr.position(), xs, "positions")
    h.check_eq(arr.position(normalize=True), [x - xs[0] for x in xs], "normalised positions start at zero")
    tot = off[0]
    for o in off[1:]:
        tot = tot + o
    h.check_eq(arr.array_center_distance * k, tot, "centre distance is the mean offset")
    gaps = [xs[i + 1] - xs[i] for i in range(k - 1)]
    pi = 3.141592653589793
    lam = pi / arr.kres
    h.check(h.any_([h.eq(lam, g, 1e-6) for g in gaps]), "resolution wavenumber is pi over a spacing")
    for g in gaps:
        h.check(h.le(lam, g, 1e-6), "resolution wavenumber uses the smallest spacing")
    inside = h.all_([h.not_(h.le(sx, xs[0], 0.0)), h.not_(h.le(xs[-1], sx, 0.0))])
    got = bool(arr._source_inside)
    h.check(inside if got else h.not_(inside), "a source counts as inside exactly between the outermost sensors")


def spacing(h, k=3):
    """Constant spacing is reported, any other is refused."""
    s = h.real("s", 0.5, 10)
    x0 = h.real("x0", -50, 50)
    uneven = h.flag("uneven")
    xs = [x0 + i * s for i in range(k)]
    if uneven:
        d = h.real("d", -0.4, 0.4)
        h.require(h.any_([h.lt(d, -0.02), h.lt(0.02, d)]))
        j = h.choice("j", range(k))
        xs[j] = xs[j] + d
    arr = h.mk_array([[1.0, 2.0]] * k, 0.5, xs, src=(-99.0, 0.0, 0.0))
    v, e = h.attempt(lambda: arr.spacing)
    if uneven:
        h.check(isinstance(e, ValueError), "an uneven array has no spacing (ValueError)")
    else:
        if e is not None:
            raise e
        h.check(h.all_([h.le(v - s, 0.00501), h.le(s - v, 0.00501)]), "spacing to the centimetre")


def flipped(h, k=3):
    """Traces from near to far when the source is beyond either end."""
    xs, sx, amps, arr = _arr(h, k, 0.5)
    side = h.choice("side", ["left", "right"])
    h.require(h.lt(sx, xs[0] - 0.5) if side == "left" else h.lt(xs[-1] + 0.5, sx))
    t, o = arr._flipped_tseries_and_offsets()
    o = h.tolist(o)
    for i in range(k - 1):
        h.check(h.lt(o[i], o[i + 1]), "traces are ordered from near to far")
    for i in range(k):
        j = i if side == "left" else k - 1 - i
        d = xs[j] - sx if side == "left" else sx - xs[j]
        h.check_eq(o[i], d, "offsets belong to the sensors")
        h.check_eq(t[i], amps[j], "each trace stays with its offset")
    h.check_eq(arr.timeseriesmatrix(), amps, "ordering the traces leaves the array unchanged")
    h.check_eq(arr.position(), xs, "ordering the traces leaves the positions unchanged")


def large(h, k=24):
    """Many sensors."""
    xs = [2.0 * i for i in range(k)]
    i = h.choice("i", [1, 9, k - 2])
    xs[i] = xs[i] + h.real("d", -0.9, 0.9)
    side = h.choice("side", ["left", "right", "inside"])
    sx = {"left": h.real("l", -50, -1), "right": h.real("r", 2 * k, 2 * k + 50), "inside": 15.0}[side]
    amps = [[float(j), h.real(f"v{j}", -1, 1) if j == i else 0.0] for j in range(k)]
    arr = h.mk_array(amps, 0.5, xs, src=(sx, 0.0, 0.0))
    if side == "inside":
        h.require(h.any_([h.lt(xs[i], 14.99), h.lt(15.01, xs[i])]))
    off = [h.ite(h.le(sx, x), x - sx, sx - x) for x in xs]
    h.check_eq(arr.offsets, off, "offset is the distance of the sensor from the source")
    tot = off[0]
    for o in off[1:]:
        tot = tot + o
    h.check_eq(arr.array_center_distance * k, tot, "centre distance is the mean offset")
    h.check(bool(arr._source_inside) == (side == "inside"), "inside only between the outermost sensors")
    if side != "inside":
        t, o = arr._flipped_tseries_and_offsets()
        o = h.tolist(o)
        for j in range(k):
            q = j if side == "left" else k - 1 - j
            h.check_eq(o[j], off[q], "offsets belong to the sensors")
            h.check_eq(t[j], amps[q], "each trace stays with its offset")
        h.check_eq(arr.timeseriesmatrix(), amps, "ordering the traces leaves the array unchanged")


def again(h, k=4):
    """The geometry is that of the sensors and source there are now, however often it was asked for before."""
    xs = [2.0 * i for i in range(k)]
    xs[1] = h.real("x1", 1.0, 3.0)
    side = h.choice("side", ["left", "right"])
    sx = h.real("l", -9, -4) if side == "left" else h.real("r", 2 * k + 4, 2 * k + 9)
    arr = h.mk_array([[float(i), 1.0] for i in range(k)], 0.5, xs, src=(sx, 0.0, 0.0))
    left = list(range(k))
    for step in range(4):
        off = [xs[i] - sx if side == "left" else sx - xs[i] for i in left]
        h.check_eq(arr.offsets, off, "offsets are those of the sensors and source there are")
        tot = off[0]
        for o in off[1:]:
            tot = tot + o
        h.check_eq(arr.array_center_distance * len(left), tot, "so is the centre distance", 1e-9)
        p = arr.position(normalize=True)
        h.check_eq(p, [xs[i] - xs[left[0]] for i in left], "so are the normalised positions")
        h.check_eq(arr.position(), [xs[i] for i in left], "so are the positions")
        t, o = arr._flipped_tseries_and_offsets()
        o = h.tolist(o)
        order = range(len(left)) if side == "left" else range(len(left) - 1, -1, -1)
        for a, b in enumerate(order):
            h.check_eq(o[a], off[b], "so is the order from near to far")
            h.check_eq(t[a][0], float(left[b]), "with each trace")
        h.check(not arr._source_inside, "the source is beyond one end")
        if step == 0:
            # drops the sensor nearest to the source
            drop = left[0] if side == "left" else left[-1]
            far = 99.0
            near = [xs[i] - sx if side == "left" else sx - xs[i] for i in left if i != drop]
            own = xs[drop] - sx if side == "left" else sx - xs[drop]
            arr.trim_offsets(own + 1e-3, far)
            left = [i for i in left if i != drop]
        elif step == 1:
            sx = sx + (-2.0 if side == "left" else 2.0)
            arr.source = h.sw.Source(x=sx, y=0.0, z=0.0)
        elif step == 2:
            arr.trim(0.0, 0.5)


HARNESSES = [
    (again, [dict()], [dict(k=6)]),
    (large, [dict()], [dict(k=60)]),
    (geometry, [dict(k=2), dict(k=3)], [dict(k=4)]),
    (spacing, [dict(k=3), dict(k=4)], [dict(k=6)]),
    (flipped, [dict(k=2), dict(k=3)], [dict(k=5)]),
]
