"""C12 selecting sensors by offset."""
BOUNDS = ("1..4 sensors, and 18 (thorough 40) evenly spaced, at any distinct positions in [-100, 100], any source in [-200, 200] (left, right, "
          "inside), any limits; two selections one after the other of 4 (thorough 6) sensors; limits exactly at an offset: whole-number positions "
          "and limits")


def select(h, k=3, side="any"):
    xs = h.reals("x", k, -100, 100)
    for i in range(k - 1):
        h.require(h.le(xs[i] + 0.5, xs[i + 1], 0.0))
    sx = h.real("sx", -200, 200)
    if side == "left":
        h.require(h.lt(sx, xs[0]))
    elif side == "right":
        h.require(h.lt(xs[-1], sx))
    lo, hi = h.real("lo", -5, 300), h.real("hi", 0, 300)
    amps = [[float(i), h.real(f"a{i}", -10, 10)] for i in range(k)]
    arr = h.mk_array(amps, 0.5, xs, src=(sx, 0.0, 0.0))
    off = [h.ite(h.le(sx, x), x - sx, sx - x) for x in xs]
    for o in off:
        for lim in (lo, hi):
            h.require(h.any_([h.gap(o, lim, 1e-9), h.gap(lim, o, 1e-9)]))
    keep = [h.all_([h.lt(lo, o), h.lt(o, hi)]) for o in off]
    _, e = h.attempt(arr.trim_offsets, lo, hi)
    if e is not None:
        h.check(isinstance(e, ValueError), "no sensor left is a ValueError")
        h.check(h.not_(h.any_(keep)), "refused only when no sensor is within the limits")
        h.check_eq(arr.position(), xs, "a refused selection changes nothing")
        return
    got = [int(h.val(c.amplitude[0])) for c in arr.sensors]
    h.check(got == sorted(got) and len(set(got)) == len(got), "kept sensors stay in order")
    for i in range(k):
        h.check(keep[i] if i in got else h.not_(keep[i]),
                "exactly the sensors strictly within the limits are kept")
    for c, i in zip(arr.sensors, got):
        h.check_eq([c.x, c.amplitude[1]], [xs[i], amps[i][1]], "kept sensors are unchanged")
    h.check(arr.nchannels == len(got) and len(got) > 0, "channel count follows")
    h.check_eq(arr.source.x, sx, "source unchanged")


def edges(h, k=3, side="any"):
    """Whole numbers, where an offset may be exactly a limit: a sensor at a limit is left out."""
    xs = [h.int(f"x{i}", -100, 100) for i in range(k)]
    for i in range(k - 1):
        h.require(h.lt(xs[i], xs[i + 1], 0.0))
    sx = h.int("sx", -200, 200)
    lo, hi = h.int("lo", -2, 300), h.int("hi", 0, 300)
    amps = [[float(i), 1.0] for i in range(k)]
    arr = h.mk_array(amps, 0.5, xs, src=(sx, 0.0, 0.0))
    off = [h.ite(h.le(sx, x), x - sx, sx - x) for x in xs]
    keep = [h.all_([h.lt(lo, o, 0.0), h.lt(o, hi, 0.0)]) for o in off]
    h.require(h.any_([h.any_([h.eq(o, lo, 0.0), h.eq(o, hi, 0.0)]) for o in off]))
    _, e = h.attempt(arr.trim_offsets, lo, hi)
    if e is not None:
        h.check(isinstance(e, ValueError), "no sensor left is a ValueError")
        h.check(h.not_(h.any_(keep)), "refused only when no sensor is within the limits")
        return
    got = [int(h.val(c.amplitude[0])) for c in arr.sensors]
    for i in range(k):
        h.check(keep[i] if i in got else h.not_(keep[i]),
                "exactly the sensors strictly within the limits are kept")
    h.check(arr.nchannels == len(got), "channel count follows")


def large(h, k=18):
    """Many sensors; a range in the middle, at either end, or on both sides of the source."""
    xs = [2.0 * i for i in range(k)]
    where = h.choice("where", ["left", "right", "inside"])
    sx = {"left": -3.0, "right": 2 * k + 1.0, "inside": 13.0}[where]
    lo, hi = h.real("lo", -1, 6), h.real("hi", 3, 60)
    off = [abs(x - sx) for x in xs]
    for o in off:
        for lim in (lo, hi):
            h.require(h.any_([h.gap(o, lim, 1e-9), h.gap(lim, o, 1e-9)]))
    amps = [[float(i), 2.0] for i in range(k)]
    arr = h.mk_array(amps, 0.5, xs, src=(sx, 0.0, 0.0))
    _, e = h.attempt(arr.trim_offsets, lo, hi)
    keep = [h.all_([h.lt(lo, o), h.lt(o, hi)]) for o in off]
    if e is not None:
        h.check(isinstance(e, ValueError), "no sensor left is a ValueError")
        h.check(h.not_(h.any_(keep)), "refused only when no sensor is within the limits")
        h.check(arr.nchannels == k, "a refused selection changes nothing")
        return
    got = [int(h.val(c.amplitude[0])) for c in arr.sensors]
    h.check(got == sorted(got), "kept sensors stay in order")
    for i in range(k):
        h.check(keep[i] if i in got else h.not_(keep[i]),
                "exactly the sensors strictly within the limits are kept")
    h.check_eq(arr.position(), [xs[i] for i in got], "kept sensors are unchanged")


def again(h, k=4):
    """Each selection is of the sensors there are, whatever was asked for before."""
    xs = [2.0 * i for i in range(k)]
    side = h.choice("side", ["left", "right"])
    sx = -3.0 if side == "left" else 2 * k + 1.0
    amps = [[float(i), h.real(f"a{i}", -10, 10)] for i in range(k)]
    arr = h.mk_array(amps, 0.5, xs, src=(sx, 0.0, 0.0))
    left = list(range(k))
    for r in range(3):
        h.check_eq(arr.offsets, [abs(xs[i] - sx) for i in left], "offsets are those of the sensors there are")
        h.check_eq(arr.array_center_distance * len(left), sum(abs(xs[i] - sx) for i in left), "so is the distance of the centre", 1e-9)
        if r == 2:
            break
        lo, hi = h.real(f"lo{r}", -1, 30), h.real(f"hi{r}", 0, 30)
        off = [abs(x - sx) for x in xs]
        for o in off:
            for lim in (lo, hi):
                h.require(h.any_([h.gap(o, lim, 1e-9), h.gap(lim, o, 1e-9)]))
        keep = [h.all_([h.lt(lo, o), h.lt(o, hi)]) for o in off]
        _, e = h.attempt(arr.trim_offsets, lo, hi)
        if e is not None:
            h.check(isinstance(e, ValueError), "no sensor left is a ValueError")
            h.check(h.not_(h.any_([keep[i] for i in left])), "refused only when no sensor is within the limits")
        else:
            got = [int(h.val(c.amplitude[0])) for c in arr.sensors]
            h.check(set(got) <= set(left), "only sensors there were are kept")
            for i in left:
                h.check(keep[i] if i in got else h.not_(keep[i]), "exactly the sensors strictly within the limits are kept")
            left = got
    h.check_eq(arr.timeseriesmatrix(), [amps[i] for i in left], "the sensors there are keep their samples")
    h.check_eq(arr.position(), [xs[i] for i in left], "and positions")


HARNESSES = [
    (again, [dict()], [dict(k=6)]),
    (large, [dict()], [dict(k=40)]),
    (edges, [dict(k=1), dict(k=3)], [dict(k=4)]),
    (select, [dict(k=1), dict(k=2), dict(k=3, side="left"), dict(k=3, side="right"), dict(k=3)],
     [dict(k=4, side="left"), dict(k=4, side="right"), dict(k=4)]),
]
