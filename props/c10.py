"""C10 array construction and equality."""
BOUNDS = ("1..4 sensors, and 24 (thorough 60) with one odd sensor, with any positions in any order, any step, delay, stack count; records of 2 samples")


def build(h, k=3):
    xs = h.reals("x", k, -50, 50)
    ys, zs = h.reals("y", k, -5, 5), h.reals("z", k, -5, 5)
    amps = [h.reals(f"a{i}_", 2, -10, 10) for i in range(k)]
    src = h.reals("s", 3, -99, 99)
    ns, de = h.int("ns", 1, 9), h.real("de", -1, 0)
    sensors = [h.sw.Sensor1C(a, 0.5, x, y, z, nstacks=ns, delay=de) for a, x, y, z in zip(amps, xs, ys, zs)]
    given = list(sensors)
    dup = h.any_([h.eq(xs[i], xs[j]) for i in range(k) for j in range(i)]) if k > 1 else False
    arr, e = h.attempt(h.sw.Array1D, sensors, h.sw.Source(*src))
    if e is not None:
        h.check(isinstance(e, ValueError), "refusal is a ValueError")
        h.check(dup, "only sensors sharing a position are refused")
        return
    h.check(h.not_(dup), "sensors sharing a position are refused")
    pos = arr.position()
    h.check(arr.nchannels == k and len(pos) == k, "every sensor is kept")
    for i in range(k - 1):
        h.check(h.not_(h.le(pos[i + 1], pos[i], 0.0)), "sensors are ordered by increasing position")
    for c in arr.sensors:
        h.check(h.any_([h.all_([h.eq([c.x, c.y, c.z], [xs[i], ys[i], zs[i]]), h.eq(c.amplitude, amps[i])])
                        for i in range(k)]), "each sensor keeps its own samples and position")
    h.check_eq([arr.source.x, arr.source.y, arr.source.z], src, "source kept")
    h.check(len(sensors) == len(given) and all([p is q for p, q in zip(sensors, given)]),
            "the caller's list is unchanged")
    sensors.pop()
    h.check(arr.nchannels == k, "later changes of the caller's list do not reach the array")


def large(h, k=24):
    """Many sensors: order, duplicates, mismatches and equality see every one of them."""
    what = h.choice("what", ["same", "duplicate", "sample", "position", "dt", "delay", "nstacks", "y"])
    i = h.choice("i", [0, 1, 9, 17, k - 2, k - 1])
    xs = [float((7 * j) % k) * 2.5 for j in range(k)]
    d = h.real("d", 0.05, 2.0)
    s = h.reals("s", 2, -10, 10)

    def mk(odd):
        out = []
        for j in range(k):
            hit = odd and j == i
            x = xs[j] + (d if hit and what == "position" else 0.0)
            if hit and what == "duplicate":
                x = xs[(i + 11) % k]
            amp = [s[0], s[1] + (d if hit and what == "sample" else 0.0), float(j)]
            out.append(h.sw.Sensor1C(amp, 0.5 + (d if hit and what == "dt" else 0.0), x,
                                     d if hit and what == "y" else 0.0, 0.0,
                                     nstacks=3 if hit and what == "nstacks" else 2,
                                     delay=-1.0 - (d if hit and what == "delay" else 0.0)))
        return h.sw.Array1D(out, h.sw.Source(-5, 0, 0))
    a = mk(False)
    h.check_eq(a.position(), sorted(xs), "sensors are ordered by increasing position")
    for c in a.sensors:
        j = int(h.val(c.amplitude[2]))
        h.check_eq(c.x, xs[j], "each sensor keeps its own samples and position")
    b, e = h.attempt(mk, True)
    if what in ("duplicate", "dt", "delay", "nstacks"):
        h.check(isinstance(e, ValueError), f"a sensor with {what} is refused with ValueError")
        return
    if e is not None:
        raise e
    h.check(bool(a == b) == (what == "same"), f"array equality sees {what}")
    h.check(bool(b == a) == (what == "same"), f"array equality sees {what} from either side")


def mixed(h, k=3):
    """Sensors recorded differently never form an array."""
    what = h.choice("what", ["dt", "nstacks", "delay", "nsamples"])
    i = h.choice("i", range(k))
    d1, d2 = h.real("d1", 0.01, 1), h.real("d2", 0.01, 1)
    n1, n2 = h.int("n1", 1, 9), h.int("n2", 1, 9)
    e1, e2 = h.real("e1", -1, 0), h.real("e2", -1, 0)
    h.require(h.all_([h.ne(d1, d2), h.ne(n1, n2), h.ne(e1, e2)]))
    sensors = []
    for j in range(k):
        odd = j == i
        amp = [1.0, 2.0, 3.0] if odd and what == "nsamples" else [1.0, 2.0]
        sensors.append(h.sw.Sensor1C(amp, d2 if odd and what == "dt" else d1, 2.0 * j, 0, 0,
                                     nstacks=n2 if odd and what == "nstacks" else n1,
                                     delay=e2 if odd and what == "delay" else e1))
    h.check_raises(ValueError, f"sensors with different {what} are refused with ValueError",
                   h.sw.Array1D, sensors, h.sw.Source(-5, 0, 0))


def equality(h, k=2):
    what = h.choice("what", ["same", "order", "source", "position", "sample", "channels", "other"])
    xs = [0.0, 2.0, 4.0][:k]
    amps = [h.reals(f"a{i}_", 2, -10, 10) for i in range(k)]
    src = h.reals("s", 3, -99, 99)
    d = h.real("d", -0.5, 0.5)
    h.require(h.any_([h.lt(d, -0.05), h.lt(0.05, d)]))

    def mk(amps, xs, src, order=None):
        ss = [h.sw.Sensor1C(a, 0.5, x, 0, 0) for a, x in zip(amps, xs)]
        if order:
            ss = ss[::-1]
        return h.sw.Array1D(ss, h.sw.Source(*src))
    a = mk(amps, xs, src)
    if what == "other":
        h.check(not (a == 3) and not (a == None), "an array never equals something else")  # noqa: E711
        h.check(a.is_similar(3) is False, "an array is never similar to something else")
        return
    amps2, xs2, src2 = [list(v) for v in amps], list(xs), list(src)
    if what == "source":
        j = h.choice("j", range(3))
        src2[j] = src2[j] + d
    elif what == "position":
        j = h.choice("j", range(k))
        xs2[j] = xs2[j] + d
    elif what == "sample":
        j = h.choice("j", range(k))
        m = h.choice("m", range(2))
        amps2[j][m] = amps2[j][m] + d
    elif what == "channels":
        amps2.append([0.0, 0.0])
        xs2.append(9.0)
    b = mk(amps2, xs2, src2, what == "order")
    same = what in ("same", "order")
    h.check(bool(a == b) == same, f"array equality sees {what}")
    h.check(bool(b == a) == same, f"array equality sees {what} from either side")
    if what in ("source", "channels"):
        h.check(not a.is_similar(b), f"similarity sees {what}")
    elif same:
        h.check(bool(a.is_similar(b)), "equal arrays are similar")


HARNESSES = [
    (build, [dict(k=1), dict(k=2), dict(k=3)], [dict(k=4)]),
    (mixed, [dict(k=2), dict(k=3)], [dict(k=4)]),
    (equality, [dict(k=2)], [dict(k=3)]),
    (large, [dict()], [dict(k=60)]),
]
