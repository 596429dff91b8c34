"""C07 decoding of file headers."""
WITNESS = 80
BOUNDS = ("1..3 traces of 2..3 samples; any 32-bit coordinates, coordinate scalars "
          "0, +-1, +-10, +-100, +-1000, +-10000; stack counts 0..32767, delays of -32768..0 ms; "
          "present, missing and unreadable SEG2 fields")

NST = "number_of_horizontally_stacked_traces_yielding_this_trace"
SCA = "scalar_to_be_applied_to_all_coordinates"
SCALES = [0, 1, -1, 10, -10, 100, -100, 1000, -1000, 10000, -10000]
MAPS = {"none": (lambda v: v, lambda v: v), "affine": (lambda v: 2 * v + 1, lambda v: 3 - v)}


def _scaled(raw, s):
    s = s or 1
    return raw / abs(s) if s < 0 else raw * s


def segy(h, fmt="SU", explicit=False):
    s = h.choice("scale", SCALES)
    gx, gy = h.int("gx", -2147483647, 2147483647), h.int("gy", -2147483647, 2147483647)
    nst = h.int("nst", 0, 32767)
    dl = h.int("delay", -32768, 0)
    data = h.reals("a", 2, -10, 10)
    dt = h.choice("dt", [0.001, 0.5])
    mx, my = MAPS[h.choice("map", ["none", "affine"])]
    st = h.make_stream([{"format": fmt, "data": data, "delta": dt, "header": {
        SCA: s, "group_coordinate_x": gx, "group_coordinate_y": gy, NST: nst,
        "delay_recording_time": dl}}])
    kw = {}
    if explicit:
        kw["format"] = fmt.lower()
        st[0].stats._format = "unknown"
    c = h.sw.Sensor1C.from_trace(st[0], map_x=mx, map_y=my, **kw)
    h.check_eq(c.x, mx(_scaled(gx, s)), "receiver x is the scaled header value, mapped")
    h.check_eq(c.y, my(_scaled(gy, s)), "receiver y is the scaled header value, mapped")
    h.check_eq(c.z, 0.0, "receiver z is zero")
    h.check_eq(c.nstacks, h.ite(h.eq(nst, 0), 1, nst), "stack count from the header, zero read as one")
    h.check_eq(c.delay * 1000, dl, "delay is the header value in milliseconds")
    h.check_eq(c.amplitude, data, "samples unchanged")
    h.check_eq(c.dt, dt, "sampling step unchanged")


def seg2(h):
    data = h.reals("a", 2, -10, 10)
    nst = h.int("nst", 1, 99999)
    dl = h.real("delay", -50, 0)
    x = h.real("x", -100000, 100000)
    mx, my = MAPS[h.choice("map", ["none", "affine"])]
    hd = {}
    p1, p2, p3 = (h.choice(f"have{i}", ["yes", "no", "junk"]) for i in range(3))
    for key, v, p in (("STACK", nst, p1), ("DELAY", dl, p2), ("RECEIVER_LOCATION", x, p3)):
        if p == "yes":
            hd[key] = v
        elif p == "junk":
            hd[key] = "not a number"
    st = h.make_stream([{"format": "SEG2", "data": data, "delta": 0.5, "header": hd}])
    c = h.sw.Sensor1C.from_trace(st[0], map_x=mx, map_y=my)
    h.check_eq(c.nstacks, nst if p1 == "yes" else 1, "SEG2 stack count, default one")
    h.check_eq(c.delay, dl if p2 == "yes" else 0.0, "SEG2 delay, default zero")
    h.check_eq(c.x, mx(x if p3 == "yes" else 0.0), "SEG2 receiver location, default zero, mapped")
    h.check_eq([c.y, c.z], [my(0), 0.0], "SEG2 y (mapped) and z are zero")
    h.check_eq([c.amplitude[0], c.amplitude[1], c.dt], [data[0], data[1], 0.5], "SEG2 samples and step")


def seg2_text(h):
    """SEG2 headers are text: decimal strings are read by value."""
    ip, fp = h.digits("i", 2), h.digits("f", 2)
    dp = h.digits("d", 3)
    sp = h.digits("s", h.choice("stacks", [2, 1, 3, 5]), first_nonzero=True)
    neg = h.flag("neg")
    xs = ("-" if neg else "") + ip + "." + fp
    st = h.make_stream([{"format": "SEG2", "data": [1.0, 2.0], "delta": 0.5,
                         "header": {"STACK": sp, "DELAY": "-0." + dp, "RECEIVER_LOCATION": xs}}])
    c = h.sw.Sensor1C.from_trace(st[0])
    h.check_eq(c.x, h.num(xs), "text receiver location read by value")
    h.check_eq(c.delay, h.num("-0." + dp), "text delay read by value")
    h.check_eq(c.nstacks, h.num(sp), "text stack count read by value")


def no_header(h):
    data = h.reals("a", 2, -10, 10)
    nst = h.int("nst", 1, 99999)
    v = h.reals("v", 3, -10, 10)
    dl = h.real("delay", -50, 0)
    st = h.make_stream([{"format": "SU", "data": data, "delta": 0.5,
                         "header": {SCA: -10, "group_coordinate_x": 77, NST: 9}}])
    c = h.sw.Sensor1C.from_trace(st[0], read_header=False, nstacks=nst, delay=dl, x=v[0], y=v[1], z=v[2])
    h.check_eq([c.x, c.y, c.z, c.nstacks, c.delay], v + [nst, dl], "with read_header=False only the arguments count")
    t = h.sw.ActiveTimeSeries.from_trace(st[0], nstacks=nst, delay=dl)
    h.check_eq([t.nstacks, t.delay, t.dt], [nst, dl, 0.5], "plain record: only the arguments count")
    h.check_eq(t.amplitude, data, "plain record: samples unchanged")


def source(h, fmt="SU", k=2):
    """Arrays read from one file: source, units and every sensor."""
    s = h.choice("scale", [0, 1, -10, 100, -1000])
    units = h.choice("units", [0, 1, 2, 3])
    sx, sy = h.int("sx", -2147483647, 2147483647), h.int("sy", -2147483647, 2147483647)
    gx = [h.int(f"g{i}", -2147483647, 2147483647) for i in range(k)]
    for i in range(k - 1):
        h.require(h.lt(gx[i], gx[i + 1] - 20 if False else gx[i + 1]))
    rev = h.flag("reversed")
    mx, my = MAPS[h.choice("map", ["none", "affine"])]
    amps = [h.reals(f"a{i}_", 2, -10, 10) for i in range(k)]
    order = list(range(k))[::-1] if rev else list(range(k))
    specs = [{"format": fmt, "data": amps[i], "delta": 0.5, "header": {
        SCA: s, "group_coordinate_x": gx[i], "source_coordinate_x": sx, "source_coordinate_y": sy,
        "coordinate_units": units, NST: 2}} for i in order]
    h.stream("shot.su", specs)
    arr, e = h.attempt(h.sw.Array1D.from_files, "shot.su", map_x=mx, map_y=my)
    if units not in (0, 1):
        h.check(isinstance(e, ValueError), "angular coordinate units are refused with ValueError")
        return
    if e is not None:
        raise e
    h.check_eq(arr.source.x, mx(_scaled(sx, s)), "source x is the scaled header value, mapped")
    h.check_eq(arr.source.y, my(_scaled(sy, s)), "source y is the scaled header value, mapped")
    h.check_eq(arr.source.z, 0.0, "source z is zero")
    h.check_eq(arr.position(), [mx(_scaled(g, s)) for g in gx], "sensors at the scaled header positions, ascending")
    h.check_eq(arr.timeseriesmatrix(), amps, "every sensor keeps its own samples")
    h.check_eq([c.nstacks for c in arr.sensors], [2] * k, "every sensor keeps its stack count")


def source_seg2(h, k=2):
    sx = h.real("sx", -100, 100)
    gx = h.reals("g", k, -100, 100)
    for i in range(k):
        for j in range(i):
            h.require(h.ne(gx[i], gx[j]))
    mx, my = MAPS[h.choice("map", ["none", "affine"])]
    amps = [h.reals(f"a{i}_", 2, -10, 10) for i in range(k)]
    h.stream("1.dat", [{"format": "SEG2", "data": amps[i], "delta": 0.5, "header": {
        "SOURCE_LOCATION": sx, "RECEIVER_LOCATION": gx[i], "STACK": 3, "DELAY": -0.5}} for i in range(k)])
    name = h.choice("name", [["1.dat"], "1.dat"])
    arr = h.sw.Array1D.from_files(name, map_x=mx, map_y=my)
    h.check_eq([arr.source.x, arr.source.y, arr.source.z], [mx(sx), my(0.0), 0.0], "SEG2 source position, mapped")
    pos = arr.position()
    for i in range(k - 1):
        h.check(h.lt(pos[i], pos[i + 1]), "sensors ascend")
    for c in arr.sensors:
        h.check(h.any_([h.all_([h.eq(c.x, mx(gx[i])), h.eq(c.amplitude, amps[i])]) for i in range(k)]),
                "each sensor pairs its own position and samples")
        h.check_eq([c.nstacks, c.delay], [3, -0.5], "SEG2 stack count and delay")


def unknown(h):
    st = h.make_stream([{"format": "SAC", "data": [1.0, 2.0], "delta": 0.5, "header": {}}])
    e = h.check_raises(NotImplementedError, "an unknown format is refused", h.sw.Sensor1C.from_trace, st[0])


HARNESSES = [
    (segy, [dict(fmt="SU"), dict(fmt="SEGY"), dict(fmt="SU", explicit=True)], [dict(fmt="SEGY", explicit=True)]),
    (seg2, [dict()]),
    (seg2_text, [dict()]),
    (no_header, [dict()]),
    (source, [dict(fmt="SU"), dict(fmt="SEGY")], [dict(fmt="SU", k=3), dict(fmt="SEGY", k=3)]),
    (source_seg2, [dict(k=2)], [dict(k=3)]),
    (unknown, [dict()]),
]
