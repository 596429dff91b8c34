"""C09 stacking several files of one shot position."""
BOUNDS = ("2..4 files of 1..4 traces with 2 samples, 9 (thorough 20) of 16 (48), a file listed up to three times, any samples and stack counts, any trace order within "
          "each file, sensor positions fixed or any, with and without coordinate mapping; SEG2, SU and SEGY")

import itertools  # noqa: E402

from .c07 import NST, SCA, MAPS  # noqa: E402


def _spec(fmt, x, amp, nst, sx, delta=0.5, delay=0, sy=0):
    if fmt == "SEG2":
        return {"format": fmt, "data": amp, "delta": delta, "header": {
            "SOURCE_LOCATION": sx, "RECEIVER_LOCATION": x, "STACK": nst, "DELAY": delay}}
    return {"format": fmt, "data": amp, "delta": delta, "header": {
        SCA: 1, "group_coordinate_x": x, "source_coordinate_x": sx, "source_coordinate_y": sy, NST: nst, "coordinate_units": 1,
        "delay_recording_time": delay}}


def stack(h, fmt="SEG2", files=2, k=2, gap=3, off=0):
    mx, my = MAPS[h.choice("map", ["none", "affine"])]
    g0 = h.int("g0", -100, 100)
    xs = [g0 + gap * i + off for i in range(k)]
    sx = h.int("sx", -300, -150)
    ns = [h.int(f"n{f}", 1, 9) for f in range(files)]
    perms = [list(p) for p in itertools.permutations(range(k))]
    rev = [h.choice(f"order{f}", perms) for f in range(files)]
    amps = [[h.reals(f"a{f}_{i}_", 2, -10, 10) for i in range(k)] for f in range(files)]
    names = []
    for f in range(files):
        names.append(h.stream(f"{f}.dat", [_spec(fmt, xs[i], amps[f][i], ns[f], sx) for i in rev[f]]))
    given = names
    if files == 2 and k == 2:
        import pathlib
        kind = h.choice("names", ["list", "tuple", "paths"])
        given = {"list": names, "tuple": tuple(names), "paths": [pathlib.Path(n) for n in names]}[kind]
    arr = h.sw.Array1D.from_files(given, map_x=mx, map_y=my)
    tot = sum(ns[1:], ns[0])
    h.check(arr.nchannels == k, "one sensor per position")
    for i, c in enumerate(arr.sensors):
        h.check_eq(c.x, mx(xs[i]), "sensors at their mapped positions, ascending")
        for j in range(2):
            w = amps[0][i][j] * ns[0]
            for f in range(1, files):
                w = w + amps[f][i][j] * ns[f]
            h.check_eq(c.amplitude[j] * tot, w, "each sensor is the weighted mean of the traces at its position")
        h.check_eq(c.nstacks, tot, "stack counts add over the files")
    h.check_eq(arr.source.x, mx(sx), "source of the shot")


def repeated(h, fmt="SEG2"):
    """A file listed several times counts as often as it is listed."""
    order = h.choice("order", [(0, 0), (0, 1, 1), (1, 0, 0, 0), (0, 1, 0), (1, 1, 0, 1)])
    ns = [h.int(f"n{f}", 1, 9) for f in range(2)]
    amps = [h.reals(f"a{f}_", 2, -10, 10) for f in range(2)]
    names = [h.stream(f"{f}.dat", [_spec(fmt, 0, amps[f], ns[f], -5), _spec(fmt, 2, [1.0, 0.0], ns[f], -5)])
             for f in range(2)]
    arr = h.sw.Array1D.from_files([names[f] for f in order])
    tot = sum([ns[f] for f in order[1:]], ns[order[0]])
    h.check_eq(arr[0].nstacks, tot, "every listing of a file counts")
    for j in range(2):
        w = amps[order[0]][j] * ns[order[0]]
        for f in order[1:]:
            w = w + amps[f][j] * ns[f]
        h.check_eq(arr[0].amplitude[j] * tot, w, "a file listed twice is stacked twice")


def many(h, fmt="SU", files=9, k=16):
    """Many files of many traces in any order, a mismatch anywhere is refused."""
    f0, i0 = h.choice("file", [1, 4, files - 1]), h.choice("trace", [0, 7, k - 1])
    what = h.choice("what", ["none", "position", "source", "delay", "fewer"])
    d = h.int("d", 1, 9)
    v = h.real("v", -10, 10)
    names = []
    for f in range(files):
        specs = []
        for i in range(k):
            if what == "fewer" and f == f0 and i == i0:
                continue
            amp = [float(i), 1.0]
            hit = f == f0 and i == i0
            if hit:
                amp[1] = v
            specs.append(_spec(fmt, 30 * i + (d if hit and what == "position" else 0), amp, 1,
                               -50 - (d if f == f0 and what == "source" else 0),
                               delay=-(d if hit and what == "delay" else 0)))
        if f % 3 == 1:
            specs = specs[::-1]
        elif f % 3 == 2:
            specs = specs[5:] + specs[:5]
        names.append(h.stream(f"{f}.dat", specs))
    arr, e = h.attempt(h.sw.Array1D.from_files, names)
    if what != "none":
        h.check(isinstance(e, ValueError), f"one file with another {what} is refused with ValueError")
        return
    if e is not None:
        raise e
    h.check_eq(arr.position(), [30 * i for i in range(k)], "one sensor per position")
    for i, c in enumerate(arr.sensors):
        h.check_eq(c.amplitude[0], float(i), "traces are paired by position in every file")
        h.check_eq(c.amplitude[1] * files, files - 1 + v if i == i0 else files, "every file is stacked once")
        h.check_eq(c.nstacks, files, "stack counts add over the files")


def reject(h, fmt="SEG2"):
    """Files of another shot, geometry or sampling are refused."""
    what = h.choice("what", 
                    ["source", "position", "step", "fewer", "more", "samples", "delay"] +
                    (["source y"] if fmt != "SEG2" else []))
    d = h.real("d", -20, 20) if fmt == "SEG2" else h.int("d", -20, 20)
    h.require(h.ne(d, 0) if fmt != "SEG2" else h.any_([h.lt(d, -1e-6), h.lt(1e-6, d)]))
    xs = [0, 3]
    a = [[1.0, 2.0], [3.0, 4.0]]
    h.stream("0.dat", [_spec(fmt, x, v, 1, -10) for x, v in zip(xs, a)])
    sp = []
    for i, x in enumerate(xs):
        v = list(a[i])
        if what == "samples":
            v = v + [0.0]
        sp.append(_spec(fmt, x + d if what == "position" else x, v, 1,
                        -10 + d if what == "source" else -10,
                        0.25 if what == "step" else 0.5, -1 if what == "delay" else 0,
                        d if what == "source y" else 0))
    if what == "fewer":
        sp = sp[:1] if h.flag("keepfirst") else sp[1:]
    elif what == "more":
        sp = sp + [_spec(fmt, 6, [0.0, 0.0], 1, -10)]
    h.stream("1.dat", sp)
    h.check_raises(ValueError, f"a file with different {what} is refused with ValueError",
                   h.sw.Array1D.from_files, ["0.dat", "1.dat"])


def options(h):
    """Read options reach every file that is read."""
    for f in range(3):
        h.stream(f"{f}.dat", [_spec("SEG2", x, [1.0, 2.0], 1, -10) for x in (0, 3)])
    val = h.choice("val", ["SEG2", "SU"])
    h.sw.Array1D.from_files([f"{f}.dat" for f in range(3)], obspy_read_kwargs={"format": val})
    got = h.reads()
    h.check([g[0] for g in got] == [f"{f}.dat" for f in range(3)], "every file is read once, in order")
    h.check([g[1].get("format") for g in got] == [val] * 3, "read options reach every file")


HARNESSES = [
    (stack, [dict(fmt="SEG2"), dict(fmt="SU"), dict(fmt="SEGY", k=1), dict(fmt="SEG2", files=3),
             dict(fmt="SEGY", k=3), dict(fmt="SEG2", k=3), dict(fmt="SU", files=4, k=2), dict(fmt="SEG2", gap=0.25), dict(fmt="SEG2", gap=0.125, off=0.5, k=3), dict(fmt="SEG2", gap=2.0**-7)],
     [dict(fmt="SU", k=4), dict(fmt="SU", files=3, k=3)]),
    (reject, [dict(fmt="SEG2"), dict(fmt="SU")], [dict(fmt="SEGY")]),
    (options, [dict()]),
    (repeated, [dict(fmt="SEG2"), dict(fmt="SU")]),
    (many, [dict()], [dict(fmt="SEG2"), dict(fmt="SEGY", files=20, k=48)]),
]
