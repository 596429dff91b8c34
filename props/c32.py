"""C32 peaks survive being saved as JSON."""
from props import pk

BOUNDS = ("1..3 peaks (in one row or a grid) of any values, missing or rejected anywhere, with or without further "
          "attributes; 1..3 members saved to one or several files; every order of writing and appending")


def _peaks(h, tag, k, grid=False, extra=True):
    f, v = pk.values(h, k, tag)
    gone = [h.choice(f"g{tag}{i}", ["here", "missing", "rejected"]) for i in range(k)]
    vv = [pk.NAN if g == "missing" else x for g, x in zip(gone, v)]
    ex = {a: [h.real(f"{a}{tag}{i}", -10, 10) for i in range(k)] for a in (["azimuth", "power"] if extra else [])}
    wrap = (lambda x: [x]) if grid else (lambda x: x)
    p = h.sw.Peaks(wrap(f), wrap(vv), identifier=tag, **{a: wrap(x) for a, x in ex.items()})
    mask = h.np.array(wrap([g == "rejected" for g in gone]))
    pk.drop(h, p, mask)
    return p, f, v, [g == "here" for g in gone], ex


def trip(h, k=2, grid=False, extra=True):
    p, f, v, keep, ex = _peaks(h, "16200-capon", k, grid, extra)
    p.to_json("p.json")
    pk.check_valid(h, p, f, v, keep, "saving changes nothing", ex)
    for q in (h.sw.Peaks.from_json("p.json"), h.sw.PeaksSuite.from_json("p.json")[0]):
        h.check(q.identifier == "16200-capon", "the identifier is read back")
        pk.check_valid(h, q, f, v, keep, "peaks left are read back, rejected ones stay rejected", ex)
        h.check(list(q.attrs) == list(p.attrs), "attributes are read back")
        h.check(q == p, "what is read equals what was saved")
        h.check(tuple(h.np.shape(q._velocity)) == tuple(h.np.shape(p._velocity)), "the arrangement is read back")
        for i in range(k):
            x = (q._frequency[0] if grid else q._frequency)[i]
            h.check_eq(x, f[i], "rejected peaks are still stored")


def suite(h, n=2, files=1):
    ms = [_peaks(h, f"id{i}", 1, extra=False) for i in range(n)]
    if files == 1:
        s = h.sw.PeaksSuite.from_peaks([m[0] for m in ms])
        if h.flag("old"):
            h.dump_json("s.json", {"old": {"frequency": [1.0], "velocity": [2.0]}})
        s.to_json("s.json")
        got = h.sw.PeaksSuite.from_json("s.json")
    else:
        names = []
        for i, m in enumerate(ms):
            m[0].to_json(f"s{i}.json")
            names.append(f"s{i}.json")
        got = h.sw.PeaksSuite.from_json(names)
    h.check(len(got) == n and [p.identifier for p in got.peaks] == [f"id{i}" for i in range(n)],
            "every member is read back in order and nothing else")
    for p, m in zip(got.peaks, ms):
        pk.check_valid(h, p, m[1], m[2], m[3], "members are read back")


def many(h, n=12):
    """A large suite keeps its order, whatever the identifiers are."""
    ids = h.choice("ids", ["up", "down", "text"])
    ids = [str(i) for i in (range(n) if ids == "up" else range(n, 0, -1))] if ids != "text" else \
        [["b", "a", "Z", "a b", "1e3"][i % 5] * (i // 5 + 1) for i in range(n)]
    v = h.reals("v", n, 50, 1000)
    f = h.real("f", 1, 100)
    ms = [h.sw.Peaks([f, 2 * f], [x, 2 * x], identifier=i) for i, x in zip(ids, v)]
    s = h.sw.PeaksSuite.from_peaks(ms)
    pk.drop(h, s[1], h.np.array([True, False]))
    pk.drop(h, s[n - 1], h.np.array([True, True]))
    s.to_json("m.json")
    got = h.sw.PeaksSuite.from_json("m.json")
    h.check([p.identifier for p in got.peaks] == ids and list(got.ids) == ids, "every member is read back in order")
    for i, (p, x) in enumerate(zip(got.peaks, v)):
        pk.check_valid(h, p, [f, 2 * f], [x, 2 * x], [i not in (1, n - 1), i != n - 1], "members are read back")
    h.check(got == s, "the suite read equals the one saved")


def digits(h, n=40):
    """Values of any size, given to many digits, come back as they were."""
    x = h.real("x", 1, 10)
    f = [round(0.0123456789 * (j + 1), 12) for j in range(n)]
    v = [round(123.456789123 + 1.000000789 * j, 9) for j in range(n)]
    sc = [1e-12, 1e12, 1.0]
    pw = [round(1.123456789 + 0.1 * j, 9) * sc[j % 3] for j in range(n)]
    at = [0, 1, n - 1]
    for i in at:
        pw[i] = x * sc[i % 3]
    p = h.sw.Peaks(f, v, identifier="d", power=pw)
    gone = [j % 5 == 3 for j in range(n)]
    pk.drop(h, p, h.np.array(gone))
    p.to_json("d.json")
    for q in (h.sw.Peaks.from_json("d.json"), h.sw.PeaksSuite.from_json("d.json")[0]):
        got = {a: h.tolist(getattr(q, "_" + a)) for a in ("frequency", "velocity", "power")}
        for j in range(n):
            h.check_eq(got["frequency"][j] * 1e3, f[j] * 1e3, "every digit is read back")
            h.check_eq(got["velocity"][j], v[j], "every digit is read back")
            h.check_eq(got["power"][j] / sc[j % 3], pw[j] / sc[j % 3], "every digit is read back")
        pk.check_valid(h, q, f, v, [not g for g in gone], "rejected peaks stay rejected")


def append(h):
    """Appending adds a dataset, refuses an identifier already there, and leaves the rest."""
    a = h.sw.Peaks([h.real("fa", 1, 9)], [h.real("va", 50, 99)], identifier="a")
    ident = h.choice("ident", ["a", "b", "A", "a "])
    b = h.sw.Peaks([h.real("fb", 1, 9)], [h.real("vb", 50, 99)], identifier=ident)
    a.to_json("p.json")
    before = h.load_json("p.json")
    mode = h.choice("mode", ["append", "overwrite"])
    if mode == "overwrite":
        b.to_json("p.json")
        d = h.load_json("p.json")
        h.check(list(d) == [ident], "overwriting leaves the new dataset only")
        return
    _, e = h.attempt(b.to_json, "p.json", append=True)
    d = h.load_json("p.json")
    if ident == "a":
        h.check(isinstance(e, KeyError), "an identifier already in the file is refused with KeyError")
        h.check(d == before, "a refused append leaves the file unmodified")
    else:
        h.check(e is None, "another identifier is appended")
        h.check(list(d) == ["a", ident] and d["a"] == before["a"], "appending keeps what was there")
        h.check_eq(d[ident]["velocity"], pk.shown(h, b, "velocity"), "appending adds the new dataset")
        q = h.sw.Peaks.from_json("p.json")
        h.check(q.identifier == "a", "the first dataset is read")


def dicts(h):
    """Reading from dictionaries leaves them unmodified, and can be repeated."""
    f, v = pk.values(h, 2)
    valid = [bool(h.flag("k0")), bool(h.flag("k1"))]
    d = {"frequency": f, "velocity": v}
    if h.flag("stored"):
        d["valid"] = list(valid)
    else:
        valid = [True, True]
    keys = list(d)
    for _ in range(2):
        p = h.sw.Peaks.from_dict(d, identifier="x")
        pk.check_valid(h, p, f, v, valid, "the validity stored is honoured every time")
        h.check(list(d) == keys, "the dictionary given is not modified")
    s = h.sw.PeaksSuite.from_dict({"x": d, "y": d})
    for q in s.peaks:
        pk.check_valid(h, q, f, v, valid, "the validity stored is honoured in every dataset")


HARNESSES = [
    (trip, [dict(), dict(grid=True), dict(k=1, extra=False)], [dict(k=3)]),
    (suite, [dict(), dict(files=2)], [dict(n=3), dict(n=3, files=3)]),
    (many, [dict(), dict(n=25)]),
    (digits, [dict()], [dict(n=200)]),
    (append, [dict()]),
    (dicts, [dict()]),
]
