"""C29 rejecting peaks outside limits."""
from props import pk

BOUNDS = ("1..4 peaks of any positive frequency and velocity with missing peaks; limits on any of five quantities on "
          "either or both sides; every history of two rejections")


def _lims(h, attr, tag=""):
    if attr in pk.EXTRA:
        lo, hi = -10, 10
    else:
        lo, hi = {"frequency": (0.01, 1000), "velocity": (10, 6000), "slowness": (0.0001, 0.1), "wavelength": (0.01, 600000),
            "wavenumber": (0.00001, 630)}[attr]
    side = h.choice("side" + tag, ["both", "low", "high"])
    a = None if side == "high" else h.real("lo" + tag, lo, hi)
    b = None if side == "low" else h.real("hi" + tag, lo, hi)
    return a, b


def _inside(h, x, lo, hi, tol):
    """x is within the limits for certain / outside for certain (values that
    are calculated may be off by rounding, others are compared exactly)."""
    i, o = [], []
    if tol == 0:
        if lo is not None:
            i.append(h.le(lo, x, 0))
            o.append(h.lt(x, lo, 0))
        if hi is not None:
            i.append(h.le(x, hi, 0))
            o.append(h.lt(hi, x, 0))
        return h.all_(i), h.any_(o)
    if lo is not None:
        i.append(h.gap(lo, x, tol))
        o.append(h.gap(x, lo, tol))
    if hi is not None:
        i.append(h.gap(x, hi, tol))
        o.append(h.gap(hi, x, tol))
    return h.all_(i), h.any_(o)


def _tol(attr):
    return 0 if attr in ("frequency", "velocity") or attr in pk.EXTRA else 1e-9


def outside(h, k=3, attr="velocity", grid=False):
    f, v = pk.values(h, k)
    gone = [bool(h.flag(f"nan{i}")) for i in range(k)] if k < 4 else [False] * k
    vv = [pk.NAN if g else x for g, x in zip(gone, v)]
    tag = [float(i) for i in range(k)]
    lo, hi = _lims(h, attr)
    keep = []
    for i in range(k):
        if gone[i]:
            keep.append(False)
            continue
        x = pk.amount(h, attr, f[i], v[i])
        ins, out = _inside(h, x, lo, hi, _tol(attr))
        h.require(h.any_([ins, out]))
        keep.append(not bool(out))
    if grid:
        two = lambda x: [x[:k // 2], x[k // 2:]]  # noqa: E731
        p = h.sw.Peaks(two(f), two(vv), power=two(tag))
    else:
        p = h.sw.Peaks(f, vv, power=tag)
    p.reject_limits_outside(attr, (lo, hi))
    pk.check_valid(h, p, f, v, keep, "exactly the peaks beyond the limits are rejected", {"power": tag})


def edges(h, attr="velocity"):
    """Peaks exactly at a limit stay."""
    f, v = pk.values(h, 1)
    p = h.sw.Peaks(f, v)
    x = f[0] if attr == "frequency" else v[0]
    side = h.choice("side", ["low", "high", "both"])
    p.reject_limits_outside(attr, (None if side == "high" else x, None if side == "low" else x))
    pk.check_valid(h, p, f, v, [True], "peaks at a limit are kept")


def given(h, k=2, grid=False):
    """Limits on a quantity that came with the peaks, of any sign, zero included."""
    f, v = pk.values(h, k)
    attr = h.choice("attr", pk.EXTRA)
    x = h.reals("x", k, -10, 10)
    lo, hi = _lims(h, attr)
    at = h.choice("at", ["any", "zero", "one"]) if not grid else "any"
    if at != "any":
        z = {"zero": 0, "one": 1.0}[at]
        lo, hi = (z if lo is not None else None), (hi if lo is not None else z)
    keep = [not bool(_inside(h, q, lo, hi, 0)[1]) for q in x]
    wrap = (lambda q: [[a] for a in q]) if grid else (lambda q: q)
    other = "power" if attr == "noise" else "noise"
    tag = [float(i) for i in range(k)]
    p = h.sw.Peaks(wrap(f), wrap(v), **{attr: wrap(x), other: wrap(tag)})
    p.reject_limits_outside(attr, [lo, hi] if h.flag("list") else (lo, hi))
    pk.check_valid(h, p, f, v, keep, "exactly the peaks beyond the limits are rejected", {attr: x, other: tag})


def emptied(h, n=3):
    """Limits that leave nothing of some members, given again and again."""
    ms = [pk.values(h, 2, str(i)) for i in range(n)]
    attr = h.choice("attr", ["velocity", "wavelength"])
    top = 200.0 if attr == "velocity" else 10.0
    s = h.sw.PeaksSuite.from_peaks([h.sw.Peaks(f, v, identifier=str(i)) for i, (f, v) in enumerate(ms)])
    keep = []
    for f, v in ms:
        row = []
        for a, b in zip(f, v):
            i, o = _inside(h, pk.amount(h, attr, a, b), 50.0 if attr == "velocity" else 1.0, top, _tol(attr))
            h.require(h.any_([i, o]))
            row.append(not bool(o))
        keep.append(row)
    lo = 50.0 if attr == "velocity" else 1.0
    for lims in ((lo, top), (lo, top), (None, top)):
        s.reject_limits_outside(attr, lims)
    for i, (f, v) in enumerate(ms):
        pk.check_valid(h, s[i], f, v, keep[i], "every member is limited, to nothing if need be")


def neither(h):
    f, v = pk.values(h, 2)
    p = h.sw.Peaks(f, v)
    p.reject_limits_outside(h.choice("attr", pk.DERIVED), (None, None))
    pk.check_valid(h, p, f, v, [True, True], "no limits reject nothing")


def history(h, k=2):
    """Rejections accumulate and their order does not matter; the suite treats all members alike."""
    f, v = pk.values(h, k)
    g, w = pk.values(h, k, "b")
    a1, a2 = h.choice("a1", ["frequency", "wavelength"]), h.choice("a2", ["velocity", "frequency"])
    l1, l2 = _lims(h, a1, "1"), _lims(h, a2, "2")

    def keep(fs, vs):
        out = []
        for x, y in zip(fs, vs):
            r = []
            for a, l in ((a1, l1), (a2, l2)):
                i, o = _inside(h, pk.amount(h, a, x, y), l[0], l[1], _tol(a))
                h.require(h.any_([i, o]))
                r.append(bool(o))
            out.append(not any(r))
        return out
    ka, kb = keep(f, v), keep(g, w)
    s = h.sw.PeaksSuite(h.sw.Peaks(f, v, identifier="a"))
    s.append(h.sw.Peaks(g, w, identifier="b"))
    s.reject_limits_outside(a1, l1)
    s.reject_limits_outside(a2, l2)
    pk.check_valid(h, s[0], f, v, ka, "rejections of a suite accumulate in every member")
    pk.check_valid(h, s[1], g, w, kb, "rejections of a suite accumulate in every member")


def many(h, n=24, k=3):
    """Every member of a large suite, some with many peaks, is treated alike."""
    c = h.real("c", 10, 6000)
    ms, keep = [], []
    attr, lims = h.choice("lims", [("velocity", (100.25, 1999.5)), ("frequency", (0.6137, None)), ("velocity", (None, 1000.5))])
    for i in range(n):
        m = 70 if i == 1 else k
        f = [round(0.5 + 0.0137 * (i + 1) * (j + 1), 6) for j in range(m)]
        v = [round(50.3 + 113.7 * ((5 * i + 7 * j) % 23), 6) for j in range(m)]
        if i in (0, n - 1):
            v[k - 1] = c
        if i == 1:
            v[66] = c
        ms.append((f, v))
        keep.append([not bool(_inside(h, a if attr == "frequency" else b, lims[0], lims[1], 0)[1]) for a, b in zip(f, v)])
    s = h.sw.PeaksSuite.from_peaks([h.sw.Peaks(f, v, identifier=str(i)) for i, (f, v) in enumerate(ms)])
    s.reject_limits_outside(attr, lims)
    for i, (f, v) in enumerate(ms):
        pk.check_valid(h, s[i], f, v, keep[i], "every member of a large suite is treated alike")


def joined(h, attr="velocity"):
    """Limits given again apply again: to members that joined meanwhile."""
    v = h.reals("v", 4, 10, 6000)
    lo, hi = h.real("lo", 10, 6000), h.real("hi", 10, 6000)
    h.require(h.lt(lo, hi))
    mk = lambda a, b, nm: h.sw.Peaks([5.0, 8.0], [a, b], identifier=nm)  # noqa: E731
    s = h.sw.PeaksSuite(mk(v[0], v[1], "a"))
    lims = (lo, hi)
    s.reject_limits_outside(attr, lims)
    x = h.choice("then", ["append", "again"])
    if x == "append":
        s.append(mk(v[2], v[3], "b"))
    s.reject_limits_outside(attr, lims)
    for j, p in enumerate(s):
        keep = [bool(h.all_([h.le(lo, w, 0), h.le(w, hi, 0)])) for w in v[2 * j:2 * j + 2]]
        pk.check_valid(h, p, [5.0, 8.0], v[2 * j:2 * j + 2], keep, "exactly the peaks beyond the limits are rejected, each time")
    h.check(lims == (lo, hi), "the limits handed in stay")


HARNESSES = [
    (joined, [dict()]),
    (many, [dict()], [dict(n=60)]),
    (outside, [dict(attr=a, k=2) for a in pk.DERIVED] + [dict(k=4, grid=True), dict()], [dict(k=4, attr="wavelength", grid=True), dict(attr="slowness")]),
    (edges, [dict(), dict(attr="frequency")]),
    (given, [dict(), dict(k=3, grid=True)]),
    (emptied, [dict(n=2)], [dict()]),
    (neither, [dict()]),
    (history, [dict(k=1)], [dict()]),
]
