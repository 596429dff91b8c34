"""C30 rejecting peaks inside a box."""
from props import pk

BOUNDS = ("1..3 peaks of any positive frequency and velocity with missing peaks; any two corners in either order on "
          "any pair of five quantities; every history of two boxes; 1..2 members")


def _rng(attr):
    if attr in pk.EXTRA:
        return -10, 10
    return {"frequency": (0.01, 1000), "velocity": (10, 6000), "slowness": (0.0001, 0.1), "wavelength": (0.01, 600000),
            "wavenumber": (0.00001, 630)}[attr]


def _keep(h, f, v, xt, xl, yt, yl, extra=None):
    x, y = [extra if t in pk.EXTRA else pk.amount(h, t, f, v) for t in (xt, yt)]
    ins, out = [], []
    for t, q, (a, b) in ((xt, x, xl), (yt, y, yl)):
        if t in pk.EXTRA or t in ("frequency", "velocity"):     # not calculated: exactly
            ins.append(h.any_([h.all_([h.lt(a, q, 0), h.lt(q, b, 0)]), h.all_([h.lt(b, q, 0), h.lt(q, a, 0)])]))
            out.append(h.any_([h.all_([h.le(q, a, 0), h.le(q, b, 0)]), h.all_([h.le(a, q, 0), h.le(b, q, 0)])]))
            continue
        ins.append(h.any_([h.all_([h.gap(a, q, 1e-9), h.gap(q, b, 1e-9)]), h.all_([h.gap(b, q, 1e-9), h.gap(q, a, 1e-9)])]))
        out.append(h.any_([h.all_([h.gap(q, a, 1e-9), h.gap(q, b, 1e-9)]), h.all_([h.gap(a, q, 1e-9), h.gap(b, q, 1e-9)])]))
    i, o = h.all_(ins), h.any_(out)
    h.require(h.any_([i, o]))
    return not bool(i)


def _box(h, t, tag):
    return (h.real(tag + "0", *_rng(t)), h.real(tag + "1", *_rng(t)))


def inside(h, k=2, xt="frequency", yt="velocity"):
    f, v = pk.values(h, k)
    gone = [bool(h.flag(f"nan{i}")) for i in range(k)]
    vv = [pk.NAN if g else x for g, x in zip(gone, v)]
    tag = [float(i) for i in range(k)]
    xl, yl = _box(h, xt, "x"), _box(h, yt, "y")
    keep = [not g and _keep(h, a, b, xt, xl, yt, yl) for g, a, b in zip(gone, f, v)]
    p = h.sw.Peaks(f, vv, noise=tag)
    p.reject_box_inside(xt, xl, yt, yl)
    pk.check_valid(h, p, f, v, keep, "exactly the peaks inside the box are rejected", {"noise": tag})


def given(h, k=2, grid=False):
    """A box on a quantity that came with the peaks, of any sign."""
    f, v = pk.values(h, k)
    attr = h.choice("attr", pk.EXTRA)
    e = h.reals("e", k, -10, 10)
    xl, yl = _box(h, attr, "x"), _box(h, "velocity", "y")
    if h.flag("zero"):
        xl = (0, xl[1])
    wrap = (lambda q: [[a] for a in q]) if grid else (lambda q: q)
    p = h.sw.Peaks(wrap(f), wrap(v), **{attr: wrap(e)})
    if h.flag("swap"):
        keep = [_keep(h, a, b, "velocity", yl, attr, xl, c) for a, b, c in zip(f, v, e)]
        p.reject_box_inside("velocity", yl, attr, xl)
    else:
        keep = [_keep(h, a, b, attr, xl, "velocity", yl, c) for a, b, c in zip(f, v, e)]
        p.reject_box_inside(attr, xl, "velocity", yl)
    pk.check_valid(h, p, f, v, keep, "exactly the peaks inside the box are rejected", {attr: e})


def edges(h):
    """Peaks on a side or corner of the box stay."""
    f, v = pk.values(h, 1)
    xt, yt = h.choice("types", [("frequency", "velocity"), ("velocity", "frequency")])
    x, y = (f[0], v[0]) if xt == "frequency" else (v[0], f[0])
    p = h.sw.Peaks(f, v)
    xl = h.choice("x", [(0.001, x), (x, 9000.0), (0.001, 9000.0), (x, x)])
    yl = h.choice("y", [(0.001, y), (9000.0, y), (y, y)])
    p.reject_box_inside(xt, xl, yt, yl)
    pk.check_valid(h, p, f, v, [True], "a peak on the box's edge is kept")


def history(h, k=1):
    f, v = pk.values(h, k)
    g, w = pk.values(h, k, "b")
    b1 = ("frequency", _box(h, "frequency", "x"), "velocity", _box(h, "velocity", "y"))
    b2 = ("wavelength", (2.0, h.real("z", 5, 50)), "velocity", (100.0, 500.0))
    keep = [[_keep(h, a, b, *b1) & _keep(h, a, b, *b2) for a, b in zip(*q)] for q in ((f, v), (g, w))]
    s = h.sw.PeaksSuite.from_peaks([h.sw.Peaks(f, v, identifier="a"), h.sw.Peaks(g, w, identifier="b")])
    for b in ((b1, b2) if h.flag("order") else (b2, b1)):
        s.reject_box_inside(*b)
    pk.check_valid(h, s[0], f, v, keep[0], "boxes accumulate in every member in any order")
    pk.check_valid(h, s[1], g, w, keep[1], "boxes accumulate in every member in any order")


def many(h, n=24, k=3):
    """Every member of a large suite, some with many peaks, is treated alike."""
    c = h.real("c", 10, 6000)
    ms, keep = [], []
    edge = h.choice("edge", [(100.25, 399.75), (1999.5, 1000.5)])
    for i in range(n):
        m = 70 if i == 1 else k
        f = [round(0.5 + 0.0137 * (i + 1) * (j + 1), 6) for j in range(m)]
        v = [round(50.3 + 113.7 * ((5 * i + 7 * j) % 23), 6) for j in range(m)]
        if i in (0, n - 1):
            v[k - 1] = c
        if i == 1:
            v[66] = c
        ms.append((f, v))
        keep.append([_keep(h, a, b, "frequency", (0.4, 90.0), "velocity", edge) for a, b in zip(f, v)])
    s = h.sw.PeaksSuite.from_peaks([h.sw.Peaks(f, v, identifier=str(i)) for i, (f, v) in enumerate(ms)])
    s.reject_box_inside("frequency", (0.4, 90.0), "velocity", edge)
    for i, (f, v) in enumerate(ms):
        pk.check_valid(h, s[i], f, v, keep[i], "every member of a large suite is treated alike")


HARNESSES = [
    (many, [dict()], [dict(n=60)]),
    (inside, [dict(), dict(xt="wavelength"), dict(xt="wavelength", yt="slowness", k=1), dict(xt="wavenumber", k=1), dict(yt="wavenumber", k=1)],
     [dict(k=3), dict(xt="wavelength", yt="wavenumber")]),
    (given, [dict(k=1), dict(k=1, grid=True)], [dict(), dict(grid=True)]),
    (edges, [dict()]),
    (history, [dict()]),
]
