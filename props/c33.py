"""C33 equality of peaks and suites."""
from props import pk

BOUNDS = ("1..3 peaks of any values against 1..3 peaks, same or different identifier, attributes and rejected peaks; "
          "suites of 1..3 members; 70 peaks and 24 members of which one value differs by any amount; missing values")


def _near(h, a, b):
    return h.all_([h.le(a, b + 1e-9, 0.0), h.le(b, a + 1e-9, 0.0)])


def same(h, a=2, b=2, extra=False):
    f, v = pk.values(h, a)
    g, w = pk.values(h, b, "b")
    ia, ib = "x", h.choice("ib", ["x", "y"])
    ex = h.choice("ex", ["both", "first", "second"]) if extra else "none"
    e1 = {"azimuth": [h.real(f"z{i}", 1, 9) for i in range(a)]} if ex in ("both", "first") else {}
    e2 = {"azimuth": [h.real(f"y{i}", 1, 9) for i in range(b)]} if ex in ("both", "second") else {}
    p, q = h.sw.Peaks(f, v, identifier=ia, **e1), h.sw.Peaks(g, w, identifier=ib, **e2)
    eqs, far = [], []
    if a == b:
        pairs = list(zip(f, g)) + list(zip(v, w))
        if ex == "both":
            pairs += list(zip(e1["azimuth"], e2["azimuth"]))
        for x, y in pairs:
            eqs.append(h.eq(x, y))
            far.append(h.any_([h.gap(x, y, 0.1), h.gap(y, x, 0.1)]))
        h.require(h.any_([h.all_(eqs), h.any_(far)]))
    must = ia == ib and a == b and ex not in ("first", "second") and bool(h.all_(eqs))
    h.check((p == q) is must or bool(p == q) == must, "peaks are equal exactly when identifier, attributes and values are")
    h.check(bool(q == p) == must, "equality goes both ways")
    h.check(bool(p != q) == (not must), "different is not equal")
    s, t = h.sw.PeaksSuite(p), h.sw.PeaksSuite(q)
    h.check(bool(s == t) == must, "suites are equal exactly when their members are")


def rejected(h):
    """Rejecting a peak makes a difference."""
    f, v = pk.values(h, 2)
    p, q = h.sw.Peaks(f, v), h.sw.Peaks(f, v)
    a, b = [bool(h.flag("a0")), bool(h.flag("a1"))], [bool(h.flag("b0")), bool(h.flag("b1"))]
    h.require(h.any_([h.gap(f[0], f[1], 0.1), h.gap(f[1], f[0], 0.1)]))
    pk.drop(h, p, h.np.array(a))
    pk.drop(h, q, h.np.array(b))
    h.check(bool(p == q) == (a == b), "peaks left are what counts")


def blanks(h, k=3):
    """A missing value of an attribute equals a missing value only."""
    f, v = pk.values(h, k)
    x = [h.choice(f"x{i}", ["nan", "zero", "big", "one"]) for i in range(k)]
    y = list(x)
    i = h.choice("i", [None] + list(range(k)))
    if i is not None:
        y[i] = h.choice("y", ["nan", "zero", "big", "one"])
    val = {"nan": pk.NAN, "zero": 0.0, "big": 1e300, "one": 1.0}
    a = h.choice("a", ["noise", "velocity"])
    if a == "noise":
        p, q = [h.sw.Peaks(f, v, noise=[val[c] for c in z]) for z in (x, y)]
    else:
        # a missing velocity is no peak
        p, q = [h.sw.Peaks(f, [val[c] for c in z]) for z in (x, y)]
        for i in range(k):
            for j in range(i):
                h.require(h.any_([h.gap(f[i], f[j], 0.1), h.gap(f[j], f[i], 0.1)]))
    h.check(bool(p == q) == (x == y) and bool(q == p) == (x == y), "missing values equal missing values only")


def long(h, k=70, n=24):
    """Many peaks and many members: one value anywhere makes the difference."""
    f = [0.5 + 0.25 * j for j in range(k)]
    v = [100.0 + 3 * j for j in range(k)]
    d = h.real("d", -50, 50)
    h.require(h.any_([h.eq(d, 0.0), h.gap(d, 0.0, 0.1), h.gap(0.0, d, 0.1)]))
    j = h.choice("j", [0, k // 2, k - 1])
    a = h.choice("a", ["frequency", "velocity", "noise"])
    def mk(x, ident="0"):
        g, w, e = list(f), list(v), [1.0 * q for q in range(k)]
        t = {"frequency": g, "velocity": w, "noise": e}[a]
        t[j] = t[j] + x
        return h.sw.Peaks(g, w, noise=e, identifier=ident)
    h.require(h.gap(f[j] + d, 0.0, 0.01) if a != "noise" else True)
    p, q = mk(0.0), mk(d)
    must = bool(h.eq(d, 0.0))
    h.check(bool(p == q) == must and bool(q == p) == must, "one value anywhere makes peaks different")
    m = h.choice("m", [0, n // 2, n - 1])
    two = lambda x: [h.sw.Peaks([f[i]], [v[i] + (x if i == m else 0.0)], identifier=str(i)) for i in range(n)]  # noqa: E731
    s, t = h.sw.PeaksSuite.from_peaks(two(0.0)), h.sw.PeaksSuite.from_peaks(two(d))
    h.check(bool(s == t) == must and bool(t == s) == must, "one member anywhere makes suites different")


def other(h):
    f, v = pk.values(h, 1)
    p = h.sw.Peaks(f, v)
    x = h.choice("x", [None, 3, "peaks", [1.0], {}])
    h.check(not (p == x) and p != x, "something else is not equal to peaks")
    s = h.sw.PeaksSuite(p)
    h.check(not (s == x) and s != x and not (s == p), "something else is not equal to a suite")


def suites(h, a=2, b=2):
    f, v = pk.values(h, max(a, b))
    ids = ["a", "b", "c"]
    perm = h.flag("perm") if a == b and a > 1 else False
    mk = lambda i: h.sw.Peaks([f[i]], [v[i]], identifier=ids[i])  # noqa: E731
    s = h.sw.PeaksSuite.from_peaks([mk(i) for i in range(a)])
    o = list(range(b))
    if perm:
        o[0], o[1] = o[1], o[0]
    t = h.sw.PeaksSuite.from_peaks([mk(i) for i in o])
    must = a == b and not perm
    h.check(bool(s == t) == must and bool(t == s) == must, "suites are equal exactly when members are, in order")


HARNESSES = [
    (same, [dict(), dict(a=1, b=1), dict(a=1, b=2), dict(a=3, b=1), dict(a=1, b=1, extra=True)], [dict(a=3, b=3), dict(extra=True)]),
    (rejected, [dict()]),
    (blanks, [dict(k=2)], [dict()]),
    (long, [dict()], [dict(k=200, n=60)]),
    (other, [dict()]),
    (suites, [dict(), dict(a=1), dict(a=3, b=2)]),
]
