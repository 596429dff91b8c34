"""C36 a suite as an array."""
from props import pk

BOUNDS = ("1..3 members of 1..4 peaks at any frequencies and velocities in any order, rejected and missing peaks, "
          "1..3 sampling positions of any value; any pair of quantities; a member of 13 peaks and 14 members with any velocities")


def _expect(h, xs, ys, q, got, label):
    """got is the piecewise linear value at q of the points (xs, ys), NaN outside."""
    n = len(xs)
    out = h.any_([h.all_([h.gap(x, q, 1e-6) for x in xs]), h.all_([h.gap(q, x, 1e-6) for x in xs])])
    if h.is_nan(got):
        h.check(out, label + ": missing exactly outside the peaks")
        return
    h.check(h.not_(out), label + ": missing outside the peaks")
    opts = [h.all_([h.eq(q, x), h.eq(got, y, 1e-6)]) for x, y in zip(xs, ys)]
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            # neighbours: i below q, j above, none between
            c = [h.lt(xs[i], q), h.lt(q, xs[j])]
            c += [h.any_([h.le(xs[k], xs[i]), h.le(xs[j], xs[k])]) for k in range(n) if k not in (i, j)]
            lin = (got - ys[i]) * (xs[j] - xs[i]) - (ys[j] - ys[i]) * (q - xs[i])
            opts.append(h.all_(c + [h.eq(lin, 0.0, 1e-4)]))
    h.check(h.any_(opts), label + ": on the line between the neighbouring peaks")


def interp(h, k=3, xt="frequency", yt="velocity", m=1, gone=False):
    f, v = pk.values(h, k)
    state = [h.choice(f"g{i}", ["here", "missing", "rejected"]) if gone else "here" for i in range(k)]
    vv = [pk.NAN if g == "missing" else x for g, x in zip(state, v)]
    p = h.sw.Peaks(f, vv)
    pk.drop(h, p, h.np.array([g == "rejected" for g in state]))
    keep = [i for i in range(k) if state[i] == "here"]
    xs, ys = [pk.amount(h, xt, f[i], v[i]) for i in keep], [pk.amount(h, yt, f[i], v[i]) for i in keep]
    w = 0.5 if xt in ("frequency", "wavelength") else 0.0005
    for i in range(len(xs)):
        for j in range(i):
            h.require(h.any_([h.gap(xs[i], xs[j], w), h.gap(xs[j], xs[i], w)]))
    q = [h.real(f"q{i}", 0.0, 120) for i in range(m)]
    for a in q:
        for x in xs:
            h.require(h.any_([h.gap(a, x, 1e-4), h.gap(x, a, 1e-4), h.eq(a, x)]) if xt == "frequency"
                      else h.any_([h.gap(a, x, 1e-4), h.gap(x, a, 1e-4)]))
    s = h.sw.PeaksSuite(p)
    xx, arr = s.to_array(xt, yt, list(q))
    h.check_eq(h.tolist(xx), q, "sampling positions are returned as given")
    h.check(tuple(h.np.shape(arr)) == (1, m), "one row per member and one column per position")
    for i in range(m):
        if not keep:
            h.check(h.is_nan(arr[0][i]), "a member without peaks is missing everywhere")
        else:
            _expect(h, xs, ys, q[i], arr[0][i], "value")
    pk.check_valid(h, p, f, v, [g == "here" for g in state], "the peaks are unchanged")


def rows(h, n=3):
    """Each row comes from its own member only."""
    f, v = pk.values(h, 2 * n)
    q = [h.real("q", 10, 20)]
    ps, kinds = [], []
    for i in range(n):
        a, b = 2 * i, 2 * i + 1
        kind = h.choice(f"k{i}", ["two", "one", "none"])
        kinds.append(kind)
        h.require(h.all_([h.gap(f[a], 9.9, 0.1), h.gap(20.1, f[b], 0.1), h.gap(f[a], 2, 0)]) if False else
                  h.all_([h.lt(f[a], 9.9), h.lt(20.1, f[b])]))
        vv = {"two": [v[a], v[b]], "one": [v[a], pk.NAN], "none": [pk.NAN, pk.NAN]}[kind]
        ps.append(h.sw.Peaks([f[a], f[b]], vv, identifier=str(i)))
    s = h.sw.PeaksSuite.from_peaks(ps)
    xx, arr = s.to_array("frequency", "velocity", q)
    h.check(tuple(h.np.shape(arr)) == (n, 1), "one row per member")
    for i in range(n):
        a, b = 2 * i, 2 * i + 1
        if kinds[i] == "two":
            _expect(h, [f[a], f[b]], [v[a], v[b]], q[0], arr[i][0], "own row")
        else:
            h.check(h.is_nan(arr[i][0]), "missing where the member has no peaks around")


def multi(h):
    """Several peaks per frequency: the strongest left is sampled."""
    f = [h.real("f0", 1, 9), h.real("f1", 20, 40)]
    v = [[h.real(f"v{i}{j}", 50, 1000) for j in range(2)] for i in range(2)]
    p = [[h.real(f"p{i}{j}", 0.1, 1) for j in range(2)] for i in range(2)]
    for j in range(2):
        h.require(h.any_([h.gap(p[0][j], p[1][j], 0.01), h.gap(p[1][j], p[0][j], 0.01)]))
    s = h.sw.PeaksSuite(h.sw.Peaks([f, f], v, power=p))
    q = h.real("q", 10, 19)
    ys = [h.ite(h.lt(p[0][j], p[1][j]), v[1][j], v[0][j]) for j in range(2)]
    _, arr = s.to_array("frequency", "velocity", [q])
    _expect(h, f, ys, q, arr[0][0], "strongest peaks")


def many(h, k=13, xt="frequency"):
    """Many peaks in a member, in any of three orders, sampled below, inside and above them."""
    order = h.choice("order", ["up", "down", "mixed"])
    f = [2.0 + 3.0 * i for i in range(k)]
    idx = {"up": list(range(k)), "down": list(range(k))[::-1], "mixed": [(7 * i + 2) % k for i in range(k)]}[order]
    v = [h.real(f"v{i}", 50, 1000) for i in range(k)]
    p = h.sw.Peaks([f[i] for i in idx], [v[i] for i in idx])
    s = h.sw.PeaksSuite(p)
    j = h.choice("j", [0, k // 2, k - 2])
    q = h.real("q", 0.0, 1.0)
    a, b = f[0] - 1.5 + q, f[-1] + 0.5 + q
    _, arr = s.to_array(xt, "velocity", [a, f[j] + 3 * q, b])
    h.check(h.is_nan(arr[0][0]) and h.is_nan(arr[0][2]), "missing outside the peaks")
    h.check_eq(arr[0][1], v[j] + (v[j + 1] - v[j]) * q, "on the line between the neighbouring peaks", 1e-5)


def members(h, n=14):
    """Many members: each row is that of its own member."""
    v = [[h.real(f"v{i}_{j}", 50, 1000) if i in (0, n - 1) else 100.0 + 10 * i + 3 * j for j in range(2)] for i in range(n)]
    s = h.sw.PeaksSuite.from_peaks([h.sw.Peaks([10.0, 20.0], r, identifier=str(i)) for i, r in enumerate(v)])
    q = h.real("q", 10.5, 19.5)
    _, arr = s.to_array("frequency", "velocity", [q])
    h.check(tuple(h.np.shape(arr)) == (n, 1), "one row per member")
    for i, r in enumerate(v):
        h.check_eq(arr[i][0], r[0] + (r[1] - r[0]) * (q - 10.0) / 10.0, "own row", 1e-5)


def own(h):
    """The array stands on its own: neither the positions handed in nor later changes reach it, and asking again answers from the peaks there are."""
    v = h.reals("v", 2, 50, 3000)
    new = h.real("new", 50, 3000)
    s = h.sw.PeaksSuite.from_peaks([h.sw.Peaks([10.0, 20.0], [v[0], v[1]], identifier="a"), h.sw.Peaks([10.0, 20.0], [300.0, 500.0], identifier="b")])
    q = h.np.array([10.0, 15.0])
    xx, arr = s.to_array("frequency", "velocity", q)
    q[0] = 99.0
    h.check_eq(xx, [10.0, 15.0], "the returned positions are not those handed in")
    want = [[v[0], (v[0] + v[1]) / 2], [300.0, 400.0]]
    h.check_eq(arr, want, "one row per member", 1e-6)
    arr[0][0] = 1.0
    xx[1] = 1.0
    xx2, arr2 = s.to_array("frequency", "velocity", [10.0, 15.0])
    h.check_eq(xx2, [10.0, 15.0], "asked again, the positions are as given")
    h.check_eq(arr2, want, "asked again, the values are as before", 1e-6)
    s.append(h.sw.Peaks([10.0, 20.0], [new, new], identifier="c"))
    s.reject_limits_outside("velocity", (200.0, 400.0)) if h.flag("reject") else None
    xx3, arr3 = s.to_array("frequency", "velocity", [10.0, 15.0])
    fresh = h.sw.PeaksSuite.from_peaks([h.sw.Peaks(h.tolist(p.frequency), h.tolist(p.velocity), identifier=p.identifier) for p in s])
    _, arr4 = fresh.to_array("frequency", "velocity", [10.0, 15.0])
    a3, a4 = h.tolist(arr3), h.tolist(arr4)
    h.check(len(a3) == 3 and len(a4) == 3, "one row per member")
    for r, w in zip(a3, a4):
        for x, y in zip(r, w):
            if h.is_nan(x) or h.is_nan(y):
                h.check(h.is_nan(x) and h.is_nan(y), "asked again, the values are those of the peaks there are")
            else:
                h.check_eq(x, y, "asked again, the values are those of the peaks there are", 1e-6)


HARNESSES = [
    (own, [dict()]),
    (many, [dict(), dict(k=50)], [dict(k=120)]),
    (members, [dict()], [dict(n=40)]),
    (interp, [dict(), dict(k=2, m=2), dict(k=2, xt="wavelength"), dict(k=2, yt="slowness"), dict(k=1), dict(k=3, gone=True)],
     [dict(k=4), dict(xt="wavelength"), dict(k=2, xt="wavelength", yt="slowness"), dict(k=3, m=2)]),
    (rows, [dict(n=2), dict()], [dict(n=4)]),
    (multi, [dict()]),
]
