"""C48 statistics of a whole data matrix."""
from props import pk
from props.c37 import _sq
from props.c43 import NAN, _moments

BOUNDS = ("matrices of 3..5 observations at 1..3 positions (also of large variation) and 40 at 6 of which one value is free, all values there, or in one region with "
          "up to 2 missing that are drawn again up to 3 times, at values of the order of 1e2, 1e-3 and 1e-7; positions with too few values dropped; suites of 3 members")


def _cell(d, g, i, j):
    return NAN if (i, j) in g else d[i][j]


def _same(h, s, xx, cols, filled, label):
    """s holds position, mean and deviation of the values there are and the correlation of the columns filled."""
    m = len(xx)
    h.check_eq(h.tolist(s.xx), xx, label + ": positions")
    h.check(len(s.mean) == m and len(s.stddev) == m and tuple(h.np.shape(s.corr)) == (m, m), label + ": one per position")
    for j in range(m):
        _moments(h, cols[j], s.mean[j], s.stddev[j])
    for a in range(m):
        for b in range(m):
            saa, sbb, sab = _sq(h, filled[a], filled[b])
            x = s.corr[a][b]
            h.check_eq(x * x * saa * sbb / 1e6, sab * sab / 1e6, label + ": correlation (squared)", 1e-4)
            h.check(h.le(-1e-6, x * sab), label + ": correlation (sign)")


def complete(h, n=4, m=2, free=2, few=(), kind="any"):
    """Without missing values everything follows from the values."""
    xx = [round(2.5 * 1.5 ** j, 4) for j in range(m + len(few))]
    d = [[float((7 * i * i + 3 * i * j + 5 * j + 11 * i) % 23) + 100.0 for j in range(len(xx))] for i in range(n)]
    for q in range(free):
        d[n - 1 - q][q % m] = h.real(f"v{q}", 90, 130)
    # positions with two values or fewer
    gone = {(i, m + q) for q, c in enumerate(few) for i in range(c, n)}
    given = [[_cell(d, gone, i, j) for j in range(len(xx))] for i in range(n)]
    arr = h.np.array(given)
    pos = h.arr(list(xx))
    S = h.mod("stats").Statistics
    kw = {}
    if few and min(few) == 2 and h.flag("count"):
        kw["drop_kwargs"] = {"drop_sample_if_fewer_count": 3}
    if few and min(few) > 2:
        # these are dropped only because it is asked for
        kw["drop_kwargs"] = h.choice("drop", [{"drop_sample_if_fewer_count": n}, {"drop_sample_if_fewer_percent": 1.0},
                                              {"drop_sample_if_fewer_percent": 0.9375, "drop_sample_if_fewer_count": 1}])
    s = S.from_data_matrix(pos, arr, **kw)
    cols = [[d[i][j] for i in range(n)] for j in range(m)]
    _same(h, s, xx[:m], cols, cols, "of all values")
    h.check_eq(h.tolist(pos), xx, "the positions handed in stay")
    for i in range(n):
        for j in range(len(xx)):
            a, b = arr[i][j], given[i][j]
            h.check(h.is_nan(a) if h.is_nan(b) else h.eq(a, b, 0.0), "the matrix handed in stays")


def drawn(h, n=5, m=2, gone=((4, 1),), attempts=2, vary=None, size=1.0):
    """A missing value is drawn until mean and variation stay about the same."""
    gone = [tuple(q) for q in gone]
    d = [[float((7 * i * i + 3 * i * j + 5 * j + 11 * i) % 23) + 100.0 for j in range(m)] for i in range(n)]
    if vary:
        d = [[float(x) for _ in range(m)] for x in list(vary) + [0.0]]
        n = len(d)
    given = [[_cell([[x * size for x in r] for r in d], set(gone), i, j) for j in range(m)] for i in range(n)]
    S = h.mod("stats")
    log = []
    matrix, place = h.np.array(given), h.np.array([2.0 + j for j in range(m)])

    level = size  # everything below is in units of it

    class Rng:
        def normal(self, loc=0.0, scale=1.0, size=None):
            x = h.real(f"z{len(log)}", 20 if vary else 60, 300 if vary else 160)
            log.append((loc / level, scale / level, x))
            return x * level if size is None else h.np.array([x * level])

    old = S.default_rng
    S.default_rng = lambda *a, **k: Rng()
    try:
        s, e = h.attempt(S.Statistics.from_data_matrix, place, matrix,
                         replacement_attempts=attempts, **({"density_threshold": 0.5} if vary else {}))
    finally:
        S.default_rng = old
    h.check_eq(h.tolist(place), [2.0 + j for j in range(m)], "the positions handed in stay")
    for i in range(n):
        for j in range(m):
            x = matrix[i][j]
            h.check(h.is_nan(x) if (i, j) in gone else h.eq(x, d[i][j] * size, 0.0), "the matrix handed in stays")
    k = len(gone)
    h.check(len(log) % k == 0 and 1 <= len(log) // k <= attempts, "missing values are drawn together, at most as often as asked for")
    at = sorted(gone, key=lambda q: q[::-1])
    cols = [[d[i][j] for i in range(n) if (i, j) not in gone] for j in range(m)]

    def stat(c):
        t = c[0]
        for x in c[1:]:
            t = t + x
        mu = t / len(c)
        ss = 0.0
        for x in c:
            ss = ss + (x - mu) * (x - mu)
        return mu, ss / (len(c) - 1)

    # per round of draws: the mean moves by less than 5 %, the coefficient of variation by less than 0.01
    for r in range(len(log) // k):
        zs = log[r * k:r * k + k]
        near, far = [], []
        full = []
        for j in range(m):
            mine = [z[2] for z, q in zip(zs, at) if q[1] == j]
            for z, q in zip(zs, at):
                if q[1] == j:
                    h.check_eq(z[0] * len(cols[j]), sum(cols[j][1:], cols[j][0]), "draws have the mean of the values there are", 1e-6)
            full.append(cols[j] + mine)
            if not mine:
                continue
            m0, v0 = stat(cols[j])
            m1, v1 = stat(full[-1])
            off = (m1 - m0) / m0
            near.append(h.all_([h.gap(off, 0.05, 1e-4), h.gap(-0.05, off, 1e-4)]))
            far.append(h.any_([h.gap(0.05, off, 1e-4), h.gap(off, -0.05, 1e-4)]))
            # |sd1/m1 - sd0/m0| < 0.01, by squares of sd1/m1 (sd0 is a number)
            c0 = (float(v0) ** 0.5) / float(m0)
            lo, hi = max(c0 - 0.01, 0.0), c0 + 0.01
            q = v1
            near.append(h.all_([h.gap(lo * lo * m1 * m1, q, 1e-3), h.gap(q, hi * hi * m1 * m1, 1e-3)] if lo > 0
                               else [h.gap(q, hi * hi * m1 * m1, 1e-3)]))
            far.append(h.any_([h.gap(q, lo * lo * m1 * m1, 1e-3), h.gap(hi * hi * m1 * m1, q, 1e-3)] if lo > 0
                              else [h.gap(hi * hi * m1 * m1, q, 1e-3)]))
        ok, no = h.all_(near), h.any_(far)
        last = r == len(log) // k - 1
        if last and e is None:
            h.check(h.not_(no), "draws are used when mean and variation stay about the same")
            filled = [[d[i][j] if (i, j) not in gone else zs[at.index((i, j))][2] for i in range(n)] for j in range(m)]
            h.check_eq(h.tolist(s.xx), [2.0 + j for j in range(m)], "positions stay")
            for j in range(m):
                _moments(h, cols[j], s.mean[j] / level, s.stddev[j] / level)
            for a in range(m):
                for b in range(m):
                    saa, sbb, sab = _sq(h, filled[a], filled[b])
                    h.check_eq(s.corr[a][b] * s.corr[a][b] * saa * sbb / 1e4, sab * sab / 1e4, "correlation of the values filled (squared)", 1e-4)
        else:
            h.check(h.not_(ok), "draws are discarded only when mean or variation would change")
    if e is not None:
        h.check(isinstance(e, ValueError) and len(log) == k * attempts, "when no draw will do the matrix is refused with ValueError")


def suite(h, n=3):
    """A suite's statistics are those of the suite as an array."""
    v = [[float((7 * i * i + 3 * i * j + 5 * j + 11 * i) % 23) + 100.0 for j in range(2)] for i in range(n)]
    v[n - 1][0] = h.real("v", 90, 130)
    ms = [h.sw.Peaks([10.0, 20.0], r, identifier=str(i)) for i, r in enumerate(v)]
    st = h.sw.PeaksSuite.from_peaks(ms)
    q = [12.5, 17.5]
    s = h.mod("stats").Statistics.from_peakssuite(st, q, xtype="frequency")
    h.check(s is not None, "statistics are returned")
    if s is None:
        return
    cols = [[r[0] + (r[1] - r[0]) * (x - 10.0) / 10.0 for r in v] for x in q]
    _same(h, s, q, cols, cols, "of the suite")
    for m, r in zip(ms, v):
        pk.check_valid(h, m, [10.0, 20.0], r, [True, True], "the suite stays")


HARNESSES = [
    (complete, [dict(n=3, m=2), dict(n=5, m=2), dict(n=3, m=3, free=1), dict(n=4, m=1, free=1), dict(n=40, m=6, free=1),
                dict(n=4, m=2, free=1, few=(2, 1)), dict(n=6, m=3, free=1, few=(0,)),
                dict(n=6, m=2, free=1, few=(4,)), dict(n=8, m=1, free=1, few=(5, 3))],
     [dict(n=4, m=3), dict(n=90, m=12, free=1)]),
    (drawn, [dict(m=1, gone=((4, 0),)), dict(), dict(m=1, n=6, gone=((5, 0),), attempts=3), dict(n=6, gone=((5, 1), (4, 0)), attempts=1),
             dict(m=1, gone=((3, 0),), attempts=1, vary=(100, 140, 60)), dict(m=1, gone=((4, 0),), attempts=2, vary=(100, 200, 60, 150)),
             dict(m=1, gone=((3, 0),), attempts=1, vary=(100, 140, 60), size=2.0 ** -16), dict(m=1, n=6, gone=((5, 0),), size=2.0 ** -30)],
     [dict(n=6, attempts=3, gone=((5, 1), (4, 0)))]),
    (suite, [dict()], [dict(n=6)]),
]
