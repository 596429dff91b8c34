"""C37 statistics of a suite."""
from props import pk

BOUNDS = ("3..4 members with any velocities on 1..3 common frequencies, every pattern of missing or rejected values, any "
          "minimum count 0..4; with and without correlation and mean substitution; 40 positions or 14 members of "
          "which one has a value at one or two positions only")

FRQ = [10.0, 20.0, 30.0]


def _suite(h, n, m, gone="any"):
    """Members that have both ends so that the array holds exactly their velocities."""
    v = [[h.real(f"v{i}_{j}", 50, 1000) for j in range(m)] for i in range(n)]
    if gone == "none":
        g = [[False] * m for _ in range(n)]
    else:
        g = [[bool(h.flag(f"g{i}_{j}")) if gone == "any" or (i, j) in gone else False for j in range(m)] for i in range(n)]
    return v, g


def _stub(h, v, g):
    """A suite whose array form is v with NaN at g."""
    n, m = len(v), len(v[0])
    s = h.sw.PeaksSuite.from_peaks([h.sw.Peaks(FRQ[:m], [pk.NAN if b else a for a, b in zip(*r)], identifier=str(i))
                                    for i, r in enumerate(zip(v, g))])
    data = [[pk.NAN if b else a for a, b in zip(*r)] for r in zip(v, g)]
    s.to_array = lambda xt, yt, xx: (h.np.array(xx), h.np.array(data))
    return s


def stats(h, n=3, m=2, gone="any", count=3, direct=False, sub=False):
    v, g = _suite(h, n, m, gone)
    s = _stub(h, v, g)
    kw = {} if direct else {"drop_sample_if_fewer_count": count}
    if sub:
        kw["mean_substitution"] = True
    xx, mean, std, corr = s.statistics("frequency", "velocity", FRQ[:m], **kw)
    keep = [j for j in range(m) if sum(not g[i][j] for i in range(n)) >= max(count, 1)]
    h.check_eq(h.tolist(xx), [FRQ[j] for j in keep], "positions with enough values are kept, no other")
    h.check(len(mean) == len(keep) and len(std) == len(keep), "one mean and one deviation per position kept")
    h.check(corr is None, "no correlation unless asked for")
    for c, j in enumerate(keep):
        vals = [v[i][j] for i in range(n) if not g[i][j]]
        k = len(vals)
        tot = vals[0]
        for x in vals[1:]:
            tot = tot + x
        h.check_eq(mean[c] * k, tot, "mean of the values there are", 1e-6)
        if k == 1:
            h.check(h.is_nan(std[c]), "no deviation of a single value")
            continue
        mu = tot / k
        ss = 0.0
        for x in vals:
            ss = ss + (x - mu) * (x - mu)
        h.check_eq(std[c] * std[c] * (k - 1), ss, "sample standard deviation of the values there are", 1e-4)
        h.check(h.le(0, std[c]), "deviation is not negative")


def _sq(h, a, b):
    n = len(a)
    ma, mb = a[0], b[0]
    for x in a[1:]:
        ma = ma + x
    for x in b[1:]:
        mb = mb + x
    ma, mb = ma / n, mb / n
    saa = sbb = sab = 0.0
    for x, y in zip(a, b):
        saa = saa + (x - ma) * (x - ma)
        sbb = sbb + (y - mb) * (y - mb)
        sab = sab + (x - ma) * (y - mb)
    return saa, sbb, sab


def corr(h, n=3, m=2, miss=None, sub=False):
    """Correlation of the columns; a missing value is left missing or replaced by its mean."""
    v = [[h.real(f"v{i}_{j}", 100, 110) for j in range(m)] for i in range(n)]
    if n > 2:
        # one member fixed so that columns vary
        v[0] = [150.0 + 7 * j for j in range(m)]
        v[1] = [90.0 - 3 * j for j in range(m)]
    g = [[False] * m for _ in range(n)]
    if miss is not None:
        g[miss[0]][miss[1]] = True
    s = _stub(h, v, g)
    kw = {"mean_substitution": True} if sub else {}
    xx, mean, std, c = s.statistics("frequency", "velocity", FRQ[:m], ignore_corr=False, drop_sample_if_fewer_count=2, **kw)
    h.check(tuple(h.np.shape(c)) == (m, m), "one row and column per position kept")
    cols = []
    for j in range(m):
        have = [v[i][j] for i in range(n) if not g[i][j]]
        tot = have[0]
        for x in have[1:]:
            tot = tot + x
        mu = tot / len(have)
        cols.append([mu if g[i][j] else v[i][j] for i in range(n)])
        h.check_eq(mean[j], mu, "mean is that of the values there are", 1e-6)
        ss = 0.0
        for x in have:
            ss = ss + (x - mu) * (x - mu)
        h.check_eq(std[j] * std[j] * (len(have) - 1), ss, "deviation is that of the values there are", 1e-4)
    for a in range(m):
        for b in range(m):
            x = c[a][b]
            if miss is not None and not sub and miss[1] in (a, b):
                h.check(h.is_nan(x), "no correlation with a position that misses values")
                continue
            saa, sbb, sab = _sq(h, cols[a], cols[b])
            h.check_eq(x * x * saa * sbb / 1e6, sab * sab / 1e6, "Pearson correlation of the columns (squared)", 1e-4)
            h.check(h.le(0, x * sab, 1e-6), "Pearson correlation of the columns (sign)")


def few(h, n=2):
    f, v = pk.values(h, n)
    s = h.sw.PeaksSuite.from_peaks([h.sw.Peaks([f[i]], [v[i]], identifier=str(i)) for i in range(n)])
    h.check_raises(ValueError, "fewer than three members have no statistics", s.statistics, "frequency", "velocity", [1.0, 2.0])


def whole(h):
    """From peaks to statistics in one go."""
    n = 3
    v = [[h.real(f"v{i}_{j}", 50, 1000) for j in range(2)] for i in range(n)]
    q = h.real("q", 5, 25)
    h.require(h.all_([h.any_([h.gap(q, x, 0.01), h.gap(x, q, 0.01)]) for x in (10.0, 20.0)]))
    s = h.sw.PeaksSuite.from_peaks([h.sw.Peaks([20.0, 10.0], [r[1], r[0]], identifier=str(i)) for i, r in enumerate(v)])
    xx, mean, std, c = s.statistics("frequency", "velocity", [q])
    if len(xx) == 0:
        h.check(h.any_([h.lt(q, 10.0), h.lt(20.0, q)]), "positions between the peaks are kept")
        return
    h.check(h.all_([h.le(10.0, q), h.le(q, 20.0)]), "positions outside the peaks are dropped")
    val = [r[0] + (r[1] - r[0]) * (q - 10.0) / 10.0 for r in v]
    h.check_eq(mean[0] * 3, val[0] + val[1] + val[2], "mean of the interpolated values", 1e-5)
    h.check_eq(h.tolist(xx), [q], "position kept as given")


def sparse(h, n=3, m=40, only=(0, 17), count=2, order="up"):
    """Members with a value at a few of many positions count there."""
    have = list(only)
    v = [[h.real(f"v{i}_{j}", 50, 1000) if j in have else 100.0 + 7 * i + j for j in range(m)] for i in range(n)]
    g = [[i == n - 1 and j not in have for j in range(m)] for i in range(n)]
    frq = [1.0 + j for j in range(m)]
    frq = {"up": frq, "down": frq[::-1], "mixed": [frq[(5 * j + 3) % m] for j in range(m)]}[order]
    data = [[pk.NAN if b else a for a, b in zip(*r)] for r in zip(v, g)]
    s = h.sw.PeaksSuite.from_peaks([h.sw.Peaks(frq, r, identifier=str(i)) for i, r in enumerate(data)])
    s.to_array = lambda xt, yt, xx: (h.np.array(xx), h.np.array(data))
    xx, mean, std, corr = s.statistics("frequency", "velocity", frq, drop_sample_if_fewer_count=count)
    keep = [j for j in range(m) if sum(not g[i][j] for i in range(n)) >= count]
    h.check_eq(h.tolist(xx), [frq[j] for j in keep], "positions with enough values are kept, no other")
    h.check(len(mean) == len(keep) and len(std) == len(keep), "one mean and one deviation per position kept")
    for c, j in enumerate(keep):
        vals = [v[i][j] for i in range(n) if not g[i][j]]
        k = len(vals)
        tot = vals[0]
        for x in vals[1:]:
            tot = tot + x
        h.check_eq(mean[c] * k, tot, "mean of the values there are", 1e-6)
        mu, ss = tot / k, 0.0
        for x in vals:
            ss = ss + (x - mu) * (x - mu)
        h.check_eq(std[c] * std[c] * (k - 1), ss, "sample standard deviation of the values there are", 1e-4)


HARNESSES = [
    (sparse, [dict(m=6, order="down"), dict(m=6, order="mixed", only=(2,)), dict(), dict(only=(17,), count=3), dict(n=14, m=3, only=(1,), count=13), dict(n=14, m=3, only=(1,), count=14)],
     [dict(m=60), dict(m=90, only=(3, 80), count=3)]),
    (stats, [dict(), dict(direct=True, m=1), dict(count=2), dict(count=0, m=1), dict(n=4, m=1, count=4),
             dict(n=4, m=3, gone=[(0, 0), (1, 0), (2, 1), (3, 2)], count=3), dict(sub=True, count=1)],
     [dict(m=3), dict(n=4, m=2, count=2), dict(n=4, m=2), dict(count=1, m=3, sub=True)]),
    (corr, [dict(), dict(miss=(2, 1), sub=True), dict(miss=(2, 1)), dict(miss=(2, 0), sub=True, m=3)], [dict(m=3), dict(n=4)]),
    (few, [dict(), dict(n=1)]),
    (whole, [dict()]),
]
