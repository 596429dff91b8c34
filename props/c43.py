"""C43 statistics with missing data."""

BOUNDS = ("matrices of 1..4 rows and 1..3 columns of any values (34 rows or 14 columns with a few missing, 75 rows with most missing) with every pattern of missing ones; any density, share "
          "and count asked for")

NAN = float("nan")


def _matrix(h, n, m, must=None):
    v = [[h.real(f"v{i}_{j}", -100, 100) for j in range(m)] for i in range(n)]
    g = [[must is None or (i, j) not in must for j in range(m)] for i in range(n)]
    g = [[bool(h.flag(f"g{i}_{j}")) if g[i][j] else False for j in range(m)] for i in range(n)]
    d = [[NAN if g[i][j] else v[i][j] for j in range(m)] for i in range(n)]
    return v, g, d


def _St(h):
    return h.mod("stats").Statistics


def _vals(h, x, y):
    """Both missing or both the same value."""
    if h.is_nan(x) or h.is_nan(y):
        return h.is_nan(x) and h.is_nan(y)
    return h.eq(x, y)


def order(h, n=3, m=2):
    """Rows change place as a whole, those with values in the first columns first."""
    v, g, d = _matrix(h, n, m)
    # a tag per row makes rows tell-tale
    for i in range(n):
        d[i].append(float(i))
    r = _St(h)._sort(h.np.array(d))
    h.check(tuple(h.np.shape(r)) == (n, m + 1), "same shape")
    ids = [int(r[i][m]) for i in range(n)]
    h.check(sorted(ids) == list(range(n)), "every row is kept once")
    for i in range(n):
        h.check(h.all_([_vals(h, r[i][j], d[ids[i]][j]) for j in range(m)]), "rows stay whole")
    first = [([j for j in range(m) if not g[k][j]] + [m])[0] for k in ids]
    h.check(first == sorted(first), "rows with values in earlier columns come first")


def regions(h, n=3, m=2):
    """Regions cover every column once, in order, and are as dense as asked for."""
    v, g, d = _matrix(h, n, m, must=[(0, 0)])
    h.require(all([any([not g[i][j] for i in range(n)]) for j in range(m)]))
    t = h.real("threshold", 0, 1)
    r = _St(h)._identify_regions(h.np.array(d), density_threshold=t)
    c = 0
    for (s_row, s_col), (e_row, e_col) in r:
        h.check(int(s_col) == c and int(e_col) > c, "regions follow each other")
        c = int(e_col)
        s_row, e_row = int(s_row), int(e_row)
        h.check(0 <= s_row < e_row <= n and c <= m, "regions lie in the matrix")
        cells = [(i, j) for i in range(s_row, e_row) for j in range(int(s_col), c)]
        have = sum(not g[i][j] for i, j in cells)
        h.check(h.le(t, have / len(cells), 1e-9) if len(cells) > 1 else have == 1, "regions are as dense as asked for")
        for more in ([(e_row, j) for j in range(int(s_col), c)] if e_row < n else [], [(i, c) for i in range(s_row, e_row)] if c < m else []):
            if more:
                grown = (have + sum(not g[i][j] for i, j in more)) / (len(cells) + len(more))
                h.check(h.lt(grown, t), "regions are as large as the density allows")
        h.check(not g[s_row][int(s_col)] and all([g[i][int(s_col)] for i in range(s_row)]) or (s_row, int(s_col)) == (0, 0),
                "a region starts at the first value of its column")
    h.check(c == m, "every column is in a region")


def fill(h, n=3, m=2, given=False):
    """Only what is missing is replaced, by draws from its own column."""
    v, g, d = _matrix(h, n, m, must=[(0, j) for j in range(m)] + [(1, j) for j in range(m)])
    draws = []

    class Rng:
        def normal(self, loc=0.0, scale=1.0, size=None):
            if size is not None:
                k = int(size) if not hasattr(size, "__len__") else int(size[0])
                return h.np.array([self.normal(loc, scale) for _ in range(k)])
            x = h.real(f"z{len(draws)}", 1000 + 10 * len(draws), 1005 + 10 * len(draws))
            draws.append((loc, scale, x))
            return x

    kw = {"rng": Rng()}
    mu = [h.real(f"mu{j}", -9, 9) for j in range(m)]
    sd = [h.real(f"sd{j}", 0, 9) for j in range(m)]
    if given:
        kw.update(means=h.np.array(mu), stddevs=h.np.array(sd))
    r = _St(h)._fill_data(h.np.array(d), **kw)
    used = []
    for i in range(n):
        for j in range(m):
            if not g[i][j]:
                h.check_eq(r[i][j], v[i][j], "values there are stay")
                continue
            at = [k for k, (_, _, x) in enumerate(draws) if k not in used and bool(h.eq(x, r[i][j]))]
            h.check(len(at) > 0, "what is missing is drawn")
            if not at:
                continue
            used.append(at[0])
            loc, scale, _ = draws[at[0]]
            if given:
                h.check(h.all_([h.eq(loc, mu[j]), h.eq(scale, sd[j])]), "draws use mean and deviation of the column")
            else:
                _moments(h, [v[a][j] for a in range(n) if not g[a][j]], loc, scale)


def _moments(h, vals, mean, sd):
    k = len(vals)
    tot = vals[0]
    for x in vals[1:]:
        tot = tot + x
    h.check_eq(mean * k, tot, "mean of the values there are", 1e-6)
    if k > 1:
        ss = 0.0
        for x in vals:
            ss = ss + (x - tot / k) * (x - tot / k)
        h.check_eq(sd * sd * (k - 1), ss, "sample deviation of the values there are", 1e-4)
        h.check(h.le(0, sd), "deviation is not negative")


def moments(h, n=3, m=2):
    v, g, d = _matrix(h, n, m, must=[(0, j) for j in range(m)])
    mean, sd = _St(h)._calc_stat(h.np.array(d))
    h.check(len(mean) == m and len(sd) == m, "one per column")
    for j in range(m):
        _moments(h, [v[i][j] for i in range(n) if not g[i][j]], mean[j], sd[j])


def density(h, n=3, m=3):
    v, g, d = _matrix(h, n, m)
    a, b = h.choice("r0", range(n)), h.choice("c0", range(m))
    e, f = h.choice("r1", range(a, n)), h.choice("c1", range(b, m))
    r = _St(h)._calc_density(h.np.array(d), (a, b), (e, f))
    cells = [(i, j) for i in range(a, e + 1) for j in range(b, f + 1)]
    h.check_eq(r * len(cells), float(sum(not g[i][j] for i, j in cells)), "share of values between the corners")


def drop(h, n=3, m=2, shares=False):
    """What is left is a part of the matrix whose rows or columns hold enough."""
    v, g, d = _matrix(h, n, m)
    cnt = h.choice("count", range(n + 1))
    pr, pc = (h.choice("prow", [0, 0.5, 1.0]), h.choice("pcol", [0, 0.4, 1.0])) if not shares else (h.real("prow", 0, 1), h.real("pcol", 0, 1))
    xx = [10.0 + j for j in range(m)]
    given = h.np.array(d)
    x, r = _St(h)._drop(h.np.array(xx), given, drop_observation_if_fewer_percent=pr, drop_sample_if_fewer_percent=pc,
                        drop_sample_if_fewer_count=cnt)
    cols = [xx.index(float(q)) for q in h.tolist(x)]
    h.check(cols == sorted(set(cols)), "positions are kept in order")
    k = h.np.shape(r)[0]
    h.check(h.np.shape(r)[1] == len(cols), "one column per position kept")
    if not cols:
        return
    rows = [[i for i in range(n)] for _ in range(k)]
    # which rows are left, told by their values
    enough = lambda have, p, tot: bool(h.le(p, have / tot, 0)) if tot else bool(h.le(p, 0, 0))  # noqa: E731
    okr = lambda i, cs: enough(sum(not g[i][j] for j in cs), pr, len(cs))  # noqa: E731
    okc = lambda j, rs: sum(not g[i][j] for i in rs) >= cnt and enough(sum(not g[i][j] for i in rs), pc, len(rs))  # noqa: E731
    c1 = [j for j in range(m) if okc(j, range(n))]
    r1 = [i for i in range(n) if okr(i, c1)]
    r2 = [i for i in range(n) if okr(i, range(m))]
    c2 = [j for j in range(m) if okc(j, r2)]
    opts = []
    for cs, rs in ((c1, r1), (c2, r2)):
        if cs == cols and len(rs) == k:
            opts.append(h.all_([_vals(h, r[a][b], d[i][j]) for a, i in enumerate(rs) for b, j in enumerate(cs)]))
    h.check(h.any_(opts), "rows and columns with too few values are dropped, no other")
    for i in range(n):
        for j in range(m):
            h.check(_vals(h, given[i][j], d[i][j]), "the matrix given stays")


def many(h, n=34, m=3):
    """Matrices of many rows or columns: moments, filling, order and regions."""
    gone = {(5, 0), (n - 1, 1), (0, 2)}
    v = [[h.real(f"v{i}_{j}", -100, 100) if i in (0, n - 1) or j == m - 1 and i == 7 else float((7 * i + 3 * j) % 11 - 4) for j in range(m)]
         for i in range(n)]
    d = [[NAN if (i, j) in gone else v[i][j] for j in range(m)] for i in range(n)]
    mean, sd = _St(h)._calc_stat(h.np.array(d))
    for j in range(m):
        _moments(h, [v[i][j] for i in range(n) if (i, j) not in gone], mean[j], sd[j])
    draws = []

    class Rng:
        def normal(self, loc=0.0, scale=1.0, size=None):
            draws.append((loc, scale))
            x = 1000.0 + len(draws)
            return x if size is None else h.np.array([x])

    r = _St(h)._fill_data(h.np.array(d), rng=Rng())
    for i in range(n):
        for j in range(m):
            if (i, j) not in gone:
                h.check_eq(r[i][j], v[i][j], "values there are stay")
            else:
                k = [q for q in range(len(draws)) if bool(h.eq(r[i][j], 1001.0 + q))]
                h.check(len(k) == 1, "what is missing is drawn")
                _moments(h, [v[a][j] for a in range(n) if (a, j) not in gone], *draws[k[0]])
    t = h.np.array([r + [float(i)] for i, r in enumerate(d)])
    o = _St(h)._sort(t)
    ids = [int(o[i][m]) for i in range(n)]
    h.check(sorted(ids) == list(range(n)), "every row is kept once")
    for i in range(n):
        h.check(h.all_([_vals(h, o[i][j], d[ids[i]][j]) for j in range(m)]), "rows stay whole")
    first = [([j for j in range(m) if (k, j) not in gone] + [m])[0] for k in ids]
    h.check(first == sorted(first), "rows with values in earlier columns come first")


def gaps(h, n=75, m=2, given=False):
    """Every one of many missing values is drawn."""
    gone = {(i, 0) for i in range(5, n - 4)} | {(i, m - 1) for i in range(0, n, 3)}
    x = h.real("x", -100, 100)
    v = [[x if (i, j) == (n - 2, 0) else float((7 * i + 3 * j) % 11 - 4) for j in range(m)] for i in range(n)]
    d = [[NAN if (i, j) in gone else v[i][j] for j in range(m)] for i in range(n)]
    draws = []

    class Rng:
        def normal(self, loc=0.0, scale=1.0, size=None):
            if size is not None:
                k = int(size) if not hasattr(size, "__len__") else int(size[0])
                return h.np.array([self.normal(loc, scale) for _ in range(k)])
            draws.append((loc, scale))
            return 1000.0 + len(draws)

    kw = {"means": h.np.array([3.0 + j for j in range(m)]), "stddevs": h.np.array([0.5 + j for j in range(m)])} if given else {}
    r = _St(h)._fill_data(h.np.array(d), rng=Rng(), **kw)
    seen = {}
    for i in range(n):
        for j in range(m):
            if (i, j) not in gone:
                h.check_eq(r[i][j], v[i][j], "values there are stay")
                continue
            h.check(not h.is_nan(r[i][j]), "what is missing is drawn")
            if not h.is_nan(r[i][j]):
                seen.setdefault(int(r[i][j]) - 1001, []).append(j)
    h.check(all([len(q) == 1 for q in seen.values()]) and len(seen) == len(gone) and all([0 <= q < len(draws) for q in seen]),
            "every missing value has a draw of its own")
    for q in [min(seen), max(seen)] if all([0 <= q < len(draws) for q in seen]) else []:
        j = seen[q][0]
        if given:
            h.check_eq(list(draws[q]), [3.0 + j, 0.5 + j], "draws use mean and deviation of the column")
        else:
            _moments(h, [v[a][j] for a in range(n) if (a, j) not in gone], *draws[q])


def diagonal(h, n=14):
    """As many regions as columns."""
    v = h.reals("v", n, -9, 9)
    d = [[v[i] if i == j else NAN for j in range(n)] for i in range(n)]
    r = _St(h)._identify_regions(h.np.array(d), density_threshold=h.real("t", 0.6, 1))
    h.check([(int(a), int(b), int(c), int(e)) for (a, b), (c, e) in r] == [(i, i, i + 1, i + 1) for i in range(n)],
            "every value alone is a region of its own")


def make(h):
    x, mu, sd, c = ([h.real(f"{t}{i}", 0, 9) for i in range(2)] for t in "xmsc")
    s = _St(h)(x, tuple(mu), h.np.array(sd), [c, c[::-1]])
    h.check_eq([h.tolist(s.xx), h.tolist(s.mean), h.tolist(s.stddev), h.tolist(s.corr)], [x, mu, sd, [c, c[::-1]]],
               "statistics hold what is given")


HARNESSES = [
    (order, [dict(), dict(n=4, m=1)], [dict(n=4), dict(m=3)]),
    (regions, [dict(), dict(n=2, m=3), dict(n=2, m=1)], [dict(m=3), dict(n=4)]),
    (fill, [dict(), dict(given=True)], [dict(n=4)]),
    (moments, [dict(), dict(n=1, m=1)], [dict(n=4)]),
    (density, [dict(n=2, m=2)], [dict(n=3, m=2)]),
    (drop, [dict(m=2, n=2), dict(n=3, m=1)], [dict(), dict(n=2, m=3)]),
    (many, [dict()], [dict(n=60)]),
    (gaps, [dict(), dict(given=True)], [dict(n=160)]),
    (diagonal, [dict()], [dict(n=60)]),
    (drop, [dict(m=3, n=1, shares=True), dict(m=1, n=3, shares=True)], [dict(n=2, m=2, shares=True)]),
    (make, [dict()]),
]
