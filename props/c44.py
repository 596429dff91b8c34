"""C44 least-squares inversion."""

BOUNDS = ("1..2 parameters and 1..3 data, any prior, data, prediction and derivatives, any variances and correlations "
          "(positive definite); up to 12 parameters and 6 data, and data whose units differ by a factor of 1e8, with one number free")


def _pos(h, name, n, corr=True):
    """A positive definite matrix L L' with any unit lower triangle and pivots."""
    d = [h.real(f"{name}d{i}", 0.001, 100) for i in range(n)]
    if n == 1 or not corr:
        return [[d[i] if i == j else 0.0 for j in range(n)] for i in range(n)]
    c = h.real(f"{name}c", -0.9, 0.9)
    m = [[d[i] if i == j else 0.0 for j in range(n)] for i in range(n)]
    m[0][1] = m[1][0] = c * d[0]
    m[1][1] = d[1] + c * c * d[0]
    return m


def _mul(a, b):
    out = []
    for r in a:
        row = []
        for j in range(len(b[0])):
            t = r[0] * b[0][j]
            for k in range(1, len(b)):
                t = t + r[k] * b[k][j]
            row.append(t)
        out.append(row)
    return out


def _t(a):
    return [list(c) for c in zip(*a)]


def _add(a, b, s=1):
    return [[x + s * y for x, y in zip(r, q)] for r, q in zip(a, b)]


def _problem(h, j, k, cp, cd):
    g = [[h.real(f"g{a}{b}", -3, 3) for b in range(j)] for a in range(k)]
    P, D = _pos(h, "p", j, cp), _pos(h, "e", k, cd)
    if k == 2:
        # holds for every positive definite P and D (spelled out for the solver)
        m = _add(D, _mul(_mul(g, P), _t(g)))
        h.require(h.gap(0, m[0][0] * m[1][1] - m[0][1] * m[1][0], 1e-3))
    return g, P, D



def step(h, j=1, k=1, cp=True, cd=False, one=False):
    """The update solves the normal equations of the weighted problem."""
    g, P, D = _problem(h, j, k, cp, cd)
    col = lambda n, m: [[h.real(f"{n}{i}", -10, 10)] for i in range(m)]  # noqa: E731
    p0, pm, d0, dm = col("p0", j), col("pm", j), col("d0", k), col("dm", k)
    if one:
        # the update is linear in the vectors: one of them at a time
        w = h.choice("which", range(4))
        p0, pm, d0, dm = [x if i == w else [[float(3 * i + 2 * n - 4)] for n in range(len(x))]
                          for i, x in enumerate((p0, pm, d0, dm))]
    args = [h.np.array(x) for x in (p0, pm, P, d0, dm, D, g)]
    p = h.mod("inversion").leastsquare_iterativealgorithm(*args)
    h.check(tuple(h.np.shape(p)) == (j, 1), "one row per parameter")
    p = h.tolist(p)
    # p - p0 = P G' w with (D + G P G') w = d0 - dm + G (pm - p0); w is found from the normal equations
    #   (p - p0) + P G' D^-1 G (p - p0) = P G' D^-1 r,  so with D = diag or 2x2: scale by det D
    r = _add(_add(d0, dm, -1), _mul(g, _add(pm, p0, -1)))
    adj, det = _adj(D)
    pg = _mul(P, _mul(_t(g), adj))
    dp = _add(p, p0, -1)
    left = _add([[x[0] * det] for x in dp], _mul(pg, _mul(g, dp)))
    h.check_eq(left, _mul(pg, r), "the update balances prior and data by their covariances", 1e-6)
    for a, b in zip(args, (p0, pm, P, d0, dm, D, g)):
        h.check_eq(h.tolist(a), b, "what is handed in stays unchanged")


def _adj(D):
    n = len(D)
    if n == 1:
        return [[1.0]], D[0][0]
    if n == 2:
        return [[D[1][1], -D[0][1]], [-D[1][0], D[0][0]]], D[0][0] * D[1][1] - D[0][1] * D[1][0]
    # diagonal
    return [[D[1][1] * D[2][2], 0.0, 0.0], [0.0, D[0][0] * D[2][2], 0.0], [0.0, 0.0, D[0][0] * D[1][1]]], D[0][0] * D[1][1] * D[2][2]


def posterior(h, j=1, k=1, cp=True, cd=False):
    """The posterior covariance is the inverse of G' D^-1 G + P^-1."""
    g, P, D = _problem(h, j, k, cp, cd)
    args = [h.np.array(x) for x in (P, D, g)]
    c = h.mod("inversion").leastsquare_posterioricovmatrix(*args)
    h.check(tuple(h.np.shape(c)) == (j, j), "one row and column per parameter")
    c = h.tolist(c)
    adj, det = _adj(D)
    # P (G' D^-1 G) C + C = P
    lhs = _add([[x * det for x in r] for r in c], _mul(_mul(P, _mul(_t(g), adj)), _mul(g, c)))
    h.check_eq(lhs, [[x * det for x in r] for r in P], "posterior precision is prior plus data precision", 1e-6)
    for a, b in zip(args, (P, D, g)):
        h.check_eq(h.tolist(a), b, "what is handed in stays unchanged")


def _fixed(j, k, s):
    """Positive definite, correlated, covariances of the order s, and derivatives."""
    low = [[1 + a if a == b else ((3 * a + 5 * b) % 7 - 3) / 4 for b in range(a + 1)] for a in range(j)]
    P = [[sum(low[a][q] * low[b][q] for q in range(min(a, b) + 1)) * s for b in range(j)] for a in range(j)]
    D = [[(2.0 + a if a == b else 0.5 if abs(a - b) == 1 else 0.0) * s for b in range(k)] for a in range(k)]
    g = [[float((5 * a + 3 * b) % 9 - 4) / 2 for b in range(j)] for a in range(k)]
    return g, P, D


def _precision(h, D):
    return [[float(x) for x in r] for r in __import__("numpy").linalg.inv(__import__("numpy").array(D))]


def large(h, j=7, k=3, s=1.0, units=()):
    """Many parameters or data, covariances of any order of magnitude, data in any units: one number varies."""
    g, P, D = _fixed(j, k, s)
    col = lambda n, m: [[float((5 * i + n) % 7 - 3)] for i in range(m)]  # noqa: E731
    p0, pm, d0, dm = col(1, j), col(4, j), col(2, k), col(6, k)
    w = h.choice("which", range(4))
    (p0, pm, d0, dm)[w][-1][0] = h.real("x", -100, 100)
    I = h.mod("inversion")
    u = [units[a] if a < len(units) else 1.0 for a in range(k)]
    given = [p0, pm, P, [[x[0] * q] for x, q in zip(d0, u)], [[x[0] * q] for x, q in zip(dm, u)],
             [[D[a][b] * u[a] * u[b] for b in range(k)] for a in range(k)], [[x * q for x in r] for r, q in zip(g, u)]]
    args = [h.np.array(x) for x in given]
    p = h.tolist(I.leastsquare_iterativealgorithm(*args))
    r = _add(_add(d0, dm, -1), _mul(g, _add(pm, p0, -1)))
    # (D + G P G') w = r and p = p0 + P G' w; the covariances are taken relative to s
    D1, P1 = [[x / s for x in q] for q in D], [[x / s for x in q] for q in P]
    prec = _precision(h, D1)
    dp = _add(p, p0, -1)
    pg = _mul(_mul(P1, _t(g)), prec)
    left = _add(dp, _mul(pg, _mul(g, dp)))
    h.check_eq(left, _mul(pg, r), "the update balances prior and data by their covariances", 1e-5)
    c = h.tolist(I.leastsquare_posterioricovmatrix(h.np.array(P), h.np.array(given[5]), h.np.array(given[6])))
    c1 = [[x / s for x in q] for q in c]
    h.check_eq(_add(c1, _mul(_mul(pg, g), c1)), P1, "posterior precision is prior plus data precision", 1e-5)
    for a, b in zip(args, given):
        h.check_eq(h.tolist(a), b, "what is handed in stays unchanged")


HARNESSES = [
    (large, [dict(), dict(j=2, k=2, s=1e-9), dict(j=2, k=5, s=1e6), dict(j=2, k=2, units=(1.0, 2.0 ** -20)),
             dict(j=3, k=3, units=(2.0 ** 14, 1.0, 2.0 ** -14))], [dict(j=9, k=6), dict(j=12, k=4, s=1e-6)]),
    (step, [dict(), dict(j=2), dict(k=2, cd=True), dict(j=2, k=2, cp=False)], [dict(j=1, k=3), dict(j=2, k=2), dict(j=2, k=2, cd=True)]),
    (posterior, [dict(), dict(j=2), dict(k=2, cd=True), dict(j=2, k=2)], [dict(j=1, k=3), dict(j=2, k=2, cd=True)]),
]
