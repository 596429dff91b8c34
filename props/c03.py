"""C03 zero padding and the frequency step."""
BOUNDS = ("records of 2..64 samples with any values, any sampling step in [0.0001, 1], any delay; target lengths "
          "1/(df dt) of 1..200 samples, integer and fractional; up to two successive paddings, and a trim before")


def exact(h, n=4, N=6, again=None, trim=False):
    """df = 1/(N dt): the padded record delivers exactly df."""
    dt = h.real("dt", 0.0001, 1.0)
    dl = h.real("delay", -1.0, 0.0)
    x = h.reals("x", n, -1e6, 1e6)
    a = h.sw.ActiveTimeSeries(x, dt, nstacks=2, delay=dl)
    if trim:
        a.trim(dl, dl + (n - 2) * dt)
        n, x = n - 1, x[:-1]
    df = 1 / (N * dt)
    a.zero_pad(df)
    if again:
        df = 1 / (again * dt)
        N = again
        a.zero_pad(df)
    out = h.tolist(a.amplitude)
    m = a.nsamples
    h.check(len(out) == m and m >= n, "padding never drops samples")
    h.check_eq(out[:n], x, "the original samples come first and unchanged")
    h.check_eq(out[n:], [0.0] * (m - n), "only zeros are appended")
    h.check_eq(a.multiple * N, m, "the length is a whole multiple of the target length")
    h.check_eq(a.df, df, "the delivered frequency step is the requested one")
    h.check_eq(a._df * m * dt, 1.0, "the true frequency step is 1/(length x step)")
    h.check_eq([a.dt, a.delay, a.nstacks], [dt, dl, 2], "step, delay and stack count unchanged")
    if not again:
        k = -(-n // N)
        h.check(m == k * N, "the shortest whole multiple that holds the record is used")
    h.observe("m", m)


def approx(h, n=4, lo=2, hi=9):
    """Any df: the closest whole number of samples is used."""
    dt = h.choice("dt", [0.25, 0.5])
    x = h.reals("x", n, -10, 10)
    df = h.real("df", 0.05, 4.0)
    r = 1 / (df * dt)
    h.require(h.le(lo, r))
    h.require(h.le(r, hi))
    a = h.sw.ActiveTimeSeries(x, dt)
    a.zero_pad(df)
    m, k = a.nsamples, a.multiple
    out = h.tolist(a.amplitude)
    h.check_eq(out[:n], x, "the original samples come first and unchanged (any df)")
    h.check_eq(out[n:], [0.0] * (m - n), "only zeros are appended (any df)")
    q = m / k
    h.check(h.all_([h.le(q - r, 0.5, 1e-6), h.le(r - q, 0.5, 1e-6)]),
            "the delivered step is that of the closest whole number of samples")
    h.check(h.eq(q, round(q)), "the multiple divides the length")
    h.check(m - n < max(q, n + 1) + q, "no more padding than one target length")


def invalid(h):
    df = h.real("df", -10, 0)
    x = h.reals("x", 3, -10, 10)
    a = h.sw.ActiveTimeSeries(x, 0.5)
    N = h.choice("N", [None, 1, 2, 5])
    if N:
        a.zero_pad(1 / (N * 0.5))
        x = x + [0.0] * (a.nsamples - 3)
    state = [a.nsamples, a.multiple, a.df, a.delay, a.nstacks, a.dt]
    h.check_raises(ValueError, "a non-positive frequency step is refused", a.zero_pad, df)
    h.check_eq(a.amplitude, x, "refused padding leaves the samples unchanged")
    h.check_eq([a.nsamples, a.multiple, a.df, a.delay, a.nstacks, a.dt], state, "refused padding changes nothing")


HARNESSES = [
    (exact, [dict(n=n, N=N) for n, N in ((2, 5), (3, 3), (4, 6), (4, 2), (5, 2), (5, 3), (6, 4), (7, 2), (3, 1), (41, 4),
                                           (23, 2), (12, 1), (50, 3), (64, 5), (9, 200), (33, 32), (36, 18))]
     + [dict(n=8, N=4, again=8), dict(n=6, N=2, again=6), dict(n=3, N=4, again=2), dict(n=4, N=3, again=8), dict(n=4, N=2, again=4),
        dict(n=24, N=2, again=7), dict(n=5, N=20, again=4), dict(n=5, N=3, again=5, trim=True), dict(n=21, N=2, trim=True)],
     [dict(n=n, N=N) for n in list(range(2, 10)) + [13, 17, 25, 40, 60, 64] for N in list(range(1, 17)) + [31, 61, 128, 200]]
     + [dict(n=n, N=N, again=M) for n in (3, 5, 22, 31) for N in (2, 4, 7) for M in (2, 3, 5, 8, 11)]),
    (approx, [dict(n=4), dict(n=13, lo=1, hi=3), dict(n=5, lo=9, hi=15), dict(n=30, lo=11, hi=14)], [dict(n=3), dict(n=6, lo=1, hi=15)]),
    (invalid, [dict()]),
]
