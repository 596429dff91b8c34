"""C23 signal-to-noise ratio."""
from props import tf

BOUNDS = ("1..6 (thorough 8) sensors of 3..10 (16) samples of any values whose noise spectra do not vanish; unpadded, and padded so that each, or every second, "
          "frequency is kept; any frequency limits")


def ratio(h, k=2, pad=None, n=4):
    mags = h.reals("s", k, 0.25, 10)
    sig, _ = tf.directed(h, k, mags)
    noi, noim = [], []
    for i in range(k):
        r = h.real(f"n{i}", 0.25, 10)
        noim.append(r)
        noi.append([0.6 * r, 0.0, 0.0, -0.8 * r])
    xs = [2.0, 5.0][:k]
    S, N = h.mk_array(sig, 0.25, xs), h.mk_array(noi, 0.25, xs, delay=-1.0)
    f = 1.0
    kw = {} if pad is None else dict(pad_snr=True, df_snr=pad)
    t = h.mod("snr").SignaltoNoiseRatio.from_array1ds(S, N, fmin=f, fmax=f, **kw)
    h.check_eq(t.frequencies, [1.0], "frequencies are those of the kept spectrum")
    num, den = sum(mags), sum(noim)
    h.check(len(h.tolist(t.snr)) == 1, "one ratio per frequency")
    h.check_eq(t.snr[0] * den, num, "the ratio is mean signal magnitude over mean noise magnitude", 1e-6)


def decimated(h, df=2.0, k=1, name="phaseshift"):
    """Padding that keeps every second frequency."""
    n = 4
    sig = [h.reals(f"s{i}_", n, -10, 10) for i in range(k)]
    noi = [h.reals(f"n{i}_", n, -10, 10) for i in range(k)]
    for nm, a in (("s", sig), ("n", noi)):
        for i, v in enumerate(a):
            lo = 0.25
            h.require(h.all_([h.le(lo, v[0] + v[1] + v[2] + v[3], 0.0), h.le(lo, v[0] - v[1] + v[2] - v[3], 0.0)]))
    xs = [2.0, 5.0][:k]
    S, N = h.mk_array(sig, 0.25, xs), h.mk_array(noi, 0.25, xs)
    t = h.mod("snr").SignaltoNoiseRatio.from_array1ds(S, N, fmin=0.0, fmax=2.0, pad_snr=True, df_snr=df)
    h.check_eq(t.frequencies, [0.0, 2.0], "frequencies are the requested step apart and within the limits")
    for q, sg in enumerate((1.0, -1.0)):
        num = sum(v[0] + sg * v[1] + v[2] + sg * v[3] for v in sig)
        den = sum(v[0] + sg * v[1] + v[2] + sg * v[3] for v in noi)
        h.check_eq(t.snr[q] * den, num, "each ratio belongs to its frequency", 1e-6)


def samples(h, k=3, n=4, pad=None, before=None, keep=(1, 2)):
    """All samples free; padded by the call, or beforehand."""
    xs = [2.0, 5.0, 6.0, 8.0, 9.0, 11.0, 12.0, 15.0, 17.0, 18.0, 20.0, 21.0, 25.0][:k]
    A = {nm: [h.reals(f"{nm}{i}_", n, -10, 10) for i in range(k)] for nm in "sn"}
    S, N, R = h.mk_array(A["s"], 0.25, xs), h.mk_array(A["n"], 0.25, xs, delay=-1.0), h.mk_array(A["s"], 0.25, xs)
    df = pad or before
    for a in (S, N, R) if before else (R,) if pad else ():
        a.zero_pad(df)
    nn = R[0].nsamples
    mult = 1 if df is None else round(df * 0.25 * nn)
    fr = [q * mult / (nn * 0.25) for q in keep]
    mean = {}
    for nm in "sn":
        for q in keep:
            m = 0.0
            for a in A[nm]:
                x = tf.spectrum(h, list(a) + [0.0] * (nn - n), q * mult)
                m = m + h.np.abs(x[0] + 1j * x[1])
            mean[nm, q] = m
            if nm == "n":
                h.require(h.le(0.1, m, 0.0), sure=True)
    kw = dict(pad_snr=True, df_snr=pad) if pad else h.choice("kw", [{}, dict(pad_snr=False), dict(pad_snr=False, df_snr=3.0)])
    t = h.mod("snr").SignaltoNoiseRatio.from_array1ds(S, N, fmin=fr[0], fmax=fr[-1], **kw)
    h.check_eq(t.frequencies, fr, "frequencies are those a dispersion image of the record has")
    for c, q in enumerate(keep):
        h.check_eq(t.snr[c] * mean["n", q], mean["s", q],
                   "the ratio is mean signal magnitude over mean noise magnitude at that frequency", 1e-6)


def large(h, k=12, n=24, dt=0.004, pad=None, level=1.0, own=1.0):
    """Many sensors and frequencies; the signal of one sensor and the noise of another of any size."""
    def rec(s):
        return [[level * (((5 * i * i + 3 * i * j + s * j + s * i) % 13) - 5.5) for i in range(n)] for j in range(k)]
    sig, noi = rec(7), rec(4)
    f, g = h.real("f", 0.5, 4), h.choice("g", [0.5, 1.0, 3.0])
    xs = [2.0 * j + 0.125 * ((3 * j) % 4) for j in range(k)]
    S = h.mk_array([[v * (f if j == k - 1 else 1.0) for v in a] for j, a in enumerate(sig)], dt, xs)
    N = h.mk_array([[own * v * (g if j == k - 1 else 1.0) for v in a] for j, a in enumerate(noi)], dt, xs)
    nn = n if pad is None else pad * n
    kw = {} if pad is None else dict(pad_snr=True, df_snr=1 / (nn * dt))
    t = h.mod("snr").SignaltoNoiseRatio.from_array1ds(S, N, fmin=1 / (nn * dt), fmax=11 / (nn * dt), **kw)
    h.check_eq(t.frequencies, [q / (nn * dt) for q in range(1, 12)], "frequencies are those of the kept spectrum")
    for c in range(11):
        tot = []
        for a, last in ((sig, f), (noi, own * g)):
            m = 0.0
            for j in range(k):
                x = tf.spectrum(h, a[j] + [0.0] * (nn - n), c + 1)
                m = m + (x[0] * x[0] + x[1] * x[1]) ** 0.5 * (last if j == k - 1 else own if a is noi else 1.0) / level
            tot.append(m)
        h.check_eq(t.snr[c] * tot[1], tot[0], "the ratio is mean signal magnitude over mean noise magnitude", 1e-6)


def axis(h, df=None, n=4):
    """The ratio has the frequencies a dispersion image of the same record has."""
    fmin, fmax = h.real("fmin", 0.01, 2), h.real("fmax", 0.01, 2)
    h.require(h.le(fmin, fmax, 0.0))
    a = [[1.0, 2.0, 0.5, -1.0], [0.0, 1.0, 3.0, -2.0]]
    fine = 1 / (n * 0.25) if df is None else None
    for f in (fmin, fmax):
        for i in range(16):
            m = (i + 0.5) * (fine or 0.25) / 1.0
            h.require(h.any_([h.gap(f, m, 1e-6), h.gap(m, f, 1e-6)]))
    S, N, R = (h.mk_array(a, 0.25, [2.0, 4.0]) for _ in range(3))
    kw = {}
    if df is not None:
        kw = dict(pad_snr=True, df_snr=df)
        R.zero_pad(df)
    t = h.mod("snr").SignaltoNoiseRatio.from_array1ds(S, N, fmin=fmin, fmax=fmax, **kw)
    e = h.mod("wavefieldtransforms").EmptyWavefieldTransform.from_array(R, tf.settings(fmin=fmin, fmax=fmax))
    h.check_eq(t.frequencies, h.tolist(e.frequencies), "the ratio is given at the frequencies of the image")
    h.check_eq(t.snr, [1.0] * len(h.tolist(e.frequencies)), "equal signal and noise have ratio one", 1e-6)


def lengths(h):
    n1, n2 = h.choice("n1", [2, 3, 4]), h.choice("n2", [2, 3, 4])
    S = h.mk_array([[h.real("a", 1, 2)] + [0.0] * (n1 - 1)], 0.25, [2.0])
    N = h.mk_array([[1.0] + [0.0] * (n2 - 1)], 0.25, [2.0])
    f = h.mod("snr").SignaltoNoiseRatio.from_array1ds
    if h.flag("pad"):
        t = f(S, N, fmin=0.0, fmax=1.0, pad_snr=True, df_snr=1.0)
        h.check_eq(t.frequencies, [0.0, 1.0], "windows of different length are compared after padding")
        return
    _, e = h.attempt(f, S, N, fmin=0.0, fmax=1.0)
    h.check((e is None) if n1 == n2 else isinstance(e, IndexError),
            "windows of different length are refused with IndexError unless padded")


def padded(h, n1=2, n2=9, df=1.0, k=2, keep=(1, 2)):
    """Windows of any lengths are compared frequency by frequency once padded."""
    xs = [2.0, 5.0, 6.0][:k]
    A = {"s": [h.reals(f"s{i}_", n1, -10, 10) for i in range(k)], "n": [h.reals(f"n{i}_", n2, -10, 10) for i in range(k)]}
    step = round(1 / (df * 0.25))
    mean = {}
    for nm, n in (("s", n1), ("n", n2)):
        full = max(step, -(-max(n1, n2) // step) * step)
        for q in keep:
            m = 0.0
            for a in A[nm]:
                x = tf.spectrum(h, list(a) + [0.0] * (full - n), q * full // step)
                m = m + h.np.abs(x[0] + 1j * x[1])
            mean[nm, q] = m
            if nm == "n":
                h.require(h.le(0.1, m, 0.0), sure=True)
    S, N = h.mk_array(A["s"], 0.25, xs), h.mk_array(A["n"], 0.25, xs, delay=-1.0)
    t = h.mod("snr").SignaltoNoiseRatio.from_array1ds(S, N, fmin=keep[0] * df, fmax=keep[-1] * df, pad_snr=True, df_snr=df)
    h.check_eq(t.frequencies, [q * df for q in keep], "frequencies are the requested step apart and within the limits")
    for c, q in enumerate(keep):
        h.check_eq(t.snr[c] * mean["n", q], mean["s", q],
                   "windows of different length are compared at each frequency", 1e-6)


def again(h):
    """Each ratio is that of its own two windows, whatever was calculated before."""
    last = None
    c = h.real("c", 1, 3)
    for r, (n, dt) in enumerate(h.choice("order", [((4, 0.25), (4, 0.125), (8, 0.25)), ((4, 0.125), (4, 0.25), (4, 0.125)), ((8, 0.25), (8, 0.125), (4, 0.25))])):
        one = [2.0] + [0.0] * (n - 1)
        amps = [v * c if r == 1 else v for v in one]
        S = h.mk_array([amps, one], dt, [2.0, 5.0])
        N = h.mk_array([one, one], dt, [2.0, 5.0], delay=-1.0)
        fine = 1 / (n * dt)
        t = h.mod("snr").SignaltoNoiseRatio.from_array1ds(S, N, fmin=fine, fmax=2 * fine)
        h.check_eq(t.frequencies, [fine, 2 * fine], "frequencies are those of its own records", 1e-9)
        want = (c + 1) / 2 if r == 1 else 1.0
        h.check_eq(t.snr, [want, want], "so are the ratios", 1e-6)
        if last is not None:
            h.check_eq(last[0].frequencies, last[1], "an earlier result stays", 1e-9)
        last = (t, h.tolist(t.frequencies))


HARNESSES = [
    (again, [dict()]),
    (ratio, [dict(k=1), dict(), dict(pad=0.5), dict(pad=1.0, k=1)], [dict(pad=0.25)]),
    (samples, [dict(), dict(k=6), dict(k=2, n=8, pad=1.0), dict(k=2, n=10, pad=1.0), dict(k=3, n=8, before=1.0),
               dict(k=2, n=10, before=1.0), dict(k=1, n=3, pad=0.5, keep=(1, 2, 3))],
     [dict(k=8, n=12, keep=(1, 2, 3)), dict(k=5, n=16, pad=1.0), dict(k=5, n=16, before=0.5)]),
    (decimated, [dict(), dict(k=2)]),
    (large, [dict(), dict(k=25, n=8, pad=4), dict(k=1, level=1e-6), dict(k=4, level=2.0**-38), dict(k=2, own=1e-6), dict(k=11, level=1e6)]),
    (axis, [dict(), dict(df=2.0), dict(df=0.5)], [dict(df=1.0), dict(df=4 / 3)]),
    (lengths, [dict()]),
    (padded, [dict(), dict(n1=9, n2=2), dict(n1=4, n2=7), dict(n1=8, n2=3, k=1), dict(n1=3, n2=4)],
     [dict(n1=13, n2=5, k=3), dict(n1=5, n2=16, df=0.5, keep=(1, 2, 3))]),
]
