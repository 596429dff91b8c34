"""C17 phase-shift transform."""
from props import tf

BOUNDS = ("2..3 sensors at fixed uneven positions with the source on either side, 4 samples: any magnitude, offset and "
          "remaining spectrum, the direction of the transformed coefficient from four; two trial velocities; and, "
          "at the highest frequency, any samples")
QUERY_MS = 8000


def power(h, k=3, side="left"):
    xs = [2.0, 4.0, 7.0, 9.0][:k]
    src = -1.0 if side == "left" else 12.0
    amps, dirs = tf.directed(h, k)
    arr = h.mk_array(amps, 0.25, xs, src=(src, 0.0, 0.0))
    t = h.mod("wavefieldtransforms").PhaseShift.from_array(arr, tf.settings())
    h.check_eq(t.frequencies, [1.0], "frequencies")
    h.check_eq(t.velocities, [5.0, 20.0], "trial velocities")
    h.check(t.power.shape == (2, 1), "one value per velocity and frequency")
    rng = range(k) if side == "left" else range(k - 1, -1, -1)
    off = [abs(xs[i] - src) for i in rng]
    dd = [dirs[i] for i in rng]
    for r, v in enumerate([5.0, 20.0]):
        us = [tf.cmul(d, tf.turn(h, 2 * h.np.pi / v * o)) for d, o in zip(dd, off)]
        sr = si = 0.0
        for i in range(k - 1):
            dx = off[i + 1] - off[i]
            sr = sr + 0.5 * dx * (us[i][0] + us[i + 1][0])
            si = si + 0.5 * dx * (us[i][1] + us[i + 1][1])
        h.check_eq(h.np.abs(t.power[r, 0]), h.np.sqrt(sr * sr + si * si),
                   "power is the magnitude of the spacing-weighted sum of phase-corrected unit spectra", 1e-6)


def nyquist(h, k=3):
    """All samples free; the highest frequency has real coefficients."""
    xs = [2.0, 4.0, 7.0, 9.0][:k]
    amps = [h.reals(f"a{i}_", 4, -10, 10) for i in range(k)]
    sg = []
    for a in amps:
        X = a[0] - a[1] + a[2] - a[3]
        neg = h.flag(f"neg{len(sg)}")
        h.require(h.lt(X, -0.1) if neg else h.lt(0.1, X))
        sg.append(-1.0 if neg else 1.0)
    arr = h.mk_array(amps, 0.25, xs, src=(-1.0, 0.0, 0.0))
    t = h.mod("wavefieldtransforms").PhaseShift.from_array(arr, tf.settings(fmin=2.0, fmax=2.0, nvel=3))
    for r, v in enumerate([5.0, 12.5, 20.0]):
        us = []
        for s, x in zip(sg, xs):
            c, q = tf.turn(h, 2 * h.np.pi / v * (x + 1.0) * 2.0)
            us.append((s * c, s * q))
        sr = si = 0.0
        for i in range(k - 1):
            dx = xs[i + 1] - xs[i]
            sr = sr + 0.5 * dx * (us[i][0] + us[i + 1][0])
            si = si + 0.5 * dx * (us[i][1] + us[i + 1][1])
        h.check_eq(h.np.abs(t.power[r, 0]), h.np.sqrt(sr * sr + si * si),
                   "power depends on the direction of each spectrum only, never on amplitudes", 1e-6)


def samples(h, k=2, n=4, pad=None, side="left", keep=(1, 2), vels=(5.0, 20.0)):
    """All samples free, any record length, padded or not, several frequencies."""
    xs = [2.0, 4.0, 7.0, 9.0, 10.0][:k]
    src = -1.0 if side == "left" else 12.0
    amps = [h.reals(f"a{i}_", n, -10, 10) for i in range(k)]
    arr = h.mk_array(amps, 0.25, xs, src=(src, 0.0, 0.0))
    if pad is not None:
        arr.zero_pad(pad)
    N = arr[0].nsamples
    mult = 1 if pad is None else round(pad * 0.25 * N)
    fine = 1 / (N * 0.25)
    fr = [q * mult * fine for q in keep]
    rng = range(k) if side == "left" else range(k - 1, -1, -1)
    off = [abs(xs[i] - src) for i in rng]
    units = {}
    for q in keep:
        for i in rng:
            X = tf.spectrum(h, list(amps[i]) + [0.0] * (N - n), q * mult)
            m = h.np.abs(X[0] + 1j * X[1])
            h.require(h.le(0.1, m, 0.0), sure=True)
            units[q, i] = (X[0] / m, X[1] / m)
    t = h.mod("wavefieldtransforms").PhaseShift.from_array(
        arr, tf.settings(fmin=fr[0], fmax=fr[-1], vmin=vels[0], vmax=vels[-1], nvel=len(vels)))
    h.check_eq(t.frequencies, fr, "frequencies")
    h.check(t.power.shape == (len(vels), len(keep)), "one value per velocity and frequency")
    for r, v in enumerate(vels):
        for c, (q, f) in enumerate(zip(keep, fr)):
            us = [tf.cmul(units[q, i], tf.turn(h, 2 * h.np.pi / v * o * f)) for i, o in zip(rng, off)]
            sr = si = 0.0
            for i in range(k - 1):
                dx = off[i + 1] - off[i]
                sr = sr + 0.5 * dx * (us[i][0] + us[i + 1][0])
                si = si + 0.5 * dx * (us[i][1] + us[i + 1][1])
            h.check_eq(h.np.abs(t.power[r, c]), h.np.sqrt(sr * sr + si * si),
                       "power is the magnitude of the spacing-weighted sum of phase-corrected unit spectra", 1e-6)


def scale(h, k=3):
    """Rescaling the traces one by one changes nothing."""
    xs = [2.0, 4.0, 7.0][:k]
    amps, _ = tf.directed(h, k)
    fs = h.reals("f", k, 0.5, 4)
    PS = h.mod("wavefieldtransforms").PhaseShift
    t = PS.from_array(h.mk_array(amps, 0.25, xs), tf.settings())
    u = PS.from_array(h.mk_array([[v * f for v in a] for a, f in zip(amps, fs)], 0.25, xs), tf.settings())
    h.check_eq(t.power, u.power, "the power does not depend on the amplitude of a trace", 1e-6)


def large(h, k=12, n=16, even=0.05, level=1.0, side="left", dt=0.002, fine=0.0, at=0.0):
    """Many sensors, nearly evenly spaced, of any common level of amplitude; one trace of any size."""
    base = [[((5 * i * i + 3 * i * j + 7 * j) % 13) - 5.5 for i in range(n)] for j in range(k)]
    xs = [at + 2.0 * j + even * ((3 * j) % 4) + fine * ((5 * j) % 7) for j in range(k)]
    src = at - 1.75 if side == "left" else xs[-1] + 0.5
    f = h.choice("f", [0.25, 1.0, 3.0])
    amps = [[v * level * (f if j == k // 2 else 1.0) for v in a] for j, a in enumerate(base)]
    keep = (2, 3, 5)
    fr = [q / (n * dt) for q in keep]
    vels = (87.0, 140.5, 194.0)
    fmin, fmax = fr[0], fr[-1]
    t = h.mod("wavefieldtransforms").PhaseShift.from_array(
        h.mk_array(amps, dt, xs, src=(src, 0.0, 0.0)),
        tf.settings(fmin=fmin, fmax=fmax, vmin=vels[0], vmax=vels[-1], nvel=3))
    fr = [q / (n * dt) for q in range(2, 6)]
    h.check_eq(t.frequencies, fr, "frequencies")
    order = list(range(k)) if side == "left" else list(range(k - 1, -1, -1))
    off = [abs(xs[i] - src) for i in order]
    for c, fq in enumerate(fr):
        units = []
        for i in order:
            X = tf.spectrum(h, base[i], c + 2)
            m = (X[0] * X[0] + X[1] * X[1]) ** 0.5
            units.append((X[0] / m, X[1] / m))
        for r, v in enumerate(vels):
            us = [tf.cmul(u, tf.turn(h, 2 * h.np.pi / v * o * fq)) for u, o in zip(units, off)]
            sr = sum(0.5 * (off[i + 1] - off[i]) * (us[i][0] + us[i + 1][0]) for i in range(k - 1))
            si = sum(0.5 * (off[i + 1] - off[i]) * (us[i][1] + us[i + 1][1]) for i in range(k - 1))
            h.check_eq(h.np.abs(t.power[r, c]), h.np.sqrt(sr * sr + si * si),
                       "power is the magnitude of the spacing-weighted sum of phase-corrected unit spectra", 1e-6)


HARNESSES = [
    (power, [dict(), dict(k=2, side="right"), dict(side="right")], [dict(k=4), dict(k=4, side="right")]),
    (nyquist, [dict()], [dict(k=4)]),
    (samples, [dict(), dict(n=8, pad=1.0), dict(n=6, pad=1.0, k=3, side="right"), dict(k=3, n=5, keep=(1,)),
               dict(n=10, pad=1.0, vels=(5.0, 12.5, 20.0)), dict(k=3, keep=(1,)), dict(k=4, n=3, keep=(1,))],
     [dict(k=3, n=6, keep=(1, 2)), dict(k=4, n=7, pad=1.0, side="right"), dict(k=5, n=4, keep=(1,)),
      dict(k=3, n=12, pad=1.0)]),
    (large, [dict(), dict(even=0.0, side="right"), dict(k=7, level=1e-9), dict(k=25, level=1e6, even=0.3), dict(k=6, level=1e-6, even=0.04),
             dict(k=5, fine=0.0009), dict(k=4, at=4500000.25, side="right"), dict(k=3, at=-600000.0, fine=0.002)],
     [dict(k=48)]),
    (scale, [dict(k=2)], [dict(k=3)]),
]
