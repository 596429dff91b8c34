"""C19 slant-stack transform."""
import math

from props import tf

BOUNDS = ("2..6 (thorough 8) sensors at fixed uneven positions with the source on either side, 3..24 (40) samples of any values,"
          " unpadded and padded to a multiple, "
          "two to five trial velocities ascending or descending with whole and fractional delays; every kept frequency")


def slant(h, k=3, n=8, side="left", vels=(8.0, 40.0), pad=None, level=1.0, fine=0.0, at=0.0, whole=False):
    xs = [2.0, 4.0, 7.0, 8.0, 12.0, 13.0, 15.0, 18.0, 19.0, 21.0, 22.0, 26.0, 27.0][:k]
    dt = 0.25
    src = (-1.0 if side == "left" else 28.0) + at
    xs = [x + at + fine * ((5 * i) % 7) for i, x in enumerate(xs)]
    if whole:       # positions given as whole numbers
        xs, src = [int(x) for x in xs], int(src)
    amps = [h.reals(f"a{i}_", n if k < 10 else 6, -10, 10) for i in range(k)]
    if k >= 10:
        amps = [a + [((5 * i * i + 3 * i * j + j) % 11) - 5.0 for i in range(n - 6)] for j, a in enumerate(amps)]
    arr = h.mk_array([[v * level for v in a] for a in amps], dt, xs, src=(src, 0.0, 0.0))
    if pad is not None:
        arr.zero_pad(pad)
    nn = arr[0].nsamples
    fine = 1 / (nn * dt)
    nv = len(vels)
    st = tf.settings(vmin=vels[0], vmax=vels[-1], nvel=nv, fmin=0.0, fmax=2 * fine * arr[0].multiple)
    SS = h.mod("wavefieldtransforms").SlantStack
    t = SS.from_array(arr, st)
    order = range(k) if side == "left" else range(k - 1, -1, -1)
    pos = [abs(xs[i] - src) for i in order]
    pos = [p - pos[0] for p in pos]
    rows = [amps[i] + [0.0] * (nn - n) for i in order]
    ntau = nn - int(pos[-1] / min(vels) / dt) - 1
    h.check_eq(t.velocities, list(vels), "trial velocities")
    h.check_eq(t.frequencies, [i * fine * arr[0].multiple for i in range(3)], "frequencies")
    for r, v in enumerate(vels):
        line = []
        for j in range(ntau):
            at = []
            for p, row in zip(pos, rows):
                s = p / v / dt
                lo = math.floor(s + 1e-12)
                d = s - lo
                at.append(row[j + lo] * (1 - d) + row[j + lo + 1] * d)
            line.append(sum(0.5 * (pos[i + 1] - pos[i]) * (at[i] + at[i + 1]) for i in range(k - 1)))
        for c in range(3):
            re, im = tf.spectrum(h, line + [0.0] * (nn - ntau), c * arr[0].multiple)
            z = h.np.asarray(t.power)[r, c]
            h.check_eq([z.real / level, z.imag / level], [re, im],
                       "power is the spectrum of the records summed along each slope", 1e-6)


HARNESSES = [
    (slant, [dict(), dict(fine=2.0**-10), dict(at=4500000.0, k=2), dict(at=-600000.0, side="right", k=2, fine=2.0**-9), dict(whole=True, k=2), dict(k=2, level=2.0**-40), dict(k=2, level=2.0**30), dict(side="right"), dict(k=2, vels=(4.0, 12.0, 20.0)), dict(pad=1.0, n=3, k=2, vels=(20.0, 40.0)),
             dict(pad=1.0, n=8, vels=(10.0, 40.0)), dict(pad=1.0, n=10, side="right", vels=(8.0, 12.0, 16.0)),
             dict(k=6, n=24, vels=(8.0, 24.0, 40.0)), dict(k=6, n=21, side="right", pad=0.25, vels=(40.0, 30.0, 20.0)),
             dict(k=4, n=16, vels=(6.0, 7.0, 8.0, 9.0, 10.0)), dict(k=10, n=40, vels=(20.0, 26.0, 32.0, 38.0, 44.0, 50.0)),
             dict(k=13, n=30, side="right", vels=tuple(30.0 + 5 * i for i in range(12)))],
     [dict(k=4, n=10), dict(k=4, n=10, side="right", vels=(10.0, 25.0, 40.0)),
      dict(k=8, n=40, vels=(10.0, 20.0, 30.0, 40.0)), dict(k=8, n=40, pad=1.0, side="right", vels=(20.0, 40.0))]),
]
