"""C18 beamforming transforms."""
from scipy import special

from props import tf

BOUNDS = ("2..6 (thorough 12) sensors at fixed uneven positions with the source on either side, 3..13 (thorough 16) samples of any "
          "values in [-4, 4] (spectra of magnitude 0.1 or more for inverse-amplitude weighting), unpadded and padded "
          "to a multiple, up to three frequencies and velocities, every weighting and steering")


def _steer(h, steering, th):
    if steering == "cylindrical":
        a = h.np.angle(special.j0(th) + 1j * special.y0(th))
        return tf.turn(h, a)
    return tf.turn(h, th)


def beam(h, k=2, side="left", steering="plane", weighting="none", cls="FDBF", n=4, pad=None,
         keep=(1, 2), vels=(5.0, 20.0), level=1.0):
    xs = [2.0, 4.0, 7.0, 8.0, 12.0, 13.0, 15.0, 18.0, 19.0, 21.0, 22.0, 26.0][:k]
    src = -1.0 if side == "left" else 28.0
    amps = [h.reals(f"a{i}_", n, -4, 4) for i in range(k)]
    arr = h.mk_array([[v * level for v in a] for a in amps], 0.25, xs, src=(src, 0.0, 0.0))
    if pad is not None:
        arr.zero_pad(pad)
    N = arr[0].nsamples
    mult = 1 if pad is None else round(pad * 0.25 * N)
    fr = [q * mult / (N * 0.25) for q in keep]
    spec = {"weighting": weighting, "steering": steering}
    st = tf.settings(fmin=fr[0], fmax=fr[-1], vmin=vels[0], vmax=vels[-1], nvel=len(vels), **{"fdbf-specific": spec})
    if cls == "FK":
        st["fdbf-specific"] = h.choice("given", [spec, {"weighting": "sqrt", "steering": "cylindrical"},
                                                 {"weighting": "invamp", "steering": "plane"}, {}])
        if h.flag("absent"):
            del st["fdbf-specific"]
    elif weighting == "none" and steering == "plane" and h.flag("absent"):
        del st["fdbf-specific"]
    X = {}
    for q in keep:
        for i in range(k):
            x = tf.spectrum(h, list(amps[i]) + [0.0] * (N - n), q * mult)
            if weighting == "invamp":
                m = h.np.abs(x[0] + 1j * x[1])
                h.require(h.le(0.1, m, 0.0), sure=True)
                x = (x[0] / m, x[1] / m)
            X[q, i] = x
    t = getattr(h.mod("wavefieldtransforms"), cls).from_array(arr, st)
    h.check_eq(t.frequencies, fr, "frequencies")
    h.check(t.power.shape == (len(vels), len(keep)), "one value per velocity and frequency")
    P = h.np.asarray(t.power)
    for r, v in enumerate(vels):
        for c, (q, f) in enumerate(zip(keep, fr)):
            sr = si = 0.0
            for i in range(k):
                off = abs(xs[i] - src)
                w = off if weighting == "sqrt" else 1.0
                a, b = tf.cmul(X[q, i], _steer(h, steering, 2 * h.np.pi * f / v * off))
                sr, si = sr + w * a, si + w * b
            p = P[r, c] if weighting == "invamp" else P[r, c] / level**2
            h.check_eq(p.real, sr * sr + si * si, "power is the squared magnitude of the weighted, steered sum", 1e-6)
            h.check_eq(p.imag + 1000.0, 1000.0, "power is real", 1e-6)


def large(h, k=12, n=16, dt=0.004, gap=0.25, cls="FDBF", spec=None, side="left", scale=1.0, fine=0.0, at=0.0, whole=False):
    """Many sensors, any distance to the source, any scale of one trace."""
    base = [[((5 * i * i + 3 * i * j + 7 * j) % 13) - 5.5 for i in range(n)] for j in range(k)]
    xs = [at + 0.5 * j + 0.125 * ((3 * j) % 4) + fine * ((5 * j) % 7) for j in range(k)]
    src = xs[0] - gap if side == "left" else xs[-1] + gap
    if whole:       # positions given as whole numbers
        xs = [int(at) + 2 * j + (3 * j) % 2 for j in range(k)]
        src = xs[0] - 1 if side == "left" else xs[-1] + 3
    spec = spec or {}
    f = h.real("f", 0.5, 4) if spec.get("weighting") != "invamp" else h.choice("f", [0.5, 1.0, 3.0])
    amps = [[v * scale * (f if j == k // 2 else 1.0) for v in a] for j, a in enumerate(base)]
    lvl = 1.0 if spec.get("weighting") == "invamp" else scale ** 2
    t = getattr(h.mod("wavefieldtransforms"), cls).from_array(
        h.mk_array(amps, dt, xs, src=(src, 0.0, 0.0)),
        tf.settings(fmin=2 / (n * dt), fmax=5 / (n * dt), vmin=87.0, vmax=194.0, nvel=3, **{"fdbf-specific": spec}))
    fr = [q / (n * dt) for q in range(2, 6)]
    h.check_eq(t.frequencies, fr, "frequencies")
    P = h.np.asarray(t.power)
    for c, fq in enumerate(fr):
        X = []
        for j in range(k):
            x = tf.spectrum(h, base[j], c + 2)
            m = (x[0] * x[0] + x[1] * x[1]) ** 0.5 if spec.get("weighting") == "invamp" else 1.0
            g = 1.0 if spec.get("weighting") == "invamp" else (f if j == k // 2 else 1.0)
            X.append((x[0] / m * g, x[1] / m * g))
        for r, v in enumerate((87.0, 140.5, 194.0)):
            sr = si = 0.0
            for j in range(k):
                off = abs(xs[j] - src)
                w = off if spec.get("weighting") == "sqrt" else 1.0
                a, b = tf.cmul(X[j], _steer(h, spec.get("steering"), 2 * h.np.pi * fq / v * off))
                sr, si = sr + w * a, si + w * b
            # against the power of a wave that arrives in phase
            whole = sum(abs(x - src) if spec.get("weighting") == "sqrt" else 1.0 for x in xs) ** 2
            h.check_eq(P[r, c].real / (lvl * whole), (sr * sr + si * si) * (1 / whole),
                       "power is the squared magnitude of the weighted, steered sum", 1e-6)


def unchanged(h):
    """Settings given by the user stay as they were; FK ignores beamforming settings."""
    spec = h.choice("given", [{"weighting": "sqrt", "steering": "cylindrical"}, {"weighting": "invamp"}, {}])
    cls = h.choice("cls", ["FK", "FDBF"])
    amps = [[h.real("a", 1, 2), 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0]]
    st = tf.settings(**{"fdbf-specific": dict(spec)})
    arr = h.mk_array(amps, 0.25, [2.0, 4.0])
    getattr(h.mod("wavefieldtransforms"), cls).from_array(arr, st)
    h.check(st == tf.settings(**{"fdbf-specific": dict(spec)}), "the settings given are not modified")
    h.check_eq(arr.timeseriesmatrix(), amps, "the array is not modified")


_ALL = [dict(weighting=w, steering=s) for w in ("none", "sqrt", "invamp") for s in ("plane", "cylindrical")]
HARNESSES = [
    (beam, [dict(cls="FDBF"), dict(cls="FK", side="right")] + [dict(k=3, side="right", **a) for a in _ALL]
     + [dict(k=2, n=8, pad=1.0, **a) for a in _ALL] + [dict(k=2, n=10, pad=1.0, vels=(5.0, 12.5, 20.0), **_ALL[3])]
     + [dict(cls="FK", n=6, pad=1.0), dict(k=4, n=6, keep=(1, 2, 3), **_ALL[1]), dict(k=5, n=3, keep=(1,), **_ALL[4])]
     + [dict(k=2, level=2.0**-30, **_ALL[0]), dict(k=2, level=2.0**30, **_ALL[3])]
     + [dict(k=6, n=12, pad=1.0, side="right", **a) for a in _ALL] + [dict(k=2, n=13, pad=2.0, keep=(0, 1), **_ALL[0])],
     [dict(k=8, n=16, pad=1.0, **a) for a in _ALL] + [dict(k=12, n=4, keep=(1, 2), **a) for a in _ALL]),
    (large, [dict(spec=a, side=s, k=k) for a, s, k in zip(_ALL, ("left", "right") * 3, (7, 12, 13, 9, 16, 24))]
     + [dict(cls="FK", k=25, scale=2.0**-20), dict(cls="FK", k=3, scale=2.0**20, gap=0.03125), dict(k=13, gap=20.0, spec=_ALL[3]), dict(k=12, gap=0.5, spec=_ALL[2]),
        dict(k=5, scale=2.0**-30, spec=_ALL[4]), dict(k=4, scale=2.0**24, spec=_ALL[5]),
        dict(k=5, fine=0.0009), dict(k=4, at=4500000.25, side="right", spec=_ALL[2]), dict(k=3, at=-600000.0, fine=0.002, spec=_ALL[5]),
        dict(k=4, whole=True), dict(k=3, whole=True, side="right", spec=_ALL[3])]),
    (unchanged, [dict()]),
]
