"""C16 axes of the dispersion image."""
from props import tf

BOUNDS = ("records of up to 1001 samples, up to 498 frequencies and 13 sensors with the limits anywhere near two frequencies; records of 4..12 samples padded so that every, every second or every third fine frequency is kept; any "
          "frequency limits up to the Nyquist frequency, all five transforms; linear velocities with any limits, "
          "logarithmic with fixed ones, 2..5 and 200 (thorough 400) of them; two images of one array with others in between")
NAMES = ["empty", "phaseshift", "slantstack", "fdbf", "fk"]


def _make(h, df, amps=None, n=4):
    amps = amps or [[1.0, 2.0, 0.0, -1.0, 2.0, 5.0, 1.0, -3.0, 0.5, 2.5, 1.5, 0.0][:n],
                    [0.0, 1.0, 3.0, -2.0, 0.0, 1.0, 1.5, 3.0, -2.0, -1.0, 0.5, 7.0][:n]]
    arr = h.mk_array(amps, 0.25, [2.0, 4.0])
    if df is not None:
        arr.zero_pad(df)
    return arr


def frequencies(h, df=None, name="phaseshift", n=4):
    arr = _make(h, df, n=n)
    n = arr[0].nsamples
    fine = 1 / (n * 0.25)
    step = df if df is not None else fine
    fmin, fmax = h.real("fmin", 0.01, 2), h.real("fmax", 0.01, 2)
    h.require(h.le(fmin, fmax, 0.0))
    # limits half way between two frequencies are left open
    for f in (fmin, fmax):
        for i in range(n):
            h.require(h.any_([h.gap(f, (i + 0.5) * fine, 1e-6), h.gap((i + 0.5) * fine, f, 1e-6)]))
    reg = h.mod("register").WavefieldTransformRegistry
    cls = reg.create_class(name)
    st = tf.settings(vmin=20.0, vmax=40.0, nvel=3, fmin=fmin, fmax=fmax, **{"fdbf-specific": {}})
    t = cls.from_array(arr, st)
    fr = h.tolist(t.frequencies)
    h.check(len(fr) >= 1 and h.np.shape(t.power) == (3, len(fr)), "one value per velocity and frequency")
    grid = [i * fine for i in range(n)]
    dist = lambda a, b: h.ite(h.le(a, b, 0.0), b - a, a - b)  # noqa: E731
    h.check(h.any_([h.le(dist(fr[0], g), 1e-9, 0.0) for g in grid]), "frequencies are those of the record's spectrum")
    for g in grid:
        h.check(h.le(dist(fr[0], fmin), dist(g, fmin) + 1e-7, 0.0), "the first is the nearest to the requested minimum")
    for a, b in zip(fr, fr[1:]):
        h.check_eq(b - a, step, "consecutive frequencies are one requested step apart")
    for g in grid:
        # g is nearest to fmax: the last kept one is the last step not beyond it
        near = h.all_([h.le(dist(g, fmax), dist(q, fmax)) for q in grid])
        h.check(h.implies(near, h.all_([h.le(fr[-1], g + 1e-7, 0.0), h.gap(g, fr[-1] + step, 1e-9)])),
                "the last is the last step up to the nearest to the requested maximum")


def large(h, name="empty", n=1000, dt=0.01, df=None, lo=3, hi=480, nvel=3, k=2):
    """Long records and many frequencies: the limits anywhere within the cells of two frequencies."""
    amps = [[((7 * i + 3 * j) % 11) - 4.5 + 0.25 * j for i in range(n)] for j in range(k)]
    arr = h.mk_array(amps, dt, [2.0 + 2 * j for j in range(k)])
    if df is not None:
        arr.zero_pad(df)
    N = arr[0].nsamples
    fine = 1 / (N * dt)
    mult = 1 if df is None else round(df / fine)
    d0, d1 = h.choice("d", [(0.0, 0.0), (-0.4, 0.3), (0.45, -0.45)])
    fmin, fmax = (lo + d0) * fine, (hi + d1) * fine
    if n <= 200:
        fmin = h.real("fmin", (lo - 0.45) * fine, (lo + 0.45) * fine)
    cls = h.mod("register").WavefieldTransformRegistry.create_class(name)
    t = cls.from_array(arr, tf.settings(vmin=200.0, vmax=400.0, nvel=nvel, fmin=fmin, fmax=fmax))
    want = [i * fine for i in range(lo, hi + 1, mult)]
    fr = h.tolist(t.frequencies)
    h.check(len(fr) == len(want) and h.np.shape(t.power) == (nvel, len(want)), "one value per velocity and frequency")
    h.check_eq(fr, want, "frequencies run from the nearest to the minimum by the step to the nearest to the maximum", 1e-9)


def untouched(h, name="phaseshift", side="left", vspace="linear"):
    """What is handed in stays, and the same array gives the same image again, whatever came between."""
    xs = [-4.0, -1.0, 2.0]
    sx = -6.0 if side == "left" else 5.0
    amps = [[float((5 * t * t + 3 * i * t + i) % 11 - 5) for t in range(12)] for i in range(3)]
    amps[1][5] = h.real("a", 6, 9) if name in ("empty", "slantstack") else h.choice("a", [6.0, 8.5])
    arr = h.mk_array(amps, 0.25, xs, src=(sx, 1.5, 0.0))
    down = bool(h.flag("down"))
    v = [20.0, 80.0][::-1 if down else 1]
    spec = h.choice("spec", [{}, {"weighting": "invamp", "steering": "plane"}]) if name == "fdbf" else {}
    mk = lambda lim, nv, f: tf.settings(vmin=lim[0], vmax=lim[1], nvel=nv, fmin=f[0], fmax=f[1], vspace=vspace,  # noqa: E731
                                        **{"fdbf-specific": dict(spec)})
    st, ref = mk(v, 3, (1 / 3, 2 / 3)), mk(v, 3, (1 / 3, 2 / 3))
    cls = h.mod("register").WavefieldTransformRegistry.create_class(name)
    a = cls.from_array(arr, st)
    h.check(st == ref, "the settings handed in stay")
    want = [20.0, 50.0 if vspace == "linear" else 40.0, 80.0]
    h.check_eq(h.tolist(a.velocities), want[::-1] if down else want, "velocities run from the first to the last asked for", 1e-9)
    other = h.choice("between", ["nothing", "image", "transform"])
    if other == "image":
        cls.from_array(arr, mk((30.0, 60.0), 2, (1.0, 4 / 3)))
    elif other == "transform":
        h.mod("register").WavefieldTransformRegistry.create_class("fk" if name == "fdbf" else "fdbf").from_array(arr, mk((30.0, 60.0), 2, (1.0, 4 / 3)))
    b = cls.from_array(arr, st)
    h.check(st == ref, "the settings handed in stay")
    h.check_eq(arr.position(), xs, "receivers stay where they are")
    h.check_eq(arr.timeseriesmatrix(), amps, "samples stay")
    h.check_eq([arr.source.x, arr.source.y, arr.source.z], [sx, 1.5, 0.0], "the source stays")
    h.check_eq(b.frequencies, h.tolist(a.frequencies), "the same frequencies again")
    h.check_eq(b.velocities, h.tolist(a.velocities), "the same velocities again")
    h.check_eq(b.power, a.power, "the same image again", 1e-9)


def velocities(h, nvel=3, name="empty"):
    space = h.choice("space", ["lin", "linear"])
    arr = _make(h, None)
    vmin, vmax = h.real("vmin", 10, 300), h.real("vmax", 10, 300)
    h.require(h.le(vmin + 1, vmax, 0.0))
    cls = h.mod("register").WavefieldTransformRegistry.create_class(name)
    t = cls.from_array(arr, tf.settings(vmin=vmin, vmax=vmax, nvel=nvel, vspace=space))
    vs = h.tolist(t.velocities)
    h.check(len(vs) == nvel and h.np.shape(t.power)[0] == nvel, "as many velocities as requested")
    for i in range(nvel):
        h.check_eq(vs[i] * (nvel - 1), vmin * (nvel - 1 - i) + vmax * i, "linear velocities are evenly spaced between the limits")


def logarithmic(h, name="empty"):
    space = h.choice("space", ["log", "logarithmic"])
    vmin, vmax, nvel = h.choice("lim", [(10.0, 90.0, 3), (20.0, 160.0, 4), (50.0, 500.0, 5), (100.0, 1000.0, 200)])
    fmax = h.real("fmax", 1.0, 2.0) if nvel < 100 else 1.0
    cls = h.mod("register").WavefieldTransformRegistry.create_class(name)
    t = cls.from_array(_make(h, None), tf.settings(vmin=vmin, vmax=vmax, nvel=nvel, vspace=space, fmax=fmax))
    vs = h.tolist(t.velocities)
    h.check(len(vs) == nvel and h.np.shape(t.power)[0] == nvel, "as many velocities as requested")
    h.check_eq([vs[0], vs[-1]], [vmin, vmax], "velocities reach both limits", 1e-6)
    for a, b, c in zip(vs, vs[1:], vs[2:]):
        h.check_eq(b * b, a * c, "logarithmic velocities have a constant ratio", 1e-6)


def registry(h):
    reg = h.mod("register").WavefieldTransformRegistry
    wt = h.mod("wavefieldtransforms")
    name, cls = h.choice("name", [("empty", "EmptyWavefieldTransform"), ("phaseshift", "PhaseShift"),
                                  ("slantstack", "SlantStack"), ("fdbf", "FDBF"), ("fk", "FK")])
    h.check(reg.create_class(name) is getattr(wt, cls), "each name selects its transform")
    a = [h.real("a", 1, 5), 1.0, -1.0, 0.0]
    arr = h.mk_array([a, [0.0, 1.0, 3.0, -2.0]], 0.25, [2.0, 4.0])
    st = tf.settings(vmin=20.0, vmax=40.0)
    t = reg.create_class(name).from_array(arr, st)
    h.check(isinstance(t, getattr(wt, cls)), "creating from an array gives that transform")
    h.check(t.n == (0 if name == "empty" else 1), "a transform counts one record, the placeholder none")


def beyond(h, name="empty", n=8):
    """Limits beyond the frequencies there are end at these."""
    arr = _make(h, None, n=n)
    fine = 1 / (n * 0.25)
    fmin, fmax = h.real("fmin", 0.0, 0.4 * fine), h.real("fmax", (n - 1) * fine, 50)
    lo = h.choice("lo", [0, 2])
    cls = h.mod("register").WavefieldTransformRegistry.create_class(name)
    t = cls.from_array(arr, tf.settings(vmin=20.0, vmax=40.0, nvel=3, fmin=fmin + lo * fine, fmax=fmax))
    h.check_eq(t.frequencies, [i * fine for i in range(lo, n)], "frequencies end at the last there is", 1e-9)
    h.check(h.np.shape(t.power) == (3, n - lo), "one value per velocity and frequency")


def again(h, name="empty"):
    """The axes of an image belong to it: changing those of one leaves the next as asked."""
    cls = h.mod("register").WavefieldTransformRegistry.create_class(name)
    space = h.choice("space", ["linear", "log"])
    arr = _make(h, None, n=6)
    st = lambda: tf.settings(vmin=20.0, vmax=80.0, nvel=3, vspace=space, fmin=0.6, fmax=1.4)  # noqa: E731
    want = [20.0, 50.0, 80.0] if space == "linear" else [20.0, 40.0, 80.0]
    a, b = cls.from_array(arr, st()), cls.from_array(arr, st())
    c = h.real("c", 2, 3)
    for t in (a, b):
        h.check_eq(t.velocities, want, "velocities as asked", 1e-9)
        h.check_eq(t.frequencies, [2 / 3, 4 / 3], "frequencies as asked", 1e-9)
    a.velocities = h.np.array([v * c for v in h.tolist(a.velocities)])
    b.velocities[1] = 1.0
    b.velocities[2] = 1.0
    b.frequencies[0] = 1.0
    h.check_eq(a.frequencies, [2 / 3, 4 / 3], "one image's axes are not another's", 1e-9)
    t = cls.from_array(arr, st())
    h.check_eq(t.velocities, want, "velocities as asked, whatever became of those of an earlier image", 1e-9)
    h.check_eq(t.frequencies, [2 / 3, 4 / 3], "so are the frequencies", 1e-9)


HARNESSES = [
    (beyond, [dict(), dict(name="fdbf", n=6)], [dict(name="slantstack"), dict(name="phaseshift", n=12)]),
    (again, [dict(), dict(name="phaseshift"), dict(name="fdbf")], [dict(name="fk"), dict(name="slantstack")]),
    (frequencies, [dict(df=d, name=nm, n=k) for nm in ("empty", "fdbf", "slantstack")
                   for d, k in ((1.0, 10), (4 / 3, 9), (1.0, 8), (0.5, 12))]),
    (frequencies, [dict(df=d, name=nm) for nm in NAMES for d in ((None, 2.0) if nm != "phaseshift" else (None, 0.5, 4 / 3, 2.0))],
     [dict(df=d, name=nm) for nm in NAMES for d in (0.5, 1.0, 4 / 3)]),
    (large, [dict(), dict(n=1001, dt=0.002, hi=500, name="fdbf"), dict(n=600, df=0.1, lo=7, hi=490), dict(n=700, name="phaseshift", hi=340),
             dict(n=700, name="slantstack", hi=330), dict(n=130, name="fk", hi=64, k=13), dict(n=130, name="phaseshift", hi=50, nvel=12, k=13)]),
    (velocities, [dict(nvel=2), dict(), dict(nvel=5), dict(name="phaseshift"), dict(nvel=200)], [dict(nvel=9), dict(nvel=400), dict(name="fdbf"), dict(name="fk")]),
    (logarithmic, [dict(name=nm) for nm in NAMES]),
    (registry, [dict()]),
    (untouched, [dict(name=n, side=w, vspace=v) for n, w, v in (("empty", "left", "log"), ("phaseshift", "right", "linear"), ("slantstack", "right", "log"),
                                                                ("fdbf", "right", "linear"), ("fk", "left", "log"))]),
]
