"""C47 records of coded sources."""
from props import wf

BOUNDS = ("2..4 receivers of 6..14 samples and 20 receivers of 40 samples of any values, 1..3 source files of 1..3 channels; source "
          "signals shorter, as long and longer than the records; several offsets and velocity limits, source on either side; every transform")


def _src(amp, delta=0.25, sx=-4.0, **kw):
    return {**wf.spec(0.0, amp, sx, delta=delta), **kw}


def _lag(rec, src, lag):
    """Sum of rec[t + lag] * src[t] over the samples there are."""
    t = None
    for q, s in enumerate(src):
        if 0 <= q + lag < len(rec):
            x = rec[q + lag] * s
            t = x if t is None else t + x
    return 0.0 if t is None else t


def _window(offs, vmin, vmax, dt, n, m):
    """First and last lag asked for, from half a second before the fastest arrival at the nearest receiver."""
    lo, hi = (min(offs) / vmax - 0.5) / dt, max(offs) / vmin / dt
    return max(lo, -(m - 1)), min(hi, n - 1)


def _correlated(h, arr, recs, src, offs, vmin, vmax, dt, label="correlated", level=1.0):
    n, m = len(recs[0]), len(src)
    lo, hi = _window(offs, vmin, vmax, dt, n, m)
    got = [[v / level for v in h.tolist(s.amplitude)] for s in arr.sensors]
    recs = [[v / level for v in r] for r in recs]
    k = len(got[0])
    h.check(len(got) == len(recs) and all([len(g) == k for g in got]), label + ": one record per receiver, all as long")
    first = [q for q in range(-(m - 1), n) if abs(q - lo) < 2 + 1e-6]
    opts = []
    for q in first:
        if q + k - 1 < hi - 1 - 1e-6 or q + k - 1 > hi + 2:
            continue
        opts.append(h.all_([h.eq(g[j], _lag(r, src, q + j), 1e-6) for g, r in zip(got, recs) for j in range(k)]))
    h.check(h.any_(opts), label + ": every record is its correlation with the source, from a common lag on")


def correlate(h, k=2, n=8, m=8, side="left", dt=0.25, vs=((5.0, 20.0),), free="rec", xs=None, default=False, level=1.0):
    """Each record becomes its correlation with the source signal over the lags of interest."""
    xs = xs or [0.0, 1.5, 4.0, 4.75][:k]
    sx = -4.25 if side == "left" else xs[-1] + 2.75
    if free == "rec":
        recs = [h.reals(f"a{i}_", n, -10, 10) for i in range(k)]
        src = [float((5 * t + 2) % 7 - 3) for t in range(m)]
    else:
        recs = [[float((5 * t * t + 3 * i * t + i) % 11 - 5) for t in range(n)] for i in range(k)]
        src = h.reals("s", m, -10, 10)
        if free == "few":
            recs[-1][n // 2] = h.real("r", -10, 10)
            src = [float((5 * t + 2) % 7 - 3) for t in range(m)]
    recs = [[v * level for v in r] for r in recs]
    S = [h.sw.Sensor1C(r, dt, x, 0.0, 0.0, nstacks=3) for r, x in zip(recs, xs)]
    src_given = h.arr(list(src))
    source = h.mod("source").SourceWithSignal(sx, 0.0, 0.0, src_given, dt)
    arr = h.mod("array1d").Array1DwSource(S, source)
    vmin, vmax = h.choice("v", list(vs))
    if default:
        kw = h.choice("given", [{}, {"vmin": 20.0}, {"vmax": 50.0}, {"vmin": None, "vmax": 200.0}])
        arr.xcorrelate(**kw)
        vmin, vmax = kw.get("vmin") or 50, kw.get("vmax") or 3000
    else:
        arr.xcorrelate(vmin, vmax) if h.flag("positional") else arr.xcorrelate(vmax=vmax, vmin=vmin)
    _correlated(h, arr, recs, src, [abs(x - sx) for x in xs], vmin, vmax, dt, level=level)
    h.check_eq(arr.position(), xs, "receivers stay where they are")
    h.check_eq([c.dt for c in arr.sensors], [dt] * k, "the step stays")
    h.check([int(c.nstacks) for c in arr.sensors] == [3] * k, "the number of stacks stays")
    h.check_eq([arr.source.x, arr.source.y, arr.source.z], [sx, 0.0, 0.0], "the source stays")
    h.check_eq(h.tolist(arr.source.amplitude), src, "the source signal stays")
    for s, r in zip(S, recs):
        h.check_eq(h.tolist(s.amplitude), r, "the records handed in stay")


def read(h, nrec=1, nsrc=2, channel=0, whole=False):
    """The array of the receiver files with the mean source signal."""
    n = 4
    mk = (lambda t, q: h.ints(t, q, -1000, 1000)) if whole else (lambda t, q: h.reals(t, q, -10, 10))
    names = wf.files(h, nrec, 2, n)
    sig = [[mk(f"s{f}_{c}_", n) for c in range(channel + 1 + (f % 2))] for f in range(nsrc)]
    kw = {"dtype": "int32"} if whole else {}
    step = h.choice("step", [0.25, 0.125, 0.5])
    sn = [h.stream(f"s{f}.dat", [_src(a, delta=step, **kw) for a in sig[f]]) for f in range(nsrc)]
    mx = h.choice("map", [None, lambda x: 2 * x + 1])
    kw = {} if mx is None else {"map_x": mx}
    my = h.choice("map y", [None, lambda y: 3 - y])
    kw.update({} if my is None else {"map_y": my})
    arr = h.mod("array1d").Array1DwSource.from_files(names, sn, channel, **kw)
    want = h.sw.Array1D.from_files(names, **kw)
    wf.same_array(h, arr, want, "receivers are read like any array")
    tot = list(sig[0][channel])
    for f in range(1, nsrc):
        tot = [a + b for a, b in zip(tot, sig[f][channel])]
    h.check_eq([x * nsrc for x in h.tolist(arr.source.amplitude)], tot, "the source signal is the mean of the channel chosen", 1e-6)
    h.check_eq(arr.source.dt, step, "the step of the source signal is read")
    h.check([r[0] for r in h.reads()][nrec:nrec + nsrc] == sn, "every source file is read once, after the receivers")


def mapped(h, n=1, fmt="SU", run=False):
    """Both coordinates of the receivers' files are mapped."""
    m = 12
    names = wf.mapped_files(h, n, m, fmt=fmt, free=not run)
    sn = [h.stream("s.dat", [_src([1.0, -2.0, 3.0, 0.0])])]
    if run:
        st = wf.make_settings(h, workflow="time-domain-xcorr", transform="fk", fmin=0.5, fmax=1.0, vmin=3.0, vmax=12.0)
        arr = h.mod("masw").MaswXcorr.run(names, sn, 0, st, map_x=wf.MX, map_y=wf.MY).array
    else:
        arr = h.mod("array1d").Array1DwSource.from_files(names, sn, 0, map_x=wf.MX, map_y=wf.MY)
    wf.check_mapped(h, arr)


def workflow(h, transform="slantstack", n=1, k=2, kw=None, m=12, msrc=None, delta=0.25):
    """The steps of the workflow in order, correlation before padding."""
    names = wf.files(h, n, k, m, amps=[[[float((5 * t * t + 3 * i * t + i + f) % 11 - 5) for t in range(m)] for i in range(k)] for f in range(n)], delta=delta)
    x = h.real("x", -10, 10)
    sig = [[float((5 * t + 2 * c) % 7 - 3) for t in range(msrc or m)] for c in range(2)]
    sig[1][(msrc or m) // 3] = x
    sn = [h.stream(f"s{f}.dat", [_src(a, delta) for a in sig]) for f in range(n)]
    st = wf.make_settings(h, workflow="time-domain-xcorr", transform=transform, **{"vmin": 3.0, "vmax": 12.0, **(kw or {})})
    before = wf.freeze(st)
    mx = lambda x: x + 0.5  # noqa: E731
    t = h.mod("masw").MaswXcorr.run(names, sn, 1, st, map_x=mx)
    h.check(st == before, "the settings given are not modified")
    arr = h.mod("array1d").Array1DwSource.from_files(names, sn, 1, map_x=mx)
    pre = before["pre-processing"]
    arr.trim_offsets(pre["offsets"]["min"], pre["offsets"]["max"])
    for s in arr.sensors:
        s.detrend()
    if pre["trim"]["apply"]:
        arr.trim(pre["trim"]["begin"], pre["trim"]["end"])
    arr.xcorrelate(before["processing"]["vmin"], before["processing"]["vmax"])
    if pre["pad"]["apply"]:
        arr.zero_pad(pre["pad"]["df"])
    cls = h.mod("register").WavefieldTransformRegistry.create_class(transform)
    want = cls.from_array(arr, wf.freeze(before["processing"]))
    wf.same_image(h, t, want, "the image is that of the correlated records")
    wf.same_array(h, t.array, arr, "the array returned is the processed one")
    h.check(t.snr is None, "no ratio unless asked for")


def refused(h):
    names = wf.files(h, 1, 2, 6)
    st = wf.make_settings(h, workflow=h.choice("w", ["time-domain", "single", "frequency-domain", "time-domain-xcorrelation", "xcorr"]))
    h.check_raises(NotImplementedError, "other workflows are refused with NotImplementedError", h.mod("masw").MaswXcorr.run, names, names, 0, st)
    h.check(h.reads() == [], "nothing is read for a workflow refused")


VS = ((5.0, 20.0), (3.0, 7.0), (9.0, 900.0), (1.0, 3.0))
HARNESSES = [
    (correlate, [dict(vs=VS), dict(side="right", k=3, vs=VS), dict(free="src", vs=VS[:2]), dict(m=5, n=9), dict(m=11, n=7), dict(default=True, xs=[0.0, 40.0]),
                 dict(k=20, n=40, m=40, free="few", xs=[0.5 * i for i in range(20)], vs=((2.0, 30.0),)),
                 dict(n=40, m=40, free="few", xs=[0.5, 2.0], vs=((0.5, 20.0), (0.25, 0.75))),
                 dict(n=14, m=14, dt=0.0625, vs=((20.0, 100.0),)), dict(n=10, m=10, dt=0.01, vs=((60.0, 400.0),)),
                 dict(n=30, m=30, dt=0.01, vs=((60.0, 400.0),), free="few"), dict(vs=VS[:1], level=2.0**-30), dict(vs=VS[:1], level=2.0**20)],
     [dict(k=4, n=14, m=14, vs=VS), dict(free="src", k=4, n=12, m=9, vs=VS, side="right")]),
    (read, [dict(), dict(nrec=2, nsrc=1, channel=1), dict(nsrc=3, channel=2), dict(whole=True)], [dict(nsrc=12)]),
    (workflow, [dict(), dict(msrc=17), dict(msrc=6, kw=dict(vmin=2.0, vmax=3.0)), dict(msrc=17, delta=0.0625, transform="fk", kw=dict(vmin=5.0, vmax=900.0, fmin=2.0, fmax=5.0)), dict(kw=dict(trim=True, trim_begin=0.5, trim_end=2.0)), dict(kw=dict(pad=True, df=0.25)),
                dict(k=3, kw=dict(max_offset=7.0)), dict(n=3, transform="fk", kw=dict(fmin=0.5, fmax=1.0))], [dict(transform="phaseshift", kw=dict(fmin=0.5, fmax=1.0))]),
    (mapped, [dict(), dict(n=2, fmt="SEGY"), dict(run=True)]),
    (refused, [dict()]),
]
