"""C25 frequency-domain workflow."""
from props import wf

BOUNDS = ("1..4 files (also listed more than once) of 2..3 sensors and 6..8 samples of any values; every combination of trimming, padding, offset "
          "limits and signal-to-noise; slant-stack and beamforming; source left or right of the array")


def mean(h, n=2, k=2, transform="slantstack", sx=-4.0, snr=False, m=6, again=None):
    trim, pad = h.flag("trim"), h.flag("pad")
    lims = h.choice("limits", [(0, float("inf")), (0, 7.0), (5.0, float("inf"))]) if k > 2 else (0, float("inf"))
    names = wf.files(h, n, k, m, sx, -0.5 if snr else 0.0, stacks=[2, 1, 3, 1])
    if again:
        names = [names[i] for i in again]
        n = len(names)
    lim = {"fmin": 1.0, "fmax": 1.0} if snr or transform != "slantstack" else {}
    st = wf.make_settings(h, workflow="frequency-domain", transform=transform, trim=trim,
                          trim_begin=0.25 if not snr else 0.0, trim_end=1.0, pad=pad, df=0.5,
                          min_offset=lims[0], max_offset=lims[1],
                          snr=snr, noise_begin=-0.5, noise_end=-0.25, signal_begin=0.25, signal_end=0.5,
                          pad_snr=True, df_snr=1.0, weighting="none", steering="plane", **lim)
    before = wf.freeze(st)
    given = names[0] if n == 1 and h.flag("str") else (tuple(names) if h.flag("tuple") else names)
    t = h.sw.Masw.run(given, st)
    h.check(st == before, "the settings given are not modified")
    singles = [wf.steps(h, [f], before) for f in names]
    h.check_eq(t.frequencies, h.tolist(singles[0][1].frequencies), "frequencies are those of a single record")
    h.check_eq(t.velocities, h.tolist(singles[0][1].velocities), "velocities are those of a single record")
    h.check(t.n == n, "every record counts once")
    nv, nf = h.np.shape(singles[0][1].power)
    h.check(tuple(h.np.shape(t.power)) == (nv, nf), "one value per velocity and frequency")
    for i in range(nv):
        for j in range(nf):
            ws = [h.np.asarray(s[1].power)[i, j] for s in singles]
            p = h.np.asarray(t.power)[i, j]
            h.check_eq([p.real * n, p.imag * n], [sum(w.real for w in ws), sum(w.imag for w in ws)],
                       "the image is the mean of the images of the single records", 1e-6)
    wf.same_array(h, t.array, singles[-1][0], "the array returned is the last processed")
    if snr:
        h.check_eq(t.snr, singles[0][2].snr, "the ratio is that of the first record", 1e-6)
        h.check_eq(t.snr_frequencies, singles[0][2].frequencies, "the ratio's frequencies")
    else:
        h.check(t.snr is None and t.snr_frequencies is None, "no ratio unless asked for")


def similar(h, n=2):
    """A record with another source or number of sensors is refused."""
    m, bad = 6, h.choice("bad", list(range(1, n)))
    how = h.choice("how", ["source", "fewer", "more", "same"])
    sx = h.real("sx", -9, -1)
    names = []
    for f in range(n):
        s, k = -4.0, 2
        if f == bad:
            s = sx if how == "source" else -4.0
            k = {"fewer": 1, "more": 3}.get(how, 2)
        a = [[h.real(f"a{f}{i}", 1, 5), 2.0, 0.0, -1.0, 0.0, 1.0] for i in range(k)]
        names.append(h.stream(f"{f}.dat", [wf.spec([0.0, 2.0, 5.0][i], a[i], s) for i in range(k)]))
    if how == "source":
        h.require(h.any_([h.gap(sx, -4.0, 1e-3), h.gap(-4.0, sx, 1e-3), h.eq(sx, -4.0)]))
    st = wf.make_settings(h, workflow="frequency-domain")
    t, e = h.attempt(h.sw.Masw.run, names, st)
    ok = h.eq(sx, -4.0) if how == "source" else how == "same"
    if bool(ok):
        h.check(e is None, "similar records are accepted")
    else:
        h.check(isinstance(e, ValueError), "a record with another source or number of sensors is refused with ValueError")


def varied(h, i=0):
    """Unusual spacings, limits, lengths, steps and numbers of records."""
    t, names, before = wf.varied(h, "frequency-domain", i)
    singles = [wf.steps(h, [f], before) for f in names]
    n = len(names)
    h.check(t.n == n, "every record counts once")
    h.check_eq(t.frequencies, h.tolist(singles[0][1].frequencies), "frequencies are those of a single record")
    h.check_eq(t.velocities, h.tolist(singles[0][1].velocities), "velocities are those of a single record")
    nv, nf = h.np.shape(singles[0][1].power)
    h.check(tuple(h.np.shape(t.power)) == (nv, nf), "one value per velocity and frequency")
    for r in range(nv):
        for c in range(nf):
            ws = [h.np.asarray(s[1].power)[r, c] for s in singles]
            p = h.np.asarray(t.power)[r, c]
            h.check_eq([p.real * n, p.imag * n], [sum(w.real for w in ws), sum(w.imag for w in ws)],
                       "the image is the mean of the images of the single records", 1e-6)
    wf.same_array(h, t.array, singles[-1][0], "the array returned is the last processed")


def mapping(h, n=2):
    """Coordinate mapping reaches every record."""
    names = wf.files(h, n, 2, 6)
    c = h.real("c", 0.5, 2)
    st = wf.make_settings(h, workflow="frequency-domain")
    t = h.sw.Masw.run(names, st, map_x=lambda x: 2 * x + c)
    h.check_eq(t.array.position(), [c, 4.0 + c], "receivers are mapped")
    h.check_eq(t.array.source.x, -8.0 + c, "the source is mapped")
    want = [wf.steps(h, [f], st, map_x=lambda x: 2 * x + c)[1] for f in names]
    for i in range(2):
        p = h.np.asarray(t.power)[i, 1]
        ws = [h.np.asarray(w.power)[i, 1] for w in want]
        h.check_eq([p.real * n, p.imag * n], [sum(w.real for w in ws), sum(w.imag for w in ws)],
                   "the image is the mean of the mapped records", 1e-6)


def both(h, n=2, fmt="SU"):
    """Both coordinates of every record are mapped."""
    names = wf.mapped_files(h, n, fmt=fmt)
    st = wf.make_settings(h, workflow="frequency-domain")
    t = h.sw.Masw.run(names, st, map_x=wf.MX, map_y=wf.MY)
    wf.check_mapped(h, t.array)
    want = [wf.steps(h, [f], st, wf.MX, wf.MY)[1] for f in names]
    for i in range(2):
        p = h.np.asarray(t.power)[i, 1]
        ws = [h.np.asarray(w.power)[i, 1] for w in want]
        h.check_eq([p.real * n, p.imag * n], [sum(w.real for w in ws), sum(w.imag for w in ws)],
                   "the image is the mean of the mapped records", 1e-6)


HARNESSES = [
    (mean, [dict(n=1), dict(), dict(again=(0, 1, 0), m=5), dict(again=(1, 1, 1, 0, 1), m=5), dict(k=3, sx=9.0), dict(n=3, m=5), dict(transform="fdbf", m=5), dict(snr=True, m=8), dict(n=3, snr=True, m=8)],
     [dict(n=4), dict(transform="fk", n=3), dict(n=4, snr=True, m=8)]),
    (similar, [dict(), dict(n=3)]),
    (varied, [dict(i=i) for i in range(len(wf.CONFIGS))]),
    (mapping, [dict()]),
    (both, [dict(), dict(fmt="SEGY", n=1)]),
]
