"""C24 time-domain and single-record workflows."""
from props import wf

BOUNDS = ("1..3 files of 2..3 sensors and 6..8 samples of any values; every combination of trimming, padding, "
          "offset limits and signal-to-noise; slant-stack and beamforming; sampling steps down to 4 microseconds at positions of 100 km; source left or right of the array")


def pipeline(h, workflow="time-domain", n=2, k=2, transform="slantstack", sx=-4.0, snr=False, m=8):
    trim, pad = h.flag("trim"), h.flag("pad")
    lims = h.choice("limits", [(0, float("inf")), (0, 7.0), (5.0, float("inf")), (5.0, 9.0)]) if k > 2 else (0, float("inf"))
    delay = -0.5 if snr else 0.0
    names = wf.files(h, n, k, m, sx, delay, stacks=[1, 3, 2, 4][4 - n:])
    begin = (h.choice("begin", [0.0, -0.25]) if trim else 0.0) if snr else 0.25
    own = h.flag("own") if snr else True
    st = wf.make_settings(h, workflow=workflow, transform=transform, trim=trim, trim_begin=begin,
                          trim_end=1.0 if m < 9 else 1.5, pad=pad, df=0.5, min_offset=lims[0], max_offset=lims[1],
                          snr=snr, noise_begin=-0.5, noise_end=-0.25, signal_begin=0.25, signal_end=0.5,
                          pad_snr=own, df_snr=1.0, **(({"fmin": 1.0, "fmax": 1.0} if own else {"fmin": 1.2, "fmax": 2.2})
                                                     if snr else {}))
    before = wf.freeze(st)
    given = names if h.flag("list") or n > 1 else names[0]
    if n > 1 and h.flag("tuple"):
        given = tuple(names)
    t = h.sw.Masw.run(given, st)
    h.check(st == before, "the settings given are not modified")
    arr, want, ratio = wf.steps(h, names[:1] if workflow == "single" else names, before)
    wf.same_image(h, t, want, "the image is that of the documented steps in order")
    wf.same_array(h, t.array, arr, "the array returned is the processed one")
    if snr:
        h.check_eq(t.snr, ratio.snr, "the ratio is that of the detrended noise and processed signal", 1e-6)
        h.check_eq(t.snr_frequencies, ratio.frequencies, "the ratio's frequencies")
    else:
        h.check(t.snr is None and t.snr_frequencies is None, "no ratio unless asked for")


def many(h, k=26, n=1):
    """All receivers of a long array are processed alike."""
    m = 6
    names = wf.files(h, n, k, m, -4.0, xs=[i / 8 for i in range(k)])
    st = wf.make_settings(h, workflow="time-domain", max_offset=h.choice("max", [float("inf"), 4.0 + (k - 2) / 8 + 0.01]))
    t = h.sw.Masw.run(names, st)
    arr, want, _ = wf.steps(h, names, st)
    wf.same_array(h, t.array, arr, "the array returned is the processed one")
    wf.same_image(h, t, want, "the image is that of the documented steps in order")


def varied(h, i=0, workflow="time-domain"):
    """Unusual spacings, limits, lengths, steps and sizes."""
    t, names, before = wf.varied(h, workflow, i)
    arr, want, _ = wf.steps(h, names[:1] if workflow == "single" else names, before)
    wf.same_array(h, t.array, arr, "the array returned is the processed one")
    wf.same_image(h, t, want, "the image is that of the documented steps in order")


def fine(h, workflow="time-domain", dt=2.0 ** -12, kw=()):
    """Sampling steps far below a millisecond, positions far from the origin."""
    names = wf.files(h, 1, 2, 24, 99996.125, xs=(100000.125, 100002.375), delta=dt,
                     amps=[[[float((5 * t * t + 3 * t * j + 7 * j) % 13) - 5 for t in range(24)] for j in range(2)]])
    st = wf.make_settings(h, workflow=workflow, trim=True, trim_begin=0.0, trim_end=11 * dt, fmin=1 / (12 * dt) * 0.9,
                          fmax=3 / (12 * dt), vmin=40 / (11 * dt), vmax=120 / (11 * dt), nvel=3, min_offset=h.real("min", 3.5, 4.5), **dict(kw))
    h.require(h.any_([h.gap(st["pre-processing"]["offsets"]["min"], 4.0, 1e-3), h.gap(4.0, st["pre-processing"]["offsets"]["min"], 1e-3)]))
    t = h.sw.Masw.run(names, st)
    arr, want, _ = wf.steps(h, names, st)
    h.check_eq([c.nsamples for c in t.array.sensors], [12] * len(arr.sensors), "samples are kept up to the end")
    wf.same_array(h, t.array, arr, "the array returned is the processed one")
    wf.same_image(h, t, want, "the image is that of the documented steps in order")


def mapping(h, workflow="time-domain"):
    """Coordinate mapping reaches the array."""
    names = wf.files(h, 1, 2, 6)
    st = wf.make_settings(h, workflow=workflow)
    c = h.real("c", 0.5, 2)
    mx = lambda x: 2 * x + c  # noqa: E731
    t = h.sw.Masw.run(names, st, map_x=mx)
    h.check_eq(t.array.position(), [c, 4.0 + c], "receivers are mapped")
    h.check_eq(t.array.source.x, -8.0 + c, "the source is mapped")


def both(h, workflow="time-domain", fmt="SU", n=2):
    """Both coordinates are mapped, before offsets are selected."""
    near = h.flag("near")
    names = wf.mapped_files(h, n, fmt=fmt)
    st = wf.make_settings(h, workflow=workflow, max_offset=17.0 if near else float("inf"))
    t = h.sw.Masw.run(names, st, map_x=wf.MX, map_y=wf.MY) if h.flag("words") else h.sw.Masw.run(names, st, wf.MX, wf.MY)
    wf.check_mapped(h, t.array, near=near)
    arr, want, _ = wf.steps(h, names[:1] if workflow == "single" else names, st, wf.MX, wf.MY)
    wf.same_array(h, t.array, arr, "the array returned is the processed one")
    wf.same_image(h, t, want, "the image is that of the documented steps in order")


def inside(h):
    """A source within the array is refused by every workflow."""
    workflow = h.choice("workflow", ["time-domain", "single", "frequency-domain"])
    sx = h.real("sx", -10, 10)
    for x in (0.0, 2.0, 5.0):
        h.require(h.any_([h.gap(sx, x, 0.01), h.gap(x, sx, 0.01)]))
    a = [[1.0, 2.0, 0.0, -1.0, 0.0, 1.0], [0.0, 1.0, 3.0, -2.0, 1.0, 0.0], [0.0, 0.0, 1.0, 3.0, -2.0, 1.0]]
    names = wf.files(h, 1, 3, 6, sx, amps=[a])
    st = wf.make_settings(h, workflow=workflow)
    _, e = h.attempt(h.sw.Masw.run, names, st)
    if bool(h.all_([h.lt(0.0, sx), h.lt(sx, 5.0)])):
        h.check(isinstance(e, ValueError), "a source inside the array is refused with ValueError")
    else:
        h.check(e is None, "a source outside the array is accepted")


def first_only(h, n=2):
    """The single-record workflow uses the first file and says so."""
    names = wf.files(h, n, 2, 6)
    st = wf.make_settings(h, workflow="single")
    t = h.sw.Masw.run(h.choice("as", [names, tuple(names)]), st)
    h.check([r[0] for r in h.reads()] == names[:1], "only the first file is read")
    _, want, _ = wf.steps(h, names[:1], st)
    wf.same_image(h, t, want, "the image is that of the first file")


def unknown(h):
    names = wf.files(h, 1, 2, 6)
    st = wf.make_settings(h)
    what = h.choice("what", ["workflow", "transform", "vspace"])
    if what == "workflow":
        st["workflow"] = "time"
    else:
        st["processing"][what] = "fdbf2"
    h.check_raises(KeyError, f"an unknown {what} is refused", h.sw.Masw.run, names, st)


HARNESSES = [
    (pipeline, [dict(), dict(n=1, snr=True, m=11), dict(n=1, k=3), dict(k=3, sx=9.0), dict(transform="fdbf", m=6), dict(n=1, snr=True),
                dict(workflow="single", n=1), dict(workflow="single", n=2, transform="fk", m=6)],
     [dict(n=3, k=3), dict(n=2, snr=True), dict(n=4, k=2), dict(n=2, snr=True, m=11)]),
    (many, [dict(), dict(k=50, n=2)]),
    (varied, [dict(i=i) for i in range(len(wf.CONFIGS))] + [dict(i=i, workflow="single") for i in (1, 4, 6, 7)]),
    (fine, [dict(), dict(workflow="single", dt=2.0 ** -18)]),
    (mapping, [dict(), dict(workflow="single")]),
    (both, [dict(), dict(fmt="SEGY", n=1), dict(workflow="single")]),
    (inside, [dict()]),
    (first_only, [dict(), dict(n=3)]),
    (unknown, [dict()]),
]
