"""C26 muting in workflows."""
from props import wf

BOUNDS = ("1..3 files of 2 sensors and 6..8 samples of any values; any two lines picked within the record; every window "
          "asked for, every workflow, with and without trimming and signal-to-noise")


def muted(h, workflow="time-domain", n=1, m=8, snr=False):
    trim = h.flag("trim")
    window = h.choice("window", [None, {"alpha": 0.0}, {"alpha": 1.0}])
    names = wf.files(h, n, 2, m, delay=-0.25 if snr else 0.0)
    h.plt.press_script = lambda timeout: None if timeout > 0 else True
    hi = 1.0 if trim else (m - 1) * 0.25 - (0.25 if snr else 0.0)
    i0, i1 = h.choice("i0", [0, 1]), h.choice("i1", [3, 4])
    s = (i0 * 0.25 + h.real("s", 0.05, 0.2))
    e = (i1 * 0.25 - h.real("e", 0.05, 0.2))
    pts = [(0.0, s), (2.0, s), (0.0, e), (2.0, e)]
    clicks = [list(p) for p in pts]
    state = {"i": 0}

    def script():
        state["i"] += 1
        if state["i"] > 4:
            raise AssertionError("lines are picked once")
        return [tuple(clicks[state["i"] - 1])]
    h.plt.ginput_script = script
    lim = {"fmin": 1.0, "fmax": 1.0} if snr else {}
    st = wf.make_settings(h, workflow=workflow, trim=trim, trim_begin=0.0, trim_end=1.0, mute=True,
                          window_kwargs=window, snr=snr, noise_begin=-0.25, noise_end=0.0,
                          signal_begin=0.0, signal_end=hi, pad_snr=True, df_snr=1.0, **lim)
    before = wf.freeze(st)
    t = h.sw.Masw.run(names, st)
    h.check(state["i"] == 4, "two lines are picked once, whatever the number of records")
    h.check(st == before, "the settings given are not modified")
    groups = [[f] for f in names] if workflow == "frequency-domain" else [names[:1] if workflow == "single" else names]
    arrs, imgs = [], []
    for g in groups:
        arr = h.sw.Array1D.from_files(g)
        for c in arr.sensors:
            c.detrend()
        if trim:
            arr.trim(0.0, 1.0)
        arr.mute(signal_start=((0.0, s), (2.0, s)), signal_end=((0.0, e), (2.0, e)), window_kwargs=window)
        arrs.append(arr)
        imgs.append(h.mod("wavefieldtransforms").SlantStack.from_array(arr, wf.freeze(before["processing"])))
    wf.same_array(h, t.array, arrs[-1], "the record processed is muted with the picked lines and the window asked for")
    k = len(imgs)
    nv, nf = h.np.shape(imgs[0].power)
    for i in range(nv):
        for j in range(nf):
            ws = [h.np.asarray(w.power)[i, j] for w in imgs]
            p = h.np.asarray(t.power)[i, j]
            h.check_eq([p.real * k, p.imag * k], [sum(w.real for w in ws), sum(w.imag for w in ws)],
                       "every record is muted with the lines picked on the first", 1e-6)


def method(h):
    """Only interactive muting is known."""
    workflow = h.choice("workflow", ["time-domain", "single", "frequency-domain"])
    names = wf.files(h, 1, 2, 6)
    st = wf.make_settings(h, workflow=workflow, mute=h.flag("mute"), method="predefined")
    _, e = h.attempt(h.sw.Masw.run, names, st)
    if st["pre-processing"]["mute"]["apply"]:
        h.check(isinstance(e, KeyError), "an unknown mute method is refused with KeyError")
    else:
        h.check(e is None, "the mute method is ignored unless muting is asked for")


HARNESSES = [
    (muted, [dict(), dict(workflow="frequency-domain", n=2, m=6), dict(workflow="single", n=2, m=6),
             dict(workflow="time-domain", n=2, m=6), dict(workflow="frequency-domain", n=3, m=6),
             dict(workflow="frequency-domain", n=2, m=7, snr=True)],
     [dict(workflow="frequency-domain", n=4, m=6), dict(workflow="time-domain", n=2, m=8, snr=True)]),
    (method, [dict()]),
]
