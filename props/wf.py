"""Shared pieces of the workflow harnesses."""
import copy


def spec(x, amp, sx, delay=0.0, delta=0.25, stack=1):
    return {"format": "SEG2", "data": amp, "delta": delta, "header": {
        "SOURCE_LOCATION": sx, "RECEIVER_LOCATION": x, "STACK": stack, "DELAY": delay}}


def su(x, y, amp, sx, sy, delta=0.25, stack=1, fmt="SU"):
    return {"format": fmt, "data": amp, "delta": delta, "header": {
        "scalar_to_be_applied_to_all_coordinates": 1, "group_coordinate_x": x, "group_coordinate_y": y, "source_coordinate_x": sx,
        "source_coordinate_y": sy, "number_of_horizontally_stacked_traces_yielding_this_trace": stack, "coordinate_units": 1,
        "delay_recording_time": 0}}


MX, MY = lambda x: 3 - 2 * x, lambda y: 5 - 3 * y


def mapped_files(h, n=2, m=6, fmt="SU", free=True):
    """Shots off the line of the receivers; MX and MY turn and stretch both axes. Returns names and the settings for it."""
    names = []
    for f in range(n):
        a = [[float((5 * t * t + 3 * i * t + i + f) % 11 - 5) for t in range(m)] for i in range(3)]
        if free:
            a[f % 3][m // 2] = h.real(f"a{f}", -9, 9)
        names.append(h.stream(f"{f}.dat", [su([0, 2, 5][i], 1, a[i], -4, 1, stack=f + 1, fmt=fmt) for i in range(3)]))
    return names


def check_mapped(h, arr, label="mapped", near=False):
    xs = [13.0 - 10.0 - 10.0, 3.0 - 4.0, 3.0]
    xs = [x for x in xs if not near or x > -6]
    h.check_eq([c.x for c in arr.sensors], xs, label + ": receivers")
    h.check_eq([c.y for c in arr.sensors], [2.0] * len(xs), label + ": receivers across the line")
    h.check_eq([arr.source.x, arr.source.y], [11.0, 2.0], label + ": the source")


def files(h, n, k=2, m=6, sx=-4.0, delay=0.0, xs=(0.0, 2.0, 5.0), amps=None, stacks=None, delta=0.25):
    """n shot files with any samples; returns the names."""
    names = []
    for f in range(n):
        a = amps[f] if amps else [h.reals(f"a{f}_{i}_", m, -5, 5) for i in range(k)]
        names.append(h.stream(f"{f}.dat", [
            spec(xs[i], a[i], sx, delay, delta, stack=stacks[f] if stacks else 1) for i in range(k)]))
    return names


def make_settings(h, **kw):
    base = dict(transform="slantstack", fmin=0.0, fmax=2.0, vmin=20.0, vmax=40.0, nvel=2, vspace="linear")
    base.update(kw)
    return h.sw.Masw.create_settings_dict(**base)


def freeze(st):
    return copy.deepcopy(st)


def steps(h, names, st, map_x=lambda x: x, map_y=lambda y: y):
    """The documented steps, one by one through the array's own interface."""
    arr = h.sw.Array1D.from_files(names, map_x=map_x, map_y=map_y)
    pre = st["pre-processing"]
    arr.trim_offsets(pre["offsets"]["min"], pre["offsets"]["max"])
    for s in arr.sensors:
        s.detrend()
    noise = h.sw.Array1D.from_array1d(arr)
    if pre["trim"]["apply"]:
        arr.trim(pre["trim"]["begin"], pre["trim"]["end"])
    signal = h.sw.Array1D.from_array1d(arr)
    if pre["pad"]["apply"]:
        arr.zero_pad(pre["pad"]["df"])
    cls = h.mod("register").WavefieldTransformRegistry.create_class(st["processing"]["transform"])
    t = cls.from_array(arr, freeze(st["processing"]))
    snr = None
    sn = st["signal-to-noise"]
    if sn["perform"]:
        noise.trim(sn["noise"]["begin"], sn["noise"]["end"])
        signal.trim(sn["signal"]["begin"], sn["signal"]["end"])
        snr = h.mod("snr").SignaltoNoiseRatio.from_array1ds(
            signal, noise, fmin=st["processing"]["fmin"], fmax=st["processing"]["fmax"],
            pad_snr=sn["pad"]["apply"], df_snr=sn["pad"]["df"])
    return arr, t, snr


def same_image(h, got, want, label):
    h.check_eq(got.frequencies, h.tolist(want.frequencies), label + ": frequencies")
    h.check_eq(got.velocities, h.tolist(want.velocities), label + ": velocities")
    h.check_eq(got.power, want.power, label + ": power", 1e-6)


def same_array(h, got, want, label):
    h.check_eq(got.position(), want.position(), label + ": positions")
    h.check_eq([c.y for c in got.sensors], [c.y for c in want.sensors], label + ": positions across the line")
    h.check_eq(got.timeseriesmatrix(), want.timeseriesmatrix(), label + ": samples")
    h.check_eq([c.delay for c in got.sensors], [c.delay for c in want.sensors], label + ": delays")
    h.check_eq([got.source.x, got.source.y], [want.source.x, want.source.y], label + ": source")


# number of files, sensors, samples, spacing of sensors, gap to the source and its side, interval, settings
CONFIGS = [
    (1, 6, 20, 0.25, 0.25, -1, 0.25, dict(min_offset=0.5, pad=True, df=0.3)),
    (2, 7, 20, 0.25, 0.25, 1, 0.25, dict(min_offset=0.4, max_offset=1.3)),
    (1, 12, 18, 2.0, 1.0, -1, 0.25, dict(min_offset=1.0, max_offset=23.0, vmin=100.0, vmax=200.0, nvel=5)),
    (3, 5, 25, 1.0, 0.5, -1, 0.25, dict(trim=True, trim_begin=0.5, trim_end=4.5, transform="fdbf", weighting="sqrt", steering="plane")),
    (2, 4, 21, 1.5, 30.0, 1, 0.25, dict(trim=True, trim_begin=0.0, trim_end=3.0, pad=True, df=0.2, transform="fk", fmin=0.3, fmax=1.7)),
    (1, 3, 30, 2.0, 4.0, -1, 0.25, dict(trim=True, trim_begin=1.0, trim_end=7.0, vspace="log", vmin=20.0, vmax=80.0, nvel=3)),
    (11, 2, 12, 2.0, 4.0, -1, 0.25, dict(pad=True, df=0.25, vmin=30.0, vmax=90.0, nvel=7)),
    (2, 3, 16, 2.0, 150.0, -1, 0.004, dict(min_offset=150.5, vmin=100.0, vmax=900.0, fmin=10.0, fmax=70.0, transform="fdbf", weighting="none", steering="plane")),
    (2, 3, 16, 2.0, 4.0, 1, 0.25, dict(max_offset=1e6, vmin=40.0, vmax=20.0, nvel=3)),
]


def varied(h, workflow, i):
    """A workflow run in one of the configurations: (image, names, settings before)."""
    n, k, m, sp, gap, side, dt, kw = CONFIGS[i]
    xs = [sp * j for j in range(k)]
    sx = -gap if side < 0 else xs[-1] + gap
    f = h.reals("f", min(n, 3), -4, 4)
    names = []
    for q in range(n):
        amp = [[float(((5 * t * t + 3 * t * j + 7 * j + 2 * q) % 13) - 5) + (f[q % 3] if t == m // 2 and j == k - 1 else 0.0)
                for t in range(m)] for j in range(k)]
        names.append(h.stream(f"{q}.dat", [spec(x, a, sx, delta=dt, stack=1 + q % 4)
                                           for j, (x, a) in enumerate(zip(xs, amp))]))
    st = make_settings(h, workflow=workflow, **kw)
    before = freeze(st)
    t = h.sw.Masw.run(names, st)
    h.check(st == before, "the settings given are not modified")
    return t, names, before
