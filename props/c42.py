"""C42 extraction of time blocks from hourly files."""
import datetime

BOUNDS = ("blocks of up to 3 hours starting at any hour of chosen days (ends of months and years, leap days), any minute and second, "
          "samples of any value every 900 s, a file that is missing or short; 1..2 blocks; blocks of 30 and 75 (thoroughly 400) hours and a table of 12 blocks; station numbers of 1 to 3 digits")

DAYS = [(2020, 2, 28), (2019, 2, 28), (2019, 12, 31), (2021, 9, 9), (2020, 10, 31)]
STEP = 900


def _name(net, sta, t, ext):
    return f"{net}.STN{sta:02d}_{t.year:04d}{t.month:02d}{t.day:02d}_{t.hour:02d}0000.{ext}"


def _row(folder, array, sta, t0, t1, ms):
    return {"folder name": folder, "array name": array, "station number": sta, "start year": t0.year, "start month": t0.month,
            "start date": t0.day, "start hour": t0.hour, "start minute": ms[0], "start second": ms[1], "end year": t1.year,
            "end month": t1.month, "end date": t1.day, "end hour": t1.hour, "end minute": ms[2], "end second": ms[3]}


def _files(h, net, sta, t0, n, ext, data, tag, gone=(), short=()):
    """Hourly files from t0 on; {time in seconds: value}."""
    vals = {}
    for i in range(n):
        t = t0 + datetime.timedelta(hours=i)
        k = 2 if i in short else 4
        d = [h.real(f"d{tag}{i}_{j}", -100, 100) for j in range(k)]
        if i in gone:
            continue
        h.stream(data + _name(net, sta, t, ext), [{"format": "MSEED", "header": {}, "data": d, "delta": STEP,
                                                    "starttime": h.utc(t.year, t.month, t.day, t.hour)}])
        s = int((t - datetime.datetime(1970, 1, 1)).total_seconds())
        for j in range(k):
            vals[s + j * STEP] = d[j]
    return vals


def _ms(h, tag, sec=True):
    m = [h.int(f"m{tag}0", 0, 59), h.int(f"s{tag}0", 0, 59) if sec else 0, h.int(f"m{tag}1", 0, 59), h.int(f"s{tag}1", 0, 59) if sec else 0]
    return m


def _verify(h, name, vals, t0, t1, ms, gaps=()):
    """The file holds the samples of the block, each at its time."""
    epoch = datetime.datetime(1970, 1, 1)
    a = int((t0 - epoch).total_seconds()) + 60 * ms[0] + ms[1]
    b = int((t1 - epoch).total_seconds()) + 60 * ms[2] + ms[3]
    w = h.written(name)
    h.check(w is not None, "a file is written under the name asked for")
    if w is None:
        return
    h.check(len(w) == 1, "one record per file")
    st, dt, data = w[0]
    h.check_eq(dt, STEP, "the sampling step is kept")
    n = len(data)
    last = st + (n - 1) * STEP
    far = max(vals)
    h.check(h.all_([h.le(a - STEP / 2, st), h.le(st, a + STEP / 2)]), "the record starts at the time asked for")
    h.check(h.any_([h.all_([h.le(b - STEP / 2, last), h.le(last, b + STEP / 2)]), h.all_([h.eq(last, far), h.lt(far, b)])]),
            "the record ends at the time asked for")
    for i in range(n):
        t = st + i * STEP
        t = int(t)
        if t in vals:
            h.check_eq(data[i], vals[t], "every sample is the one recorded at its time")
        else:
            h.check(t in gaps, "only gaps are filled")


def block(h, hours=1, early=0, short=(), nd=1):
    d = h.choice("day", DAYS[:nd])
    hr = h.choice("hour", [0, 9, 23] if hours else range(24))
    t0 = datetime.datetime(*d, hr)
    t1 = t0 + datetime.timedelta(hours=hours)
    sta = h.choice("sta", [1, 42, 100]) if hours == 0 else 7
    ext = "mseed" if hours else h.choice("ext", ["mseed", "miniseed"])
    data = "in/" if hours == 1 else ""
    # files before and after the block must not be needed nor used
    vals = _files(h, "NW", sta, t0, hours + 1, ext, data, "", short=short)
    ms = _ms(h, "", hours == 0)
    lo, hi = ms[0] * 60 + ms[1], hours * 3600 + ms[2] * 60 + ms[3]
    h.require(h.gap(lo + STEP, hi, 0))
    h.table("t.csv", [_row("f", "arr", sta, t0, t1, ms)])
    kw = {} if ext == "mseed" else {"extension": ext}
    if data:
        kw["data_dir"] = "in"
    if h.flag("out"):
        h.mkdir("o")
        kw["output_dir"] = "o"
    h.mod("utils").extract_mseed("t.csv", "NW", **kw)
    gaps = [int((t0 - datetime.datetime(1970, 1, 1)).total_seconds()) + i * STEP for i in range(4 * hours + 4)]
    folder = "o/f" if "output_dir" in kw else "f"
    h.check(h.exists(folder), "the folder asked for is made")
    _verify(h, f"{folder}/NW.STN{sta:02d}.arr.{ext}", vals, t0, t1, ms, [g for g in gaps if g not in vals])
    h.check(len(h.saved()) == 1, "one file per block")
    want = [data + _name("NW", sta, t0 + datetime.timedelta(hours=i), ext) for i in range(hours + 1)]
    h.check(sorted(r[0] for r in h.reads()) == sorted(want), "exactly the hours of the block are read, once")


def two(h):
    """Blocks are independent; folders may be shared or there already."""
    t = datetime.datetime(2021, 5, 30, 22)
    sta = [3, h.choice("sta", [3, 12])]
    folder = ["one", h.choice("folder", ["one", "two"])]
    arr = ["A", h.choice("arr", ["B"])]
    if h.flag("there"):
        h.mkdir("one")
    v0 = _files(h, "X", sta[0], t, 2, "mseed", "", "a")
    u = t + datetime.timedelta(hours=2)
    v1 = _files(h, "X", sta[1], u, 2, "mseed", "", "b")
    m0, m1 = [0, 0, 30, 0], [15, 0, h.choice("m", [0, 45]), 0]
    h.table("t.csv", [_row(folder[0], arr[0], sta[0], t, t + datetime.timedelta(hours=1), m0),
                      _row(folder[1], arr[1], sta[1], u, u + datetime.timedelta(hours=1), m1)])
    h.mod("utils").extract_mseed("t.csv", "X")
    _verify(h, f"{folder[0]}/X.STN{sta[0]:02d}.A.mseed", v0, t, t + datetime.timedelta(hours=1), m0)
    _verify(h, f"{folder[1]}/X.STN{sta[1]:02d}.B.mseed", v1, u, u + datetime.timedelta(hours=1), m1)
    h.check(len(h.saved()) == 2, "one file per block")


def refused(h):
    t = datetime.datetime(2021, 5, 30, h.choice("hour", [0, 5, 23]))
    _files(h, "X", 1, t - datetime.timedelta(hours=30), 31 + 30, "mseed", "", "a") if False else None
    ms = _ms(h, "", False)
    back = h.choice("back", [0, 1, 24])
    v = _files(h, "X", 1, t, 1, "mseed", "", "a")
    if back == 0:
        h.require(h.gap(ms[2] * 60 + STEP, ms[0] * 60, 0))
    h.table("t.csv", [_row("f", "A", 1, t, t - datetime.timedelta(hours=back), ms)])
    h.check_raises(ValueError, "a block that ends before it starts is refused with ValueError", h.mod("utils").extract_mseed, "t.csv", "X")
    h.check(h.saved() == [] and not h.exists("f"), "nothing is written for a block refused")
    _, e = h.attempt(h.mod("utils").extract_mseed, "none.csv", "X")
    h.check(isinstance(e, NotImplementedError), "tables that cannot be read are refused with NotImplementedError")


def missing(h):
    t = datetime.datetime(2021, 5, 30, 22)
    k = h.choice("k", range(3))
    _files(h, "X", 1, t, 3, "mseed", "", "a", gone=(k,))
    h.table("t.csv", [_row("f", "A", 1, t, t + datetime.timedelta(hours=2), [0, 0, 45, 0])])
    _, e = h.attempt(h.mod("utils").extract_mseed, "t.csv", "X")
    h.check(e is not None, "a missing hour is not passed over")
    h.check(h.saved() == [], "nothing is written with an hour missing")


def long(h, hours=30):
    """A block of many hours, over a change of year."""
    t0 = datetime.datetime(2019, 12, 30, 20)
    t1 = t0 + datetime.timedelta(hours=hours)
    vals = {}
    for i in range(hours + 1):
        t = t0 + datetime.timedelta(hours=i)
        d = [h.real(f"d{i}_{j}", -100, 100) if i in (0, hours) else float(10 * i + j) for j in range(4)]
        h.stream(_name("NW", 7, t, "mseed"), [{"format": "MSEED", "header": {}, "data": d, "delta": STEP,
                                               "starttime": h.utc(t.year, t.month, t.day, t.hour)}])
        s = int((t - datetime.datetime(1970, 1, 1)).total_seconds())
        vals.update({s + j * STEP: x for j, x in enumerate(d)})
    ms = _ms(h, "", False)
    h.table("t.csv", [_row("f", "arr", 7, t0, t1, ms)])
    h.mod("utils").extract_mseed("t.csv", "NW")
    _verify(h, "f/NW.STN07.arr.mseed", vals, t0, t1, ms)


def rows(h, n=12):
    """Many blocks: any two of one station, in any order."""
    t = datetime.datetime(2021, 5, 30, 20)
    want, table, v = [], [], None
    i, j = h.choice("pair", [(0, 1), (1, 0), (n - 1, n - 2), (3, n - 1)])
    for k in range(n):
        sta = 1 if k in (i, j) else 10 + k
        u = t + datetime.timedelta(hours=3 if k == i else 0)
        if sta > 1 or k == i:
            v = _files(h, "X", sta, t, 5 if sta == 1 else 2, "mseed", "", f"k{k}")
        if k == i:
            shared = v
        ms = [0, 0, 30, 0]
        u1 = u + datetime.timedelta(hours=1)
        table.append(_row(f"f{k % 4}", f"A{k}", sta, u, u1, ms))
        want.append((k, sta, v, u, u1, ms))
    h.table("t.csv", table)
    h.mod("utils").extract_mseed("t.csv", "X")
    for k, sta, v, u, u1, ms in want:
        _verify(h, f"f{k % 4}/X.STN{sta:02d}.A{k}.mseed", shared if sta == 1 else v, u, u1, ms)
    h.check(len(h.saved()) == n, "one file per block")


HARNESSES = [
    (long, [dict(), dict(hours=75)], [dict(hours=400)]),
    (rows, [dict()]),
    (block, [dict(hours=0), dict(hours=1, nd=3), dict(hours=1, short=(0,)), dict(hours=2)],
     [dict(hours=1, nd=5), dict(hours=3, nd=5), dict(hours=2, short=(0, 1))]),
    (two, [dict()]),
    (refused, [dict()]),
    (missing, [dict()]),
]
