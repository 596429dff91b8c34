"""C34 reading peaks from .max files."""
BOUNDS = ("files of 2..5 peak lines with any digits in times, frequencies and values (times of different lengths, "
          "exponents, infinite noise, rejected lines), one to three time windows, one to three maxima, every wave "
          "type; one or two files; 14 maxima at a frequency, 14 frequencies (also apart by 1e-6), 14 windows (100 maxima thoroughly)")
HEAD = "# MAX FORMAT RELEASE 1.1\n  QGpCoreTools 2.2.0 from geopsypack-{ver}\nPROCESS_TYPE={proc}\nN_MAXIMA={nmax}\n# BEGIN DATA\n#\n# abs_time frequency polarization slowness azimuth ellipticity noise power valid\n"


def _line(t, f, wt, vals, ok=1):
    return f"{t} {f} {wt} " + " ".join(vals) + f" {ok}\n"


def _file(lines, proc="RTBF", nmax=3, ver="3.2.0"):
    text = HEAD.replace("{ver}", ver).replace("{proc}", proc).replace("{nmax}", str(nmax))
    for ln in lines:
        text = text + _line(*ln)
    return text


def _expect(h, lines, wt, when=None):
    """Peaks of each time window in the order found: {time: {freq: [values]}}."""
    times, freqs = [], []
    for t, f, w, vals, *ok in lines:
        if w == wt and (not ok or ok[0] == 1):
            if not any(t == x for x in times):
                times.append(t)
            if not any(f == x for x in freqs):
                freqs.append(f)
    out = []
    for t in times:
        cols = []
        for f in freqs:
            cols.append([(f, v) for tt, ff, w, v, *ok in lines if w == wt and (not ok or ok[0] == 1) and tt == t and ff == f])
        rows = max(len(c) for c in cols)
        out.append((t, [c[i] for i in range(rows) for c in cols if i < len(c)]))
    return out


def _match(h, p, t, want, proc, label):
    h.check(p.identifier == t + "-" + proc, label + ": the identifier names window and method")
    h.check_eq(h.tolist(p.frequency), [h.num(f) for f, _ in want], label + ": frequencies")
    h.check(len(h.tolist(p.velocity)) == len(want), label + ": velocities")
    for x, (_, v) in zip(h.tolist(p.velocity), want):
        h.check_eq(x * h.num(v[0]), 1.0, label + ": velocity is the inverse of slowness", 1e-6)
    for i, a in ((1, "azimuth"), (2, "ellipticity"), (4, "power")):
        h.check_eq(h.tolist(getattr(p, a)), [h.num(v[i]) for _, v in want], label + ": " + a)
    noise = h.tolist(p.noise)
    h.check(len(noise) == len(want), label + ": noise")
    for x, (_, v) in zip(noise, want):
        y = float(v[3]) if isinstance(v[3], str) and v[3] in ("inf", "-inf", "nan") else h.num(v[3])
        if isinstance(v[3], str) and v[3] == "nan":
            h.check(h.is_nan(x), label + ": noise")
        else:
            h.check_eq(x, y, label + ": noise")


def _check(h, name, lines, wt, asked, proc):
    want = _expect(h, lines, wt)
    s = h.sw.PeaksSuite.from_max(name, wavetype=asked)
    h.check(len(s) == len(want), "one set of peaks per time window")
    for p, (t, w) in zip(s.peaks, want):
        _match(h, p, t, w, proc, "suite")
    p = h.sw.Peaks.from_max(name, wavetype=asked)
    own = [x for x in want[:1]]
    _match(h, p, own[0][0], own[0][1], proc, "first window")


def _val(h, nm, form="full"):
    if form == "exp":
        return ["2." + h.digits(nm, 1) + "e-03", "1.5e+02", "-1.0", "3.0", "5." + h.digits(nm + "p", 1) + "e+03"]
    if form == "int":
        return ["0.00" + h.digits(nm, 1, first_nonzero=True), h.digits(nm + "a", 1), "0", "0", "8"]
    if form == "inf":
        return ["0.00" + h.digits(nm, 1, first_nonzero=True), "10.5", "-0.5", h.choice(nm + "i", ["inf", "-inf", "nan"]), "1"]
    return ["0.00" + h.digits(nm, 1, first_nonzero=True) + "5", "14" + h.digits(nm + "a", 1) + ".5", "-1.2", "10", "1" + h.digits(nm + "p", 1)]


def windows(h, form="full"):
    """Times of any digits, one possibly the tail of another."""
    a, b = h.digits("a", 1, first_nonzero=True), h.digits("b", 1, first_nonzero=True)
    t1, t2 = h.choice("t", [(a + b + ".0", b + ".0"), (b + ".0", a + b + ".0"), (a + "0.5", b + "0.5"), (a + ".5", b + "5"),
                            ("2017060922" + a + "0.00", "2017060922" + b + "0.00")])
    if len(t1) == len(t2):
        h.require(h.any_([h.lt(h.num(t1), h.num(t2)), h.lt(h.num(t2), h.num(t1))]))
    lines = [(t1, "5.5", "Rayleigh", _val(h, "x", form)), (t1, "5.5", "Love", _val(h, "y", form)),
             (t2, "5.5", "Rayleigh", _val(h, "z", form))]
    h.write_text("a.max", _file(lines))
    wt = h.choice("wt", ["rayleigh", "love"])
    _check(h, "a.max", lines, wt.capitalize(), wt, "rtbf")


def frequencies(h):
    """Frequencies of any digits and shape."""
    c, d = h.digits("c", 1, first_nonzero=True), h.digits("d", 1)
    f1, f2 = h.choice("f", [(c + "." + d, c + "7" + d), (c + ".5", "5" + d + ".5"), (c + "5", c + "5" + d), (c + "e-01", c + "e-0" + d)])
    if f1[-3:] == "-01":
        h.require(h.any_([h.lt(h.num(d), 1.0), h.lt(1.0, h.num(d))]))
    t = "7200.5"
    lines = [(t, f1, "Rayleigh", _val(h, "x", "int")), (t, f1, "Rayleigh", _val(h, "y")), (t, f2, "Rayleigh", _val(h, "z"))]
    h.write_text("a.max", _file(lines))
    _check(h, "a.max", lines, "Rayleigh", "rayleigh", "rtbf")


def values(h, form="exp"):
    t = "7200.5"
    lines = [(t, "5.5", "Rayleigh", _val(h, "x", form)), (t, "6.5", "Rayleigh", _val(h, "z", form)),
             (t, "6.5", "Rayleigh", _val(h, "w"))]
    h.write_text("a.max", _file(lines, nmax=h.choice("nmax", [2, 3])))
    _check(h, "a.max", lines, "Rayleigh", "rayleigh", "rtbf")


def rejected(h):
    """Lines marked as not valid are left out, whatever they hold."""
    t = "7200.5"
    ok = [h.choice(f"ok{i}", [0, 1]) for i in range(3)]
    if not any(ok):
        h.stop()
    vs = ["0.00" + h.digits("s", 1, first_nonzero=True), "1" + h.digits("z", 1) + "0.5", "1.5", "2.5", h.digits("p", 1)]
    lines = [(t, "5.5", "Rayleigh", vs, ok[0]), (t, "5.5", "Rayleigh", _val(h, "y"), ok[1]), (t, "6.5", "Rayleigh", _val(h, "w"), ok[2])]
    h.write_text("a.max", _file(lines))
    _check(h, "a.max", lines, "Rayleigh", "rayleigh", "rtbf")


def vertical(h, form="full"):
    """Vertical-component files are recognised when Rayleigh peaks are asked for."""
    proc = h.choice("proc", ["RTBF", "Conventional", "OmniActiveRTBF"])
    t = h.digits("a", 1, first_nonzero=True) + "200.5"
    lines = [(t, "5.5", "Vertical", _val(h, "x", form)), (t, "6.5", "Vertical", _val(h, "z", form))]
    h.write_text("a.max", _file(lines, proc=proc))
    asked = h.choice("asked", ["rayleigh", "vertical"])
    _check(h, "a.max", lines, "Vertical", asked, "capon" if proc == "RTBF" else proc.lower())


def files(h):
    """Several files are read independently of each other."""
    a = h.digits("a", 1, first_nonzero=True)
    types = h.choice("types", [("Vertical", "Rayleigh"), ("Rayleigh", "Vertical"), ("Rayleigh", "Rayleigh")])
    nmax = h.choice("nmax", [(1, 2), (2, 1)])
    ls = []
    for i, (w, nm) in enumerate(zip(types, nmax)):
        t = f"{i + 1}" + a + "00.0"
        ls.append([(t, f"5.{k}", w, _val(h, f"x{i}{k}{m}")) for k in range(1) for m in range(nm)])
        h.write_text(f"{i}.max", _file(ls[-1], nmax=nm))
    s = h.sw.PeaksSuite.from_max(["0.max", "1.max"])
    h.check(len(s) == 2, "every file is read")
    for p, lines, w in zip(s.peaks, ls, types):
        (t, want), = _expect(h, lines, w)
        _match(h, p, t, want, "capon" if w == "Vertical" else "rtbf", "each file is read by itself")


def refuse(h):
    """Other software versions and unknown wave types are refused."""
    ver = "3." + h.digits("v", 1) + "." + h.digits("w", 1)
    asked = h.choice("asked", ["rayleigh", "Rayleigh", "surface"])
    lines = [("7200.5", "5.5", "Rayleigh", _val(h, "x"))]
    h.write_text("a.max", _file(lines, ver=ver))
    ok = ver == "3.2.0" and asked == "rayleigh"
    for f in (h.sw.Peaks.from_max, h.sw.PeaksSuite.from_max):
        _, e = h.attempt(f, "a.max", wavetype=asked)
        if ok:
            h.check(e is None, "the supported version is read")
        else:
            h.check(isinstance(e, ValueError), "another version or wave type is refused with ValueError")


def signed(h):
    """Any quantity may be written with a sign, an exponent or without a point."""
    t, d = "7200.5", h.digits("d", 1, first_nonzero=True)
    odd = h.choice("odd", ["-" + d + ".5", "-" + d, d + "e-02", d + ".5E+01", "-0." + d, d + ".", "-" + d + ".5e-01", "0" + d])
    where = h.choice("where", [1, 2, 3, 4])
    vs = ["0.00" + h.digits("s", 1, first_nonzero=True), "10.5", "-0.5", "1.5", "2.5"]
    vs[where] = odd
    lines = [(t, "5.5", "Rayleigh", _val(h, "y")), (t, "5.5", "Rayleigh", vs), (t, "6.5", "Rayleigh", _val(h, "w"))]
    h.write_text("a.max", _file(lines))
    _check(h, "a.max", lines, "Rayleigh", "rayleigh", "rtbf")


def many(h, n=14, nmax=20, by="maxima"):
    """Many maxima at a frequency, many frequencies or many time windows."""
    d = [h.digits(f"d{i}", 1, first_nonzero=True) if i in (0, n - 2, n - 1) else str(i % 9 + 1) for i in range(n)]
    lines = []
    for i in range(n):
        t = f"{7200 + 60 * i}.0" if by == "windows" else f"{7200 + 60 * (i // 2 if by == 'pairs' else i % (n // 2))}.0" if by in ("pairs", "turns") else "7200.0"
        f = f"{5 + i}.25" if by == "frequencies" else f"5.0000{i + 10}" if by == "near" else "5.5"
        f = f"{6 + (i % 2 if by == 'pairs' else i // (n // 2))}.5" if by in ("pairs", "turns") else f
        big = str(10 ** i) + ".5" if by == "near" else "10"
        lines.append((t, f, "Rayleigh", ["0.00" + d[i], f"{i}.5", "-1.5", big, f"1{i}.0"]))
    h.write_text("a.max", _file(lines, nmax=nmax))
    _check(h, "a.max", lines, "Rayleigh", "rayleigh", "rtbf")


HARNESSES = [
    (signed, [dict()]),
    (many, [dict(), dict(by="frequencies", nmax=1), dict(by="windows", nmax=1), dict(by="near", nmax=1), dict(by="pairs", nmax=1), dict(by="turns", n=26, nmax=1)], [dict(n=60, nmax=100), dict(n=100, nmax=100)]),
    (windows, [dict()], [dict(form="exp"), dict(form="int")]),
    (frequencies, [dict()]),
    (values, [dict(), dict(form="int"), dict(form="inf")]),
    (rejected, [dict()]),
    (vertical, [dict(), dict(form="inf")]),
    (files, [dict()]),
    (refuse, [dict()]),
]
