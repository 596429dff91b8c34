"""C31 reducing several peaks per frequency to one."""
from props import pk

BOUNDS = ("1..3 peaks at each of 1..2 frequencies, any of them missing, any velocity and power; peaks in one row; "
          "14 by 25 and 3 by 70 peaks, one of them of any velocity and power; powers of the order of 1 and of 1e-9")


def grid(h, rows=2, cols=2, power=True, scale=1.0):
    fr = [h.real(f"f{j}", 1, 100) for j in range(cols)]
    ve = [[h.real(f"v{i}{j}", 50, 1000) for j in range(cols)] for i in range(rows)]
    pw = [[h.real(f"p{i}{j}", -100, 100) * scale for j in range(cols)] for i in range(rows)]
    gone = [[bool(h.flag(f"g{i}{j}")) for j in range(cols)] for i in range(rows)]
    how = h.choice("how", ["missing", "rejected"])
    for j in range(cols):
        for i in range(rows):
            for k in range(i):
                h.require(h.any_([h.gap(pw[i][j], pw[k][j], 1e-6 * scale), h.gap(pw[k][j], pw[i][j], 1e-6 * scale)]))
    vv = [[pk.NAN if gone[i][j] and how == "missing" else ve[i][j] for j in range(cols)] for i in range(rows)]
    ff = [list(fr) for _ in range(rows)]
    p = h.sw.Peaks(ff, vv, **({"power": pw} if power else {}))
    if how == "rejected":
        pk.drop(h, p, h.np.array(gone))
    attr = h.choice("attr", ["frequency", "velocity", "wavelength"] + (["power"] if power else []))
    got = h.tolist(p.simplify_mpeaks(attr))
    live = [j for j in range(cols) if not all(gone[i][j] for i in range(rows))]
    h.check(len(got) == len(live), "one value per frequency with a peak left")
    for g, j in zip(got, live):
        rest = [i for i in range(rows) if not gone[i][j]]
        val = {"frequency": lambda i: fr[j], "velocity": lambda i: ve[i][j], "power": lambda i: pw[i][j],
               "wavelength": lambda i: ve[i][j] / fr[j]}[attr]
        if not power:
            h.check_eq(g, val(rest[0]), "without power the first peak left is taken")
            continue
        for i in rest:
            best = h.all_([h.le(pw[q][j], pw[i][j], 0.0) for q in rest])
            h.check(h.implies(best, h.eq(g, val(i), 1e-9)), "the value is that of the strongest peak left")
    before = [[not gone[i][j] for j in range(cols)] for i in range(rows)]
    flat = [(i, j) for i in range(rows) for j in range(cols) if before[i][j]]
    h.check_eq(pk.shown(h, p, "velocity"), [ve[i][j] for i, j in flat], "the peaks are unchanged")


def row(h, k=3):
    """A single row of peaks is offered as it is, rejected peaks left out."""
    f, v = pk.values(h, k)
    gone = [bool(h.flag(f"g{i}")) for i in range(k)]
    p = h.sw.Peaks(f, v, power=[float(i) for i in range(k)])
    pk.drop(h, p, h.np.array(gone))
    for a in ("frequency", "velocity", "wavelength"):
        h.check_eq(h.tolist(p.simplify_mpeaks(a)), [pk.amount(h, a, x, y) for x, y, g in zip(f, v, gone) if not g],
                   "a single row is offered as it is")


def large(h, rows=14, cols=25, scale=1.0, gone=True):
    """Many peaks at each of many frequencies; the power and velocity of any two of them vary."""
    fr = [round(0.37 * (j + 1), 4) for j in range(cols)]
    ve = [[round(100.3 + ((7 * i + 11 * j) % 29) * 13.7, 4) for j in range(cols)] for i in range(rows)]
    pw = [[round(((5 * i * i + 3 * i * j + 7 * j) % 101) + i * 0.0137 - 30, 4) * scale for j in range(cols)] for i in range(rows)]
    r, c = h.choice("at", [(rows - 1, cols - 1), (0, 0), (rows // 2, cols // 2), (rows - 2, 1)])
    ve[r][c] = h.real("v", 10, 6000)
    pw[r][c] = h.real("p", -100, 200) * scale
    out = [[gone and (3 * i + 5 * j) % 7 == 0 and (i, j) != (r, c) for j in range(cols)] for i in range(rows)]
    for i in range(rows):
        if i != r:
            h.require(h.any_([h.gap(pw[i][c], pw[r][c], 1e-6 * scale), h.gap(pw[r][c], pw[i][c], 1e-6 * scale)]))
    p = h.sw.Peaks([list(fr) for _ in range(rows)], ve, power=pw)
    pk.drop(h, p, h.np.array(out))
    got = {a: h.tolist(p.simplify_mpeaks(a)) for a in ("frequency", "velocity", "wavelength", "power")}
    h.check_eq(got["frequency"], fr, "one value per frequency with a peak left")
    for j in range(cols):
        rest = [i for i in range(rows) if not out[i][j]]
        if j != c:
            i = max(rest, key=lambda q: pw[q][j])
            h.check_eq(got["velocity"][j], ve[i][j], "the value is that of the strongest peak left")
            h.check_eq(got["wavelength"][j], ve[i][j] / fr[j], "the value is that of the strongest peak left")
            continue
        for i in rest:
            best = h.all_([h.le(pw[q][j], pw[i][j], 0.0) for q in rest])
            h.check(h.implies(best, h.eq(got["velocity"][j], ve[i][j], 1e-9)), "the value is that of the strongest peak left")
            if scale == 1.0:
                h.check(h.implies(best, h.eq(got["power"][j], pw[i][j], 1e-9)), "the value is that of the strongest peak left")


HARNESSES = [
    (large, [dict(), dict(rows=3, cols=70), dict(rows=12, cols=2, scale=1e-9, gone=False)], [dict(rows=40, cols=40)]),
    (grid, [dict(), dict(rows=3, cols=1), dict(power=False), dict(rows=1), dict(rows=3, cols=1, scale=1e-9)], [dict(rows=3, power=False), dict(rows=4, cols=1)]),
    (row, [dict()]),
]
