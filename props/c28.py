"""C28 peak attributes stay aligned and derived quantities agree."""
from props import pk

BOUNDS = ("1..4 peaks (in one row, or 2 by 2) of any positive frequency and velocity with missing peaks anywhere; any "
          "azimuth, ellipticity, noise and power")


def attributes(h, k=3):
    f, v = pk.values(h, k)
    gone = [bool(h.flag(f"nan{i}")) for i in range(k)]
    vv = [pk.NAN if g else x for g, x in zip(gone, v)]
    names = pk.EXTRA if h.flag("extra") else []
    extra = {a: [h.real(f"{a}{i}", -100, 100) for i in range(k)] for a in names}
    ident = h.choice("ident", ["0", "16200-capon"])
    p = h.sw.Peaks(f, vv, **extra) if ident == "0" and h.flag("default") else h.sw.Peaks(f, vv, identifier=ident, **extra)
    h.check(p.identifier == ident, "the identifier is as given")
    keep = [not g for g in gone]
    pk.check_valid(h, p, f, v, keep, "peaks with a velocity are offered in order", extra)
    for a in pk.DERIVED[2:]:
        h.check_eq(pk.shown(h, p, a), [pk.amount(h, a, x, y) for x, y, q in zip(f, v, keep) if q],
                   f"{a} is that of each peak", 1e-6)
    h.check([str(a) for a in p.attrs] == ["frequency", "velocity"] + names, "attributes given are listed")
    h.check(sorted(p.extended_attrs) == sorted(["frequency", "velocity", "wavelength", "slowness", "wavenumber"] + names),
            "all attributes are listed")


def grid(h):
    """Several peaks per frequency, some missing."""
    f, v = pk.values(h, 4)
    gone = [bool(h.flag(f"nan{i}")) for i in range(4)]
    vv = [pk.NAN if g else x for g, x in zip(gone, v)]
    two = lambda x: [x[:2], x[2:]]  # noqa: E731
    az = [h.real(f"az{i}", 0, 360) for i in range(4)]
    p = h.sw.Peaks(two(f), two(vv), azimuth=two(az))
    keep = [not g for g in gone]
    pk.check_valid(h, p, f, v, keep, "peaks with a velocity are offered in order", {"azimuth": az})
    h.check_eq(pk.shown(h, p, "wavelength"), [pk.amount(h, "wavelength", x, y) for x, y, q in zip(f, v, keep) if q],
               "wavelength is that of each peak", 1e-6)


def independent(h):
    """Changing the lists given afterwards, or values returned, changes nothing."""
    f, v = pk.values(h, 2)
    a, b, c = list(f), list(v), [1.0, 2.0]
    src = h.choice("src", ["list", "array"])
    ga, gb, gc = (a, b, c) if src == "list" else (h.arr(a), h.arr(b), h.arr(c))
    p = h.sw.Peaks(ga, gb, azimuth=gc)
    for g in (ga, gb, gc):
        g[0] = 7.0
    p.frequency[0] = 3.0
    p.velocity[0] = 3.0
    p.azimuth[0] = 3.0
    pk.check_valid(h, p, f, v, [True, True], "peaks are independent of what was given or returned", {"azimuth": [1.0, 2.0]})


def many(h, n=75):
    """Many peaks with further attributes, given to many digits."""
    c, e = h.real("c", 10, 6000), h.real("e", -100, 100)
    f = [round(0.0123456789 * (j + 1), 10) for j in range(n)]
    v = [round(123.456789123 + 1.000000789 * j, 9) for j in range(n)]
    v[n - 2], gone = c, (3, n - 1)
    ex = {a: [round(1.123456789 * (q + 1) + 0.3333333331 * j, 10) for j in range(n)] for q, a in enumerate(pk.EXTRA)}
    ex["power"][n - 2] = e
    vv = [pk.NAN if j in gone else x for j, x in enumerate(v)]
    p = h.sw.Peaks(f, vv, **ex)
    keep = [j not in gone for j in range(n)]
    pk.check_valid(h, p, f, v, keep, "many peaks are offered in order, to the last digit", ex)
    for a in pk.DERIVED[2:]:
        h.check_eq(pk.shown(h, p, a), [pk.amount(h, a, x, y) for x, y, q in zip(f, v, keep) if q],
                   f"{a} is that of each peak", 1e-6)


HARNESSES = [(many, [dict()], [dict(n=300)]),
             (attributes, [dict(), dict(k=1)], [dict(k=5)]), (grid, [dict()]), (independent, [dict()])]
