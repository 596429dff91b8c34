"""C35 membership of a suite."""
from props import pk

BOUNDS = ("suites of 1..4 members with any peaks and any choice of identifiers, in every order of appending, refused "
          "and accepted, one by one, from a list, from suites and from dictionaries; 14 and 33 members with any one of them repeated")

IDS = ["a", "A", "a ", "1"]


def _members(h, n, ids=None):
    f, v = pk.values(h, n)
    ids = ids or [h.choice(f"id{i}", IDS[:max(2, n)]) for i in range(n)]
    return f, v, ids, [h.sw.Peaks([f[i]], [v[i]], identifier=ids[i]) for i in range(n)]


def _is(h, s, ps, label):
    h.check(len(s) == len(ps) and len(s.peaks) == len(ps), label + ": number of members")
    h.check(list(s.ids) == [p.identifier for p in ps], label + ": identifiers")
    h.check(all([s[i] is p for i, p in enumerate(ps)]), label + ": members by index")
    h.check(len(list(s)) == len(ps) and all([a is b for a, b in zip(s, ps)]), label + ": members in turn")
    h.check(s[-1] is ps[-1], label + ": last member")


def append(h, n=3):
    """One by one: a new identifier is added last, one already there is refused."""
    f, v, ids, ps = _members(h, n)
    s = h.sw.PeaksSuite(ps[0])
    have = [ps[0]]
    for i in range(1, n):
        if ids[i] in [p.identifier for p in have]:
            h.check_raises(KeyError, "an identifier already there is refused", s.append, ps[i])
        else:
            s.append(ps[i])
            have.append(ps[i])
        bad = h.choice(f"bad{i}", [None, "a", 3, {}]) if i == 1 else None
        h.check_raises(TypeError, "only peaks are accepted", s.append, bad)
        _is(h, s, have, "after appending")
    for i in range(n):
        pk.check_valid(h, ps[i], [f[i]], [v[i]], [True], "members are unchanged")


def from_list(h, n=3, how="list"):
    f, v, ids, ps = _members(h, n)
    if how == "list":
        s, e = h.attempt(h.sw.PeaksSuite.from_peaks, tuple(ps) if h.flag("tuple") else ps)
    else:
        s, e = h.attempt(h.sw.PeaksSuite.from_peaks, ps[:1] + [h.choice("x", [None, "peaks"])] + ps[1:])
        h.check(isinstance(e, TypeError), "anything else among the peaks is refused")
        return
    if len(set(ids)) < n:
        h.check(isinstance(e, KeyError), "two members with the same identifier are refused")
        return
    if e is not None:
        raise e
    _is(h, s, ps, "from peaks")
    ps.append(None)
    h.check(len(s) == n, "the list given may change afterwards")


def from_suites(h, a=2, b=2):
    f, v = pk.values(h, a + b)
    ids = [f"m{i}" for i in range(a)] + [h.choice(f"id{i}", ["m0", "x", "y"]) for i in range(b)]
    ps = [h.sw.Peaks([f[i]], [v[i]], identifier=ids[i]) for i in range(a + b)]
    if len(set(ids[a:])) < b:
        return
    s, t = h.sw.PeaksSuite.from_peaks(ps[:a]), h.sw.PeaksSuite.from_peaks(ps[a:])
    u, e = h.attempt(h.sw.PeaksSuite.from_peakssuite, [s, t])
    if "m0" in ids[a:]:
        h.check(isinstance(e, KeyError), "suites sharing an identifier are refused")
    else:
        if e is not None:
            raise e
        _is(h, u, ps, "from suites")
    _is(h, s, ps[:a], "the first suite is unchanged")
    _is(h, t, ps[a:], "the second suite is unchanged")
    one = h.sw.PeaksSuite.from_peakssuite(s)
    _is(h, one, ps[:a], "a single suite")
    one.append(h.sw.Peaks([1.0], [2.0], identifier="new"))
    _is(h, s, ps[:a], "appending to the new suite leaves the old one")


def from_dict(h, n=3, split=False):
    f, v = pk.values(h, n)
    az = [h.real(f"z{i}", 0, 360) for i in range(n)]
    ids = [f"p{i}" for i in range(n)]
    if split:
        ids[-1] = h.choice("last", ["p0", "q"])
    ds = [{ids[i]: {"frequency": [f[i]], "velocity": [v[i]], "azimuth": [az[i]]}} for i in range(n)]
    if not split:
        one = {}
        for d in ds:
            one.update(d)
        ds = one if h.flag("bare") else [one]
    s, e = h.attempt(h.sw.PeaksSuite.from_dict, ds)
    if split and ids[-1] == "p0":
        h.check(isinstance(e, KeyError), "an identifier in two dictionaries is refused")
        return
    if e is not None:
        raise e
    h.check([p.identifier for p in s.peaks] == ids and list(s.ids) == ids and len(s) == n,
            "every dataset becomes a member, in order")
    for i in range(n):
        pk.check_valid(h, s[i], [f[i]], [v[i]], [True], "members hold their own data", {"azimuth": [az[i]]})


def create(h):
    x = h.choice("x", [None, "a", 3, [1.0], {}])
    h.check_raises(TypeError, "a suite starts with peaks", h.sw.PeaksSuite, x)
    p = h.sw.Peaks([h.real("f", 1, 9)], [h.real("v", 9, 99)], identifier=h.choice("id", ["a", 7]))
    s = h.sw.PeaksSuite(p)
    _is(h, s, [p], "a suite of one")
    h.check(p.identifier == str(p.identifier), "identifiers are text")
    h.check_raises(KeyError, "the identifier of the first member is taken", s.append,
                   h.sw.Peaks([1.0], [2.0], identifier=str(p.identifier)))
    _is(h, s, [p], "still a suite of one")


def many(h, n=14):
    """Suites of many members: every identifier stays taken."""
    f, v = pk.values(h, 2)
    k = h.choice("k", range(n))
    ps = [h.sw.Peaks([f[0] if i == k else 1.0 + i], [v[0] if i == k else 200.0 + i], identifier=f"t{i}") for i in range(n)]
    s = h.sw.PeaksSuite.from_peaks(ps)
    _is(h, s, ps, "from peaks")
    twin = h.sw.Peaks([f[1]], [v[1]], identifier=f"t{k}")
    h.check_raises(KeyError, "an identifier already there is refused", s.append, twin)
    _is(h, s, ps, "after a refusal")
    _, e = h.attempt(h.sw.PeaksSuite.from_peaks, ps + [twin])
    h.check(isinstance(e, KeyError), "two members with the same identifier are refused")
    _, e = h.attempt(h.sw.PeaksSuite.from_peakssuite, [s, h.sw.PeaksSuite(twin)])
    h.check(isinstance(e, KeyError), "suites sharing an identifier are refused")
    last = h.sw.Peaks([f[1]], [v[1]], identifier=f"u{k}")
    u = h.sw.PeaksSuite.from_peakssuite([s, h.sw.PeaksSuite(last)])
    _is(h, u, ps + [last], "from suites")
    _is(h, s, ps, "the suite joined is unchanged")
    s.append(last)
    _is(h, s, ps + [last], "a new identifier is added last")
    d = {p.identifier: {"frequency": h.tolist(p.frequency), "velocity": h.tolist(p.velocity)} for p in ps}
    r = h.sw.PeaksSuite.from_dict(d)
    h.check(list(r.ids) == [p.identifier for p in ps] and len(r) == n, "every dataset becomes a member, in order")
    pk.check_valid(h, r[k], [f[0]], [v[0]], [True], "members hold their own data")


HARNESSES = [
    (many, [dict(), dict(n=33)], [dict(n=110)]),
    (append, [dict(), dict(n=2)], [dict(n=4)]),
    (from_list, [dict(), dict(n=1), dict(how="bad")], [dict(n=4)]),
    (from_suites, [dict(), dict(a=1, b=1)], [dict(a=3, b=2)]),
    (from_dict, [dict(), dict(split=True), dict(n=1)], [dict(n=4, split=True)]),
    (create, [dict()]),
]
