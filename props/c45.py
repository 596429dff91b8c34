"""C45 sources and registries."""

BOUNDS = "any positions given as numbers or text of numbers; up to 4 names registered in any order, twice or not"


def source(h):
    P = h.sw.Source
    a, b = h.reals("a", 3, -1000, 1000), h.reals("b", 3, -1000, 1000)
    s, t = P(*a), P(b[0], y=b[1], z=b[2])
    h.check_eq([s.x, s.y, s.z], a, "a source keeps its position")
    same = h.all_([h.eq(x, y, 0.0) for x, y in zip(a, b)])
    for x, y in zip(a, b):
        h.require(h.any_([h.eq(x, y), h.gap(x, y, 1e-6), h.gap(y, x, 1e-6)]))
    eq = bool(s == t)
    h.check(h.implies(same, eq), "sources at the same place are equal")
    h.check(h.implies(eq, same), "sources at different places differ")
    h.check(bool(t == s) == eq, "equality goes both ways")
    c = P.from_source(s)
    h.check(c is not s and bool(c == s), "a copy is at the same place")
    h.check_eq([c.x, c.y, c.z], a, "a copy keeps every coordinate")
    o = h.choice("o", [None, 1.0, "x", (1, 2, 3)])
    h.check(not (s == o) and s != o, "a source differs from anything else")


def text(h):
    """The printed form gives the source back."""
    v = h.choice("v", [(1.0, 2.0, 3.0), (-2.5, 0.0, 7.25), (3, -4, 0)])
    s = h.sw.Source(*v)
    r = eval(str(repr(s)), {"Source": h.sw.Source})
    h.check(bool(r == s), "the printed form is the source")


def whole(h):
    """Whole numbers are kept exactly, as floats."""
    v = h.ints("v", 3, -10**6, 10**6)
    s = h.sw.Source(*v)
    h.check_eq([s.x, s.y, s.z], v, "whole numbers are kept")
    t = h.sw.Source(*[x * 1.0 for x in v])
    h.check(bool(s == t), "the way the number is given does not matter")


def signal(h, n=3):
    """A source with a signal is a source and a record."""
    a, amp, dt = h.reals("a", 3, -1000, 1000), h.reals("s", n, -10, 10), h.real("dt", 0.001, 1)
    C = h.mod("source").SourceWithSignal
    s = C(*a, amp, dt)
    h.check_eq([s.x, s.y, s.z], a, "the position is kept")
    h.check_eq(h.tolist(s.amplitude), amp, "the signal is kept")
    h.check_eq(s.dt, dt, "the step is kept")
    h.check(isinstance(s, h.sw.Source), "a source with signal is a source")
    h.check_eq([h.sw.Source.from_source(s).x, h.sw.Source.from_source(s).z], [a[0], a[2]], "its position can be taken alone")


def registry(h, which="WavefieldTransformRegistry", n=3):
    """The last class registered under a name is the one given for it."""
    m = h.mod("register")
    R = getattr(m, which)
    other = getattr(m, "MaswWorkflowRegistry" if which.startswith("Wave") else "WavefieldTransformRegistry")
    before = dict(R._register), dict(other._register)
    names, last = [], {}
    try:
        for i in range(n):
            name = h.choice(f"n{i}", ["symx-a", "Symx-A"])
            K = type(f"K{i}", (), {"__init__": lambda self, *a, **k: setattr(self, "got", (a, k))})
            h.check(R.register(name)(K) is K, "registering returns the class itself")
            last[name] = K
            names.append(name)
            for q, c in last.items():
                h.check(R.create_class(q) is c, "a name gives the class registered last under it")
        for q, c in last.items():
            o = R.create_instance(q, 1, "x", z=2)
            h.check(type(o) is c and o.got == ((1, "x"), {"z": 2}), "an instance is made with the arguments given")
        for q in ("symx-a", "Symx-A", "SYMX-A", "symx-b", "symx-a "):
            if q not in last:
                h.check_raises(KeyError, "unknown names are refused", R.create_class, q)
                h.check_raises(KeyError, "unknown names are refused", R.create_instance, q)
            h.check_raises(KeyError, "registries are separate", other.create_class, q)
        for q, c in before[0].items():
            h.check(R.create_class(q) is c, "other names stay")
    finally:
        for r, b in ((R, before[0]), (other, before[1])):
            r._register.clear()
            r._register.update(b)


def names(h):
    """The names settings may use give the documented classes."""
    m = h.mod("register")
    w = h.mod("wavefieldtransforms")
    f = h.mod("maswworkflows")
    T, W = m.WavefieldTransformRegistry, m.MaswWorkflowRegistry
    for n, c in (("fk", w.FK), ("fdbf", w.FDBF), ("phaseshift", w.PhaseShift), ("slantstack", w.SlantStack), ("empty", w.EmptyWavefieldTransform)):
        h.check(T.create_class(n) is c, "transforms are known by name")
    for n, c in (("single", f.SingleMaswWorkflow), ("time-domain", f.TimeDomainMaswWorkflow), ("frequency-domain", f.FrequencyDomainMaswWorkflow)):
        h.check(W.create_class(n) is c, "workflows are known by name")


HARNESSES = [
    (source, [dict()]),
    (text, [dict()]),
    (whole, [dict()]),
    (signal, [dict()], [dict(n=5)]),
    (registry, [dict(), dict(which="MaswWorkflowRegistry")], [dict(n=4)]),
    (names, [dict()]),
]
