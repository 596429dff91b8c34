"""C01 stacking of repeated shots."""
BOUNDS = ("records of 2..20 (thorough 40) samples with any sample values, sampling step, pre-trigger delay and "
          "stack counts (1..5000 each); histories of up to 4 appended records in any order, of 12 (thorough 30) in order and reversed, also padded or trimmed; position and attribute "
          "mismatches of any size")


def _rec(h, kind, amp, dt, nst, delay, pos=(0.0, 0.0, 0.0)):
    if kind == "sensor":
        return h.sw.Sensor1C(amp, dt, *pos, nstacks=nst, delay=delay)
    return h.sw.ActiveTimeSeries(amp, dt, nstacks=nst, delay=delay)


def mean(h, n=4, kind="ts"):
    dt = h.real("dt", 0.0001, 1.0)
    delay = h.real("delay", -1.0, 0.0)
    na, nb = h.int("na", 1, 5000), h.int("nb", 1, 5000)
    xa, xb = h.reals("a", n, -1e6, 1e6), h.reals("b", n, -1e6, 1e6)
    a = _rec(h, kind, xa, dt, na, delay)
    b = _rec(h, kind, xb, dt, nb, delay)
    a.stack_append(b)
    want = [(p * na + q * nb) / (na + nb) for p, q in zip(xa, xb)]
    h.observe("amp", a.amplitude)
    h.check_eq(a.amplitude, want, "stack is the stack-count weighted mean")
    h.check_eq(a.nstacks, na + nb, "stack counts add")
    h.check_eq(b.amplitude, xb, "the appended record is unchanged")
    h.check_eq([b.nstacks, b.dt, b.delay], [nb, dt, delay], "the appended record keeps its attributes")
    h.check_eq([a.dt, a.delay, a.nsamples], [dt, delay, n], "step, delay and length unchanged")


def history(h, n=2, k=3):
    """Any order of stacking k records gives the overall weighted mean."""
    dt = 0.25
    ns = [h.int(f"s{i}", 1, 9) for i in range(k)]
    xs = [h.reals(f"x{i}_", n, -100, 100) for i in range(k)]
    order = h.choice("order", _perms(k))
    recs = [_rec(h, "ts", x, dt, s, -0.5) for x, s in zip(xs, ns)]
    acc = recs[order[0]]
    for i in order[1:]:
        acc.stack_append(recs[i])
    tot = sum(ns[1:], ns[0])
    for j in range(n):
        w = xs[0][j] * ns[0]
        for i in range(1, k):
            w = w + xs[i][j] * ns[i]
        h.check_eq(acc.amplitude[j] * tot, w, "any stacking order gives the overall mean", 1e-5)
    h.check_eq(acc.nstacks, tot, "stack counts add over the history")


def itself(h, n=3, kind="ts"):
    """Appending a record to itself, or to its copy, changes nothing but the count."""
    ns = h.int("ns", 1, 9)
    x = h.reals("x", n, -100, 100)
    a = _rec(h, kind, x, 0.25, ns, -0.5)
    a.stack_append(a)
    h.check_eq(a.amplitude, x, "the mean of a record with itself is the record")
    h.check_eq(a.nstacks, 2 * ns, "stack counts add")
    a.stack_append(_rec(h, kind, x, 0.25, 1, -0.5))
    h.check_eq(a.amplitude, x, "the mean of a record with an equal one is the record")


def many(h, n=1, k=12):
    """Long histories, records padded or trimmed alike before."""
    how = h.choice("how", ["plain", "padded", "trimmed", "reversed"])
    ns = [h.int(f"s{i}", 1, 99) if i in (0, k - 1) else 1 + i % 3 for i in range(k)]
    xs = [[0.0] + h.reals(f"x{i}_", n, -100, 100) + [float(i)] for i in range(k)]
    recs = [_rec(h, "ts", x, 0.25, s, -0.5) for x, s in zip(xs, ns)]
    at = 1
    for r in recs:
        if how == "padded":
            r.zero_pad(1 / (7 * 0.25))
        elif how == "trimmed":
            r.trim(-0.25, -0.25 + n * 0.25)
            at = 0
    order = list(range(k))[::-1] if how == "reversed" else list(range(k))
    acc = recs[order[0]]
    for i in order[1:]:
        acc.stack_append(recs[i])
    tot = sum(ns[1:], ns[0])
    h.check_eq(acc.nstacks, tot, "stack counts add over a long history")
    for j in range(n):
        w = xs[0][1 + j] * ns[0]
        for i in range(1, k):
            w = w + xs[i][1 + j] * ns[i]
        h.check_eq(acc.amplitude[at + j] * tot, w, "a long history gives the overall mean", 1e-5)


def _perms(k):
    import itertools
    return list(itertools.permutations(range(k)))


def reject(h, n=3, kind="ts"):
    """Records that differ in anything but the stack count are refused."""
    what = h.choice("what", ["dt", "delay", "nsamples", "type"] + (["x", "y", "z"] if kind == "sensor" else []))
    dt, dt2 = h.real("dt", 0.001, 1.0), h.real("dt2", 0.001, 1.0)
    de, de2 = h.real("delay", -1.0, 0.0), h.real("delay2", -1.0, 0.0)
    pos, pos2 = h.reals("p", 3, -50, 50), h.reals("q", 3, -50, 50)
    na, nb = h.int("na", 1, 9), h.int("nb", 1, 9)
    xa = h.reals("a", n, -100, 100)
    m = n + 1 if what == "nsamples" else n
    xb = h.reals("b", m, -100, 100)
    b_dt, b_de, b_pos = dt, de, list(pos)
    if what == "dt":
        h.require(h.ne(dt, dt2))
        b_dt = dt2
    elif what == "delay":
        h.require(h.ne(de, de2))
        b_de = de2
    elif what in "xyz":
        i = "xyz".index(what)
        h.require(h.ne(pos[i], pos2[i]))
        b_pos[i] = pos2[i]
    a = _rec(h, kind, xa, dt, na, de, pos)
    if what == "type":
        b = h.choice("typ", [None, 3.0, "record"])
    else:
        b = _rec(h, kind, xb, b_dt, nb, b_de, b_pos)
    h.check_raises(ValueError, "an incompatible record is refused with ValueError", a.stack_append, b)
    h.check_eq(a.amplitude, xa, "a refused record leaves the samples unchanged")
    h.check_eq([a.nstacks, a.dt, a.delay], [na, dt, de], "a refused record leaves the attributes unchanged")
    if what != "type":
        h.check_eq(b.amplitude, xb, "a refused record is itself unchanged")


HARNESSES = [
    (mean, [dict(n=2), dict(n=4), dict(n=3, kind="sensor"), dict(n=20)], [dict(n=6), dict(n=8), dict(n=40, kind="sensor")]),
    (itself, [dict(), dict(kind="sensor")], [dict(n=20)]),
    (many, [dict()], [dict(k=30), dict(n=3, k=15)]),
    (history, [dict(n=2, k=2), dict(n=2, k=3)], [dict(n=3, k=4)]),
    (reject, [dict(n=3), dict(n=2, kind="sensor")], [dict(n=5, kind="sensor")]),
]
