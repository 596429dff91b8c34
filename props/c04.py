"""C04 cross-correlation alignment and cross-stacking."""
BOUNDS = ("reference records of 2..5 fixed samples (several shapes), second record of 2..4 arbitrary "
          "samples; fully symbolic pairs of 2 samples")

REF = {"ramp": [1.0, 2.0, 3.0], "pulse": [0.0, 1.0, 0.0], "mixed": [1.0, -2.0, 0.5],
       "p4": [0.0, 2.0, 1.0, 0.0], "m4": [1.0, -1.0, 2.0, 0.25], "two": [1.0, -3.0]}


def _shift(x, s):
    n = len(x)
    return [x[i - s] if 0 <= i - s < n else 0.0 for i in range(n)]


def _dot(p, q):
    out = p[0] * q[0]
    for u, v in zip(p[1:], q[1:]):
        out = out + u * v
    return out


def _corr_at(a, b, s):
    """Correlation of a with b delayed by s samples."""
    tot = 0.0
    for i in range(len(a)):
        if 0 <= i - s < len(b):
            tot = tot + a[i] * b[i - s]
    return tot


def shift(h, ref="ramp", m=None, level=1.0):
    a = REF[ref]
    m = m or len(a)
    b = h.reals("b", m, -50, 50)
    A = h.sw.ActiveTimeSeries
    ta, tb = A([v * level for v in a], 0.5), A([v * level for v in b], 0.5)
    raw = lambda t: [v / level for v in h.tolist(t)]  # noqa: E731
    s, out = A.crosscorr_shift(ta, tb, exclude=("nsamples", "nstacks"))
    s = int(s)
    h.check(-(m - 1) <= s <= len(a) - 1, "the shift is a possible lag")
    best = _corr_at(a, b, s)
    for k in range(-(m - 1), len(a)):
        h.check(h.le(_corr_at(a, b, k), best, 1e-7), "no other lag correlates better")
    h.check_eq(raw(out), _shift(b, s), "the record is moved by the lag and filled with zeros")
    h.check_eq(raw(ta.amplitude), a, "the reference is unchanged")
    h.check_eq(raw(tb.amplitude), b, "the shifted record is unchanged")


def shift_sym(h):
    a, b = h.reals("a", 2, -5, 5), h.reals("b", 2, -5, 5)
    A = h.sw.ActiveTimeSeries
    s, out = A.crosscorr_shift(A(a, 0.5), A(b, 0.5))
    s = int(s)
    best = _corr_at(a, b, s)
    for k in (-1, 0, 1):
        h.check(h.le(_corr_at(a, b, k), best, 1e-7), "no other lag correlates better (any pair)")
    h.check_eq(out, _shift(b, s), "the record is moved by the lag (any pair)")


def stack(h, ref="ramp"):
    a = REF[ref]
    n = len(a)
    b = h.reals("b", n, -50, 50)
    na, nb = h.int("na", 1, 5), h.int("nb", 1, 5)
    A = h.sw.ActiveTimeSeries
    ta, tb = A(a, 0.5, nstacks=na, delay=-1.0), A(b, 0.5, nstacks=nb, delay=-1.0)
    c = A.from_cross_stack(ta, tb)
    opts = []
    for s in range(-(n - 1), n):
        sb = _shift(b, s)
        top = h.all_([h.le(_corr_at(a, b, k), _corr_at(a, b, s), 1e-7) for k in range(-(n - 1), n)])
        val = h.eq([v * (na + nb) for v in h.tolist(c.amplitude)],
                   [p * na + q * nb for p, q in zip(a, sb)])
        opts.append(h.all_([top, val]))
    h.check(h.any_(opts), "the result is the weighted mean of the reference and the best aligned record")
    h.check_eq(c.nstacks, na + nb, "stack counts add in a cross-stack")
    h.check_eq([c.dt, c.delay, c.nsamples], [0.5, -1.0, n], "cross-stack keeps step, delay and length")
    h.check_eq(ta.amplitude, a, "the reference is unchanged by a cross-stack")
    h.check_eq(tb.amplitude, b, "the second record is unchanged by a cross-stack")
    h.check_eq([ta.nstacks, tb.nstacks], [na, nb], "the stack counts of the inputs are unchanged")


def reject(h):
    A = h.sw.ActiveTimeSeries
    d1, d2 = h.real("d1", 0.01, 1), h.real("d2", 0.01, 1)
    h.require(h.ne(d1, d2))
    x = h.reals("x", 3, -5, 5)
    a, b = A(x, d1), A(x, d2)
    h.check_raises(ValueError, "records with different steps are not correlated", A.crosscorr, a, b)
    h.check_raises(ValueError, "records with different steps are not cross-stacked", A.from_cross_stack, a, b)
    h.check_eq(a.amplitude, x, "refusal leaves the records unchanged")


HARNESSES = [
    (shift, [dict(ref=r) for r in ("ramp", "pulse", "mixed")] + [dict(ref="ramp", m=2), dict(ref="two", m=3), dict(ref="mixed", level=2.0**-8), dict(ref="ramp", level=2.0**30)],
     [dict(ref="p4"), dict(ref="m4"), dict(ref="m4", m=3), dict(ref="mixed", m=4)]),
    (shift_sym, [dict()]),
    (stack, [dict(ref="ramp"), dict(ref="mixed"), dict(ref="two")], [dict(ref="m4"), dict(ref="p4")]),
    (reject, [dict()]),
]
