"""Shared pieces of the transform harnesses."""

DIRS = [(0.6, 0.8), (-0.8, 0.6), (1.0, 0.0), (-0.28, -0.96)]


def spectrum(h, a, k):
    """Discrete Fourier coefficient k of a list of samples, (re, im)."""
    n = len(a)
    re = im = 0.0
    for t in range(n):
        w = h.np.exp(-1j * (2 * h.np.pi * ((k * t) % n) / n))
        re, im = re + a[t] * w.real, im + a[t] * w.imag
    return re, im


def directed(h, k, names="r", nd=4):
    """Four-sample records whose coefficient at index 1 has any magnitude and
    one of the directions DIRS; the other coefficients are free."""
    amps, dirs = [], []
    for i in range(k):
        c, s = h.choice(f"dir{i}", DIRS[:nd] if i else DIRS[:1 + nd // 2])
        r = h.real(f"{names}{i}", 0.25, 10) if isinstance(names, str) else names[i]
        e, g = h.real(f"e{i}", -5, 5), h.real(f"g{i}", -5, 5)
        amps.append([r * c + e, g, e, g + r * s])
        dirs.append((c, s))
    return amps, dirs


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def turn(h, th):
    w = h.np.exp(1j * th)
    return (w.real, w.imag)


def settings(**kw):
    d = dict(vmin=5.0, vmax=20.0, nvel=2, vspace="linear", fmin=1.0, fmax=1.0)
    d.update(kw)
    return d


def mag2(h, v):
    v = h.np.asarray(v)
    return (v * h.np.conj(v)).real


ALL = [("Empty", "EmptyWavefieldTransform"), ("phase", "PhaseShift"), ("slant", "SlantStack"),
       ("fdbf", "FDBF"), ("fk", "FK")]
