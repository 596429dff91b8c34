"""Shared pieces of the dispersion peak harnesses."""
NAN = float("nan")
EXTRA = ["azimuth", "ellipticity", "noise", "power"]
DERIVED = ["frequency", "velocity", "slowness", "wavelength", "wavenumber"]


def values(h, k, tag="", dup=False):
    """k frequencies and velocities of any positive value."""
    return [h.real(f"f{tag}{i}", 0.01, 1000) for i in range(k)], [h.real(f"v{tag}{i}", 10, 6000) for i in range(k)]


def make(h, f, v, ident="a", **extra):
    return h.sw.Peaks(f, v, identifier=ident, **extra)


def amount(h, attr, f, v):
    """The quantity attr of a peak."""
    if attr == "frequency":
        return f
    if attr == "velocity":
        return v
    if attr == "slowness":
        return 1 / v
    if attr == "wavelength":
        return v / f
    return 2 * h.np.pi * f / v


def shown(h, p, attr="frequency"):
    return h.tolist(getattr(p, attr))


def check_valid(h, p, f, v, keep, label, extra=None):
    """p offers exactly the peaks whose keep flag is true, in order."""
    idx = [i for i, k in enumerate(keep) if k]
    h.check_eq(shown(h, p), [f[i] for i in idx], label + ": frequency")
    h.check_eq(shown(h, p, "velocity"), [v[i] for i in idx], label + ": velocity")
    for a, xs in (extra or {}).items():
        h.check_eq(shown(h, p, a), [xs[i] for i in idx], label + ": " + a)


def drop(h, p, mask):
    """Reject the peaks of the mask."""
    if hasattr(p, "_reject"):
        p._reject(mask)
    else:
        p._valid[mask] = False
