"""C20 the images do not depend on the side the source is on."""
from props import tf

BOUNDS = ("2..4 (thorough 5) sensors at fixed uneven spacing of metres or millimetres, 4..14 (20) samples of any values (spectra of magnitude 0.1 "
          "or more where they divide), unpadded and padded to a multiple, every transform, weighting and steering; the "
          "array moved by any distance up to 60, mirrored, and mirrored about any point within 30")


def _img(h, name, arr, st):
    cls = h.mod("register").WavefieldTransformRegistry.create_class(name)
    t = cls.from_array(arr, st)
    return t


def mirror(h, name="fdbf", k=2, n=4, spec=None, how="mirror", pad=None, fine=False):
    """how: mirror, shift, or both; about any point, by any distance."""
    xs = [2.0, 4.0, 7.0, 8.0, 12.0][:k]
    if fine:
        xs = [x / 512 for x in xs]
    sc = xs[0] / 2
    amps = [h.reals(f"a{i}_", n, -4, 4) for i in range(k)]
    d = h.real("d", -60, 60)
    a0 = h.mk_array(amps, 0.25, xs, src=(-sc, 0.0, 0.0))
    if how == "mirror":
        a1 = h.mk_array(amps, 0.25, [-x for x in xs], src=(sc, 0.0, 0.0))
    elif how == "shift":
        a1 = h.mk_array(amps, 0.25, [x + d for x in xs], src=(-sc + d, 0.0, 0.0))
    else:
        a1 = h.mk_array(amps, 0.25, [d - x for x in xs], src=(sc + d, 0.0, 0.0))
    if pad is not None:
        a0.zero_pad(pad)
        a1.zero_pad(pad)
    N = a0[0].nsamples
    f1 = 1 / (N * 0.25) * (1 if pad is None else round(pad * 0.25 * N))
    if name == "phaseshift" or (spec or {}).get("weighting") == "invamp":
        for q in (1, 2):
            for a in amps:
                x = tf.spectrum(h, list(a) + [0.0] * (N - n), round(q * f1 * N * 0.25))
                h.require(h.le(0.1, h.np.abs(x[0] + 1j * x[1]), 0.0), sure=True)
    st = lambda: tf.settings(vmin=8.0 * sc, vmax=40.0 * sc, fmin=f1, fmax=2 * f1,  # noqa: E731
                             **{"fdbf-specific": dict(spec or {})})
    a, b = _img(h, name, a0, st()), _img(h, name, a1, st())
    h.check_eq(a.frequencies, b.frequencies, "frequencies do not depend on where the source is")
    h.check_eq(a.power, b.power, "power does not depend on where the source is", 1e-6)


_HOW = ("mirror", "shift", "both")
_SPECS = ({}, {"weighting": "sqrt"}, {"weighting": "invamp"}, {"weighting": "sqrt", "steering": "cylindrical"})
HARNESSES = [
    (mirror, [dict(name="phaseshift", how=w, k=3, pad=p, n=n) for w in _HOW for p, n in ((None, 4), (1.0, 6))]
     + [dict(name="fdbf", spec=s, how=w, k=3) for w in _HOW for s in _SPECS]
     + [dict(name="fdbf", spec=s, how="both", k=4, n=7, pad=1.0) for s in _SPECS]
     + [dict(name="fk", how=w) for w in _HOW]
     + [dict(name="slantstack", n=8, how=w) for w in _HOW]
     + [dict(name="slantstack", n=14, how=w, k=4, pad=1.0) for w in _HOW]
     + [dict(name=n, how=w, k=3, n=8 if n == "slantstack" else 4, fine=True) for n in ("phaseshift", "fdbf", "fk", "slantstack")
        for w in (_HOW if n == "fdbf" else ("mirror",))],
     [dict(name="fdbf", k=5, n=12, how=w) for w in _HOW] + [dict(name="slantstack", k=5, n=20, how=w) for w in _HOW]
     + [dict(name="phaseshift", k=5, n=8, how=w) for w in _HOW]),
]
