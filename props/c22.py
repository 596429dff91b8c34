"""C22 stacking dispersion images."""
from props import tf

BOUNDS = ("placeholders of any two record lengths and images of 2 by 1..2 with any complex power; every history of "
          "up to 4 stacks of single images and of already stacked images")


def _img(h, nm, nv, nf):
    wt = h.mod("wavefieldtransforms")
    re = [[h.real(f"{nm}r{i}{j}", -5, 5) for j in range(nf)] for i in range(nv)]
    im = [[h.real(f"{nm}i{i}{j}", -5, 5) for j in range(nf)] for i in range(nv)]
    p = h.np.array([[re[i][j] + 1j * im[i][j] for j in range(nf)] for i in range(nv)])
    t = wt.FDBF(h.np.array([float(j) for j in range(nf)]), h.np.array([100.0 + i for i in range(nv)]), p)
    return t, re, im


def _empty(h, nv, nf):
    wt = h.mod("wavefieldtransforms")
    arr = h.mk_array([[1.0, 2.0, 0.0, 1.0], [0.0, 1.0, 1.0, 0.0]], 0.25, [2.0, 4.0])
    e = wt.EmptyWavefieldTransform.from_array(arr, tf.settings(vmin=100.0, vmax=101.0, nvel=nv, fmin=1.0, fmax=float(nf)))
    h.check_eq(e.power, [[0.0] * nf for _ in range(nv)], "the placeholder has no power")
    h.check(e.n == 0, "the placeholder counts no record")
    return e


def mean(h, k=3, nv=2, nf=1):
    e = _empty(h, nv, nf)
    imgs = [_img(h, f"t{i}", nv, nf) for i in range(k)]
    for c, (t, _, _) in enumerate(imgs):
        e.stack(t)
        h.check(e.n == c + 1, "each image stacked counts once")
    p = h.np.asarray(e.power)
    for i in range(nv):
        for j in range(nf):
            h.check_eq([p[i, j].real * k, p[i, j].imag * k],
                       [sum(im[1][i][j] for im in imgs), sum(im[2][i][j] for im in imgs)],
                       "the stack is the mean of the images", 1e-6)
    for t, re, im in imgs:
        h.check_eq([[z.real for z in r] for r in h.np.asarray(t.power)], re, "images stacked are unchanged")
        h.check_eq([[z.imag for z in r] for r in h.np.asarray(t.power)], im, "images stacked are unchanged")
        h.check(t.n == 1, "images stacked are unchanged")


def nested(h, a=1, b=2):
    """Stacking stacks weights by the number of images in each."""
    e1, e2 = _empty(h, 2, 1), _empty(h, 2, 1)
    imgs = [_img(h, f"t{i}", 2, 1) for i in range(a + b)]
    for t, _, _ in imgs[:a]:
        e1.stack(t)
    for t, _, _ in imgs[a:]:
        e2.stack(t)
    before = h.tolist(h.np.asarray(e2.power)[:, 0])
    e1.stack(e2)
    h.check(e1.n == a + b and e2.n == b, "counts add")
    h.check_eq(h.tolist(h.np.asarray(e2.power)[:, 0]), before, "the other stack is unchanged")
    p = h.np.asarray(e1.power)
    for i in range(2):
        h.check_eq([p[i, 0].real * (a + b), p[i, 0].imag * (a + b)],
                   [sum(im[1][i][0] for im in imgs), sum(im[2][i][0] for im in imgs)],
                   "stacking stacks gives the mean of all images", 1e-6)


def refuse(h):
    e = _empty(h, 2, 1)
    t, re, im = _img(h, "t", 2, 1)
    e.stack(t)
    bad = h.choice("bad", [None, 3, "image", [1.0]])
    h.check_raises(AttributeError, "something else is refused with AttributeError", e.stack, bad)
    h.check(e.n == 1, "a refused stack changes nothing")
    h.check_eq([z.real for z in h.np.asarray(e.power)[:, 0]], [r[0] for r in re], "a refused stack changes nothing")


HARNESSES = [
    (mean, [dict(k=1), dict(k=2, nf=2), dict(k=3)], [dict(k=4, nf=2)]),
    (mean, [dict(k=12, nv=1), dict(k=2, nv=12, nf=2)]),
    (nested, [dict(), dict(a=2, b=2), dict(a=1, b=6), dict(a=11, b=2), dict(a=3, b=12)], [dict(a=3, b=2), dict(a=30, b=25)]),
    (refuse, [dict()]),
]
