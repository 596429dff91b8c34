"""Harness interface shared by the symbolic and the concrete backend.

A property module defines harness functions ``f(h, **params)``.  The same
function body runs twice: on symbolic values (module symback) and, for
counterexamples and path witnesses, on the real package (module concback).
This file must not import z3 or any backend.
"""


class Skip(BaseException):
    """The inputs do not satisfy a requirement."""


class Base:
    """Helpers common to both backends (written on top of their primitives)."""

    # primitives provided by the backends: real int choice flag require check
    # eq le lt same digit raises observe write_text read_text stream table

    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def ints(self, name, n, lo, hi):
        return [self.int(f"{name}{i}", lo, hi) for i in range(n)]

    def flag(self, name):
        return self.choice(name, [False, True])

    def arr(self, xs):
        return self.np.array(xs)

    def ne(self, a, b):
        return self.not_(self.eq(a, b))

    def check_eq(self, a, b, label, tol=None):
        self.check(self.eq(a, b, tol), label)

    def attempt(self, f, *a, **k):
        """(result, None) or (None, exception)."""
        try:
            return f(*a, **k), None
        except Exception as e:
            self.note_exception(e)
            return None, e

    def note_exception(self, e):
        pass

    def check_raises(self, types, label, f, *a, **k):
        _, e = self.attempt(f, *a, **k)
        self.check(isinstance(e, types), label)
        return e

    def fill(self, n, value=0.0):
        return [value] * n

    # ---- objects of the package -----------------------------------------
    def sensor(self, amp, dt, x=0.0, y=0.0, z=0.0, nstacks=1, delay=0.0):
        return self.sw.Sensor1C(amp, dt, x, y, z, nstacks=nstacks, delay=delay)

    def mk_array(self, amps, dt, xs, src=(-5.0, 0.0, 0.0), ys=None, zs=None, **kw):
        ys = ys or [0.0] * len(xs)
        zs = zs or [0.0] * len(xs)
        sensors = [self.sensor(a, dt, x, y, z, **kw) for a, x, y, z in zip(amps, xs, ys, zs)]
        return self.sw.Array1D(sensors, self.sw.Source(*src))
