"""Explores one harness case: path by path, every obligation to the solver."""

import importlib
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import core as C
from . import libs
from . import loader
from . import strs
from .core import E, Unsupported, PathEnd, Budget
from .symback import SymH

PATH_SECONDS = 140


_ALARMED = []


class _Alarm(BaseException):
    pass


def _on_alarm(*a):
    _ALARMED.append(True)       # a library may turn the exception into one of its own
    raise _Alarm()


def fnum(v):
    """Fraction/int -> JSON number (floats exactly when dyadic)."""
    if isinstance(v, bool) or isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return float(v)
    return v


def model_value(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Unsupported("model value")


class Runner:
    def __init__(self):
        self.ld, self.pkg = loader.fresh()
        self.covered = set()
        self._monitor()

    def _monitor(self):
        mon = sys.monitoring
        tid = 3
        try:
            mon.use_tool_id(tid, "symx")
        except ValueError:
            return
        files = (loader.PKG, loader.sigpropy_dir())

        def start(code, off):
            if code.co_filename.startswith(files):
                self.covered.add((code.co_filename, code.co_qualname))
            return mon.DISABLE
        mon.register_callback(tid, mon.events.PY_START, start)
        mon.set_events(tid, mon.events.PY_START)

    # ---------------------------------------------------------- obligations
    def obligation(self, c, label):
        n = self.label_n.get(label, 0)
        self.label_n[label] = n + 1
        key = (tuple(E.decisions), label, n)
        raw = c.raw
        if z3.is_expr(raw):
            s = z3.simplify(raw)
            if z3.is_true(s):
                raw = True
            elif z3.is_false(s):
                raw = False
        prev = self.done.get(key)
        if prev is None:
            prev = self._decide(c, raw, label)
            self.done[key] = prev
        if prev == "violated":
            if raw is False:
                raise PathEnd("violated")
            E.add(raw)
            if E.check() == z3.unsat:
                raise PathEnd("violated")

    def _decide(self, c, raw, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        if raw is True:
            self.trivial += 1
            return "ok"
        if c.far and c.pure and C.is_z(raw) and all(C.same_ratio(a, b) for a, b in c.far):
            self.discharged += 1
            return "ok"
        if raw is False and c.far and c.pure and not any(C.is_z(C.sub(a, b)) for a, b in c.far
                                                         if not (C.is_special(a) or C.is_special(b))) \
                and self._within(c.far, c.tol):
            self.discharged += 1
            return "ok"
        neg = z3.BoolVal(True) if raw is False else z3.Not(raw)
        E.model_cache = None
        r = E.check(neg)
        if r == z3.unsat:
            self.discharged += 1
            return "ok"
        if r == z3.unknown:
            self.unknown.append(label)
            # still hunt: any model of the path is tried concretely
            self.candidates.append({"label": label, "kind": "unknown",
                                    "models": self.hunt([], None, 3)})
            return "unknown"
        if c.far and c.pure and self._within(c.far, c.tol):
            self.discharged += 1
            return "ok"
        self.candidates.append({"label": label, "kind": "cex",
                                "models": self.hunt([neg], c.far, 4)})
        return "violated"

    def _within(self, far, tol):
        """All pairs differ by float noise only (constants are rounded to 1e-12)."""
        tol = Fraction(max(tol or 1e-7, 1e-12)) / 4
        ds = []
        for a, b in far:
            if C.is_special(a) or C.is_special(b):
                if C.is_special(a) and C.is_special(b):
                    continue
                return False
            if C.kind(a) == "b" or C.kind(b) == "b":
                return False
            d = C.sub(a, b)
            if not C.is_z(d):
                if d == 0 or abs(d) <= tol:
                    continue
                return False
            z = z3.simplify(C.zreal(d), som=True)
            if z3.is_rational_value(z) and abs(z.as_fraction()) <= tol:
                continue
            if _bound(z) <= tol:
                continue
            q = z3.Q(tol.numerator, tol.denominator)
            ds.append(z3.Or(z > q, z < -q))
        if not ds:
            return True
        if any(z3.is_int(C.simp(a)) for a, b in far if C.is_z(a)):
            return False
        E.model_cache = None
        return E.check(z3.Or(*ds)) == z3.unsat

    # --------------------------------------------------------------- models
    def hunt(self, extra, far, n):
        """Models to replay; where nonlinear definitions keep the solver from
        giving one, also inputs that meet the conditions on the inputs alone
        (the replay decides on the real code)."""
        out = self.models(extra, far, n)
        if E.hard and self.hunted < 12:
            self.hunted += 1
            last = E.last_model
            for k in range(3):
                out += self.generic(f"hunt/{k}/{E.decisions}")
            E.last_model = last
        if E.narrowed and self.hunted < 12:
            self.hunted += 1
            last = E.last_model
            for k in range(3):
                out += self.generic(f"narrow/{k}/{E.decisions}", rough=True)
            E.last_model = last
        return out

    def models(self, extra, far, n):
        """Input assignments satisfying pc and extra, friendly ones first."""
        out, seen = [], set()
        t_end = time.time() + 20
        goals = []
        if far:
            for mg in (Fraction(1), Fraction(1, 64), Fraction(1, 10000)):
                ds = []
                for a, b in far:
                    try:
                        d = C.sub(a, b)
                    except Exception:
                        continue
                    if C.is_special(d):
                        continue
                    if not C.is_z(d):
                        if abs(d) > mg:
                            ds = [z3.BoolVal(True)]
                            break
                        continue
                    if C.kind(d) == "c":
                        continue
                    z = C.zreal(d)
                    m = z3.Q(mg.numerator, mg.denominator)
                    if C.is_z(b) or abs(b) > 1:
                        zb = C.zreal(b)
                        m = m * (1 + z3.If(zb >= 0, zb, -zb))
                    ds.append(z3.Or(z > m, z < -m))
                if ds:
                    goals.append(list(extra) + [z3.Or(*ds)])
        goals.append(list(extra))
        for g in goals:
            tried = 0
            block = []
            while len(out) < n and tried < 3 and time.time() < t_end:
                tried += 1
                E.model_cache = None
                try:
                    r = E.check(*g, *block)
                except Budget:
                    return out
                if r != z3.sat or E.last_model is None:
                    break
                vals = self._values(E.last_model)
                vals = self._round(vals, g) or vals
                k = repr(sorted(vals.items()))
                if k not in seen:
                    seen.add(k)
                    out.append({a: fnum(b) for a, b in vals.items()})
                diff = [E.inputs[a] != _lit(E.inputs[a], b) for a, b in vals.items()
                        if z3.is_real(E.inputs[a])]
                if not diff:
                    break
                # move every real input when possible, else at least one
                block.append(z3.Or(*diff))
            if len(out) >= n:
                break
        return out

    def generic(self, seed, corner=False, rough=False):
        """A model of the path with unremarkable (or extreme) input values, where it has one."""
        rng = random.Random(seed)
        want = []
        for n, t in E.inputs.items():
            if n not in E.ranges:
                continue
            lo, hi = E.ranges[n]
            if corner:
                v = rng.choice([lo, hi])
            elif z3.is_int(t):
                v = rng.randint(lo, hi)
                if hi - lo > 10 ** 5:       # any order of magnitude
                    v = min(max(rng.choice([-1, 1]) * int(10 ** rng.uniform(0, 9.4)), lo), hi)
            elif rough:         # not representable in few bits
                v = lo + (hi - lo) * Fraction(rng.randint(1, 996), 997)
            else:
                v = Fraction(round((lo + (hi - lo) * Fraction(rng.randint(1, 255), 256)) * 64), 64)
                v = min(max(v, lo), hi)
            want.append(t == _lit(t, v))
        rng.shuffle(want)
        if E.hard:
            return self._generic_inputs(want)
        got, left, t_end = [], 14, time.time() + 3
        todo = [want]
        model = None
        while todo and left and time.time() < t_end:
            part = todo.pop()
            left -= 1
            E.model_cache = None
            try:
                r = E.check(*got, *part)
            except Budget:
                break
            if r == z3.sat and E.last_model is not None:
                got += part
                model = E.last_model
            elif len(part) > 1:
                k = len(part) // 2
                todo += [part[k:], part[:k]]
        if model is None:
            return []
        E.last_model = model
        vals = self._values(model)
        r = None if rough else self._round(vals, [])
        if r is not None and r != vals:
            vals = r
        return [{a: fnum(b) for a, b in vals.items()}]

    def _generic_inputs(self, want):
        """The same on paths with nonlinear definitions: only the conditions on
        the inputs themselves are solved, the replay checks the others."""
        names = {t.get_id() for t in E.inputs.values()}
        easy = [c for c in E.pc if _only(c, names)]
        sol = z3.Solver()
        sol.set("timeout", 2000)
        sol.add(*easy)
        todo, left, model = [want], 14, None
        while todo and left:
            part = todo.pop()
            left -= 1
            if sol.check(*part) == z3.sat:
                model = sol.model()
                sol.add(*part)
            elif len(part) > 1:
                k = len(part) // 2
                todo += [part[k:], part[:k]]
        E.last_model = None
        if model is None:
            return []
        return [{a: fnum(b) for a, b in self._values(model).items()}]

    def _values(self, m):
        return {n: model_value(m, t) for n, t in E.inputs.items()}

    def _round(self, vals, extra):
        reals = [n for n, v in vals.items() if isinstance(v, Fraction)
                 and (v.denominator & (v.denominator - 1) or v.denominator > 4096)]
        if not reals:
            return vals
        fixed = []
        for n, v in vals.items():
            if n not in reals:
                fixed.append(E.inputs[n] == _lit(E.inputs[n], v))
        for bits in (2, 5, 9, 14, 20):
            q = 1 << bits
            cand = {n: Fraction(round(vals[n] * q), q) for n in reals}
            eqs = [E.inputs[n] == _lit(E.inputs[n], v) for n, v in cand.items()]
            E.model_cache = None
            try:
                if E.check(*extra, *fixed, *eqs) == z3.sat:
                    out = dict(vals)
                    out.update(cand)
                    return out
            except Budget:
                return None
        return None

    # ---------------------------------------------------------------- paths
    def run(self, job):
        """job: module func params prefixes seed query_ms deadline max_paths."""
        mod = importlib.import_module("props." + job["module"])
        fn = getattr(mod, job["func"])
        E.reset_case(seed=job["seed"], query_ms=job["query_ms"], deadline=job["deadline"])
        self.done, self.labels = {}, {}
        self.trivial = self.discharged = self.hunted = 0
        self.unknown, self.candidates = [], []
        res = {"paths": 0, "complete": 0, "cut": 0, "unsupported": [], "witness": [],
               "left": [], "checks": 0, "budget": False, "excs": {}}
        stack = list(job["prefixes"])
        t_end = time.time() + job["slice"]
        n_wit = 0
        while stack:
            if time.time() > job["deadline"]:
                res["budget"] = True
                break
            if res["paths"] and time.time() > t_end:
                break
            # depth first, now and then the shallowest one left, so that no branch waits for all others
            prefix = stack.pop(0) if res["paths"] % 4 == 3 else stack.pop()
            self.observed, self.label_n = {}, {}
            E.begin_path(prefix)
            libs.reset_all()
            h = SymH(self)
            status = "ok"
            del _ALARMED[:]
            old = signal.signal(signal.SIGALRM, _on_alarm)
            signal.alarm(PATH_SECONDS)
            try:
                fn(h, **job["params"])
            except PathEnd as e:
                status = "cut"
            except Unsupported as e:
                status = "unsupported"
                why = f"{e} @ {_where(e)}"
            except _Alarm:
                status, why = "unsupported", "path time limit"
            except Budget:
                status = "budget"
            except RecursionError as e:
                status, why = "unsupported", "recursion"
            except Exception as e:
                status = "unsupported" if _ALARMED else "exception"
                why = "path time limit" if _ALARMED else f"{type(e).__name__}: {e} @ {_where(e)}"[:400]
                lab = f"raised {type(e).__name__}"
                if job.get("debug"):
                    traceback.print_exc()
            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
            res["paths"] += 1
            res["checks"] += h.nchecks
            stack.extend(reversed(E.pending))
            if status == "budget":
                res["budget"] = True
                break
            try:
                if status == "ok":
                    res["complete"] += 1
                    if n_wit < job["witness"]:
                        n_wit += 1
                        gs = self.generic(f"{job['seed']}/{job['case']}/{E.decisions}")
                        last = E.last_model
                        ms = [] if gs and E.hard else self.models([], None, 1)
                        ms += gs
                        if gs:
                            E.last_model = last
                        if ms:
                            res["witness"].append({"models": ms, "obs": self._obs(),
                                                   "decisions": len(E.decisions)})
                elif status == "cut":
                    res["cut"] += 1
                elif status == "unsupported":
                    res["unsupported"].append(why)
                    if len(res["unsupported"]) <= max(4, job["witness"]):
                        ms = self.models([], None, 2)
                        for k in range(6):
                            ms += self.generic(f"uns/{k}/{E.decisions}", corner=k >= 3)
                        self.candidates.append({"label": "unsupported: " + why,
                                                "kind": "unsupported", "models": ms})
                elif status == "exception":
                    res["excs"][why] = res["excs"].get(why, 0) + 1
                    if res["excs"][why] <= 3:
                        self.candidates.append({"label": lab, "kind": "exception",
                                                "why": why,
                                                "models": self.models([], None, 3)})
            except Budget:
                res["budget"] = True
                break
        res["left"] = stack
        res["candidates"] = self.candidates
        res["unknown"] = self.unknown
        res["labels"] = self.labels
        res["trivial"], res["discharged"] = self.trivial, self.discharged
        res["queries"], res["solver_s"] = E.queries, E.solver_s
        res["transitions"] = E.transitions
        res["unknown_forks"] = E.unknown_forks
        res["covered"] = sorted(self.covered)
        res["used"] = dict(libs.USED)
        return res

    def _obs(self):
        """Observed values under the (last) witness model, when simple."""
        if not self.observed or E.last_model is None:
            return {}
        m = E.last_model

        def ev(x):
            if isinstance(x, list):
                return [ev(v) for v in x]
            if isinstance(x, dict):
                return {k: ev(v) for k, v in x.items()}
            if isinstance(x, C.Cx):
                return {"re": ev(x.re), "im": ev(x.im)}
            if C.is_z(x):
                return fnum(model_value(m, x))
            if isinstance(x, Fraction):
                return float(x)
            if isinstance(x, float):
                return x if x == x and abs(x) != C.INF else repr(x)
            if x is None or isinstance(x, (bool, int)):
                return x
            return None
        try:
            return ev(self.observed)
        except BaseException:
            return {}


def _only(e, names, limit=3000):
    """Whether a condition is about the named constants only."""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > limit:
            return False
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                (x.num_args() or x.get_id() not in names):
            return False
        todo.extend(x.children())
    return True


def _bound(z):
    """An upper bound of |z| from the declared ranges of the inputs."""
    p = C.poly(z)
    if p is None:
        return C.INF
    tot = Fraction(0)
    for m, c in p.values():
        v = abs(c)
        for k, _, n in m:
            b = E.bounds.get(k)
            if b is None:
                return C.INF
            v *= Fraction(b) ** n
        tot += v
    return tot


def _lit(t, v):
    if z3.is_bool(t):
        return z3.BoolVal(bool(v))
    if z3.is_int(t):
        return z3.IntVal(int(v))
    f = Fraction(v)
    return z3.Q(f.numerator, f.denominator)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    keep = [f for f in tb if "/swprocess/" in f.filename or "sigpropy" in f.filename]
    f = (keep or tb)[-1]
    last = tb[-1]
    return (f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}:{f.name}"
            f" <- {last.filename.rsplit('/', 1)[-1]}:{last.lineno}")


_R = None


def init():
    global _R
    if _R is None:
        _R = Runner()
    return _R


def task(job):
    try:
        r = init().run(job)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        r = {"error": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"}
    r["case"] = job["case"]
    return r
