"""Runs the check of one property:  python3-vt -m symx.run C01 [--tier quick]."""

import argparse
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
REPO = os.environ.get("SYMX_REPO", "/repo")
GRACE = 6.0           # seconds to look for further failures once one is confirmed
REAL_PY = os.environ.get("SYMX_REAL_PY", "/opt/venv/bin/python")


# ------------------------------------------------------- concrete servers

class Server:
    """One concrete-backend process."""

    def __init__(self):
        self.p = None
        self.pyc = tempfile.mkdtemp(prefix="symx-pyc-")

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=self.pyc)
        self.p = subprocess.Popen([REAL_PY, "-m", "symx.concback"], cwd=ROOT, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, bufsize=1)
        r = self._line(120)
        if not r or not json.loads(r).get("ready"):
            raise RuntimeError("concrete backend did not start")

    def _line(self, timeout):
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            return None
        return self.p.stdout.readline()

    def ask(self, job, timeout=60):
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write(json.dumps(job) + "\n")
                self.p.stdin.flush()
                line = self._line(timeout)
            except (BrokenPipeError, OSError):
                line = ""
            if line is None:
                self.kill()
                return {"status": "timeout", "failed": [], "observed": {}, "nchecks": 0}
            if line:
                return json.loads(line)
            self.kill()
        return {"status": "error", "msg": "backend died", "failed": [], "observed": {}, "nchecks": 0}

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def close(self):
        self.kill()
        shutil.rmtree(self.pyc, ignore_errors=True)


class Servers:
    def __init__(self, n):
        self.n = n
        self.local = threading.local()
        self.all = []
        self.lock = threading.Lock()
        self.pool = cf.ThreadPoolExecutor(n)

    def _ask(self, job):
        s = getattr(self.local, "s", None)
        if s is None:
            s = self.local.s = Server()
            with self.lock:
                self.all.append(s)
        return s.ask(job)

    def warm(self):
        """Start the processes ahead of the first job."""
        b = threading.Barrier(self.n)

        def w():
            try:
                b.wait(30)
            except threading.BrokenBarrierError:
                pass
            s = self.local.s = Server()
            with self.lock:
                self.all.append(s)
            s.start()
        for _ in range(self.n):
            self.pool.submit(w)

    def submit(self, job):
        return self.pool.submit(self._ask, job)

    def close(self):
        self.pool.shutdown(wait=True, cancel_futures=True)
        for s in self.all:
            s.close()


def bad(r):
    """Labels a concrete run failed on."""
    out = list(r["failed"])
    if r["status"] == "exception":
        out.append(f"raised {r['type']}")
    return out


def close_obs(a, b):
    """Do an observed value and its model agree (None = not comparable)?"""
    if a is None or b is None:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return all(close_obs(a[k], b[k]) for k in a if k in b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close_obs(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))
    return str(a) == str(b)


# ------------------------------------------------------------------ runner

def known_findings(pid):
    out = []
    fn = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\S+) harness=(\S+) label=\[(.*?)\] (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append({"harness": m.group(2), "label": m.group(3), "text": m.group(4), "hit": False})
    return out


def load_cases(modname, tier):
    mod = importlib.import_module("props." + modname)
    cases = []
    for item in mod.HARNESSES:
        fn, quick = item[0], item[1]
        extra = item[2] if len(item) > 2 else []
        plist = list(quick() if callable(quick) else quick)
        if tier == "thorough":
            plist += list(extra() if callable(extra) else extra)
        for p in plist:
            cases.append({"func": fn.__name__, "params": p})
    return mod, cases


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "8")))
    ap.add_argument("--deadline", type=float, default=None)
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.prop
    t0 = time.time()
    mod, cases = load_cases(pid.lower(), tier)
    if a.only:
        cases = [c for c in cases if a.only in c["func"] + json.dumps(c["params"])]
    limit = a.deadline or (getattr(mod, "QUICK_S", 240) if tier == "quick"
                           else getattr(mod, "THOROUGH_S", 780))
    deadline = t0 + limit
    query_ms = getattr(mod, "QUERY_MS", 8000 if tier == "quick" else 30000)
    witness_cap = getattr(mod, "WITNESS", 20 if tier == "quick" else 40)

    servers = Servers(3 if a.jobs > 3 else 1)
    servers.warm()
    from symx import worker
    try:
        worker.init()
    except BaseException as e:
        print(f"ERROR property={pid} the source could not be loaded into the engine: "
              f"{type(e).__name__}: {e}")
        return 2

    tot = [dict(paths=0, complete=0, cut=0, checks=0, trivial=0, discharged=0, queries=0,
                solver_s=0.0, transitions=0, unknown_forks=0, left=0, wit=0,
                validated=0, skipped=0) for _ in cases]
    unsupported, unknown, labels, covered, used = {}, [], {}, set(), {}
    errors, mism, cands, wits = [], [], [], []
    witness_n = [0] * len(cases)
    budget = stopped = False
    known = known_findings(pid)

    def mkjob(ci, prefixes):
        c = cases[ci]
        return {"module": pid.lower(), "func": c["func"], "params": c["params"],
                "prefixes": prefixes, "seed": seed, "query_ms": query_ms,
                "deadline": deadline, "slice": 6.0, "case": ci, "debug": a.debug,
                "witness": max(0, witness_cap - witness_n[ci])}

    def cjob(ci, inputs):
        c = cases[ci]
        return {"module": pid.lower(), "func": c["func"], "params": c["params"],
                "inputs": inputs}

    ctx = mp.get_context("fork")
    ex = cf.ProcessPoolExecutor(a.jobs, mp_context=ctx)
    pending = set()
    for ci in range(len(cases)):
        pending.add(ex.submit(worker.task, mkjob(ci, [[]])))
    seen_cand = {}
    confirmed = []          # time of the first reproduced, unlisted violation

    def noticed(fut, fn):
        try:
            labs = bad(fut.result())
        except BaseException:
            return
        if any(not any(k["harness"] == fn and k["label"] == lab for k in known) for lab in labs):
            confirmed.append(time.time())

    def send(ci, m):
        f = servers.submit(cjob(ci, m))
        f.add_done_callback(lambda f: noticed(f, cases[ci]["func"]))
        return f
    try:
        while pending:
            donef, pending = cf.wait(pending, timeout=2.0, return_when=cf.FIRST_COMPLETED)
            if confirmed and time.time() > confirmed[0] + GRACE:
                stopped = True
                break
            if time.time() > deadline + 45:     # a worker is stuck in the solver
                stopped = budget = True
                for t in tot:
                    t["left"] += 1
                break
            for f in donef:
                r = f.result()
                ci = r["case"]
                if "error" in r:
                    errors.append((ci, r["error"]))
                    continue
                t = tot[ci]
                for k in ("paths", "complete", "cut", "checks", "trivial", "discharged",
                          "queries", "solver_s", "transitions", "unknown_forks"):
                    t[k] += r[k]
                budget |= r["budget"]
                for u in r["unsupported"]:
                    unsupported[u] = unsupported.get(u, 0) + 1
                unknown += [(ci, u) for u in r["unknown"]]
                for k, v in r["labels"].items():
                    labels[k] = labels.get(k, 0) + v
                covered |= set(map(tuple, r["covered"]))
                used.update(r["used"])
                for c in r["candidates"]:
                    key = (ci, c["label"], c["kind"])
                    seen_cand[key] = seen_cand.get(key, 0) + 1
                    if seen_cand[key] > 6:
                        continue
                    c["case"] = ci
                    c["runs"] = [(m, send(ci, m)) for m in c["models"]]
                    cands.append(c)
                for w in r["witness"]:
                    witness_n[ci] += 1
                    t["wit"] += 1
                    w["case"] = ci
                    w["runs"] = [(m, send(ci, m)) for m in w["models"]]
                    wits.append(w)
                left = r["left"]
                if left:
                    if time.time() > deadline:
                        t["left"] += len(left)
                        budget = True
                    else:
                        k = max(1, min(len(left), a.jobs))
                        for j in range(k):
                            part = left[j::k]
                            if part:
                                pending.add(ex.submit(worker.task, mkjob(ci, part)))
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        if stopped:
            for q in procs:
                q.kill()

    # ------------------------------------------------------------ verdicts
    violations, unreproduced = [], []
    for c in cands:
        hit = None
        for m, fut in c["runs"]:
            r = fut.result()
            labs = bad(r)
            if a.debug:
                print("  cand", c["label"], c["kind"], c.get("why", ""), m, r["status"],
                      labs, r.get("msg", ""), r.get("where", ""))
            if labs:
                hit = (m, labs, r)
                break
        if hit:
            violations.append((c["case"], hit[1], hit[0], hit[2], c["kind"]))
        elif c["kind"] in ("cex", "exception"):
            unreproduced.append((c["case"], c["label"], c.get("why", ""), c["models"][:1]))
    for w in wits:
        fails = []
        for i, (m, fut) in enumerate(w["runs"]):
            r = fut.result()
            t = tot[w["case"]]
            labs = bad(r)
            if labs:
                fails.append((m, labs, r))
            elif r["status"] == "ok":
                t["validated"] += 1
                if i == len(w["runs"]) - 1 and w["obs"] and not close_obs(w["obs"], r["observed"]):
                    mism.append((w["case"], w["obs"], r["observed"], m))
            else:
                t["skipped"] += 1
                if a.debug:
                    print("  witness", r["status"], r.get("why"), r.get("msg"), m)
        if fails:
            m, labs, r = fails[0]
            violations.append((w["case"], labs, m, r, "witness"))
    servers.close()

    # ------------------------------------------------------------- reports
    reported = {}
    for ci, labs, inputs, r, kind in violations:
        fn = cases[ci]["func"]
        for lab in labs:
            k = next((k for k in known if k["harness"] == fn and k["label"] == lab), None)
            if k:
                k["hit"] = True
                continue
            reported.setdefault((fn, lab), (ci, inputs, r, kind))
    rc = 0
    for k in known:
        if k["hit"]:
            print(f"KNOWN-FINDING: property={pid} {k['text']}")
    rdir = os.path.join(ROOT, "replay")
    for (fn, lab), (ci, inputs, r, kind) in sorted(reported.items()):
        os.makedirs(rdir, exist_ok=True)
        job = cjob(ci, inputs)
        hsh = hashlib.sha1(json.dumps([fn, lab, job], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{pid}-{hsh}.json")
        job["label"] = lab
        job["result"] = r
        with open(path, "w") as f:
            json.dump(job, f, indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  harness {fn} {json.dumps(cases[ci]['params'])}: {lab}"
              + (f" ({r.get('msg','')} at {r.get('where')})" if r["status"] == "exception" else ""))
        rc = 1
    S = {k: sum(t[k] for t in tot) for k in tot[0]} if tot else {}
    nocheck = [cases[i]["func"] for i, t in enumerate(tot) if t["checks"] == 0]
    vac = [f"{cases[i]['func']} {json.dumps(cases[i]['params'])}" for i, t in enumerate(tot)
           if t["complete"] == 0 and not t["left"] and not any(e[0] == i for e in errors)]
    for u, n in sorted(unsupported.items(), key=lambda x: -x[1])[:6]:
        print(f"NOTE property={pid} {n} path(s) outside the engine, run concretely only: {u}")
    for ci, lab, why, ms in unreproduced[:6]:
        print(f"INCONCLUSIVE property={pid} {cases[ci]['func']}: {lab} {why} not reproduced on the "
              f"real code {json.dumps(ms)[:300]}")
    for ci, u in unknown[:6]:
        print(f"INCONCLUSIVE property={pid} {cases[ci]['func']}: solver unknown for {u}")
    for ci, e in errors[:4]:
        print(f"INCONCLUSIVE property={pid} {cases[ci]['func']}: engine error {e}")
    for ci, o, c, m in mism[:4]:
        print(f"NOTE property={pid} {cases[ci]['func']} model and real run disagree: {o} / {c} / {m}")
    if stopped:
        print(f"NOTE property={pid} exploration stopped after a confirmed violation")
    if budget:
        print(f"NOTE property={pid} time budget used up with {S.get('left', 0)}+ open paths")
    for v in vac[:5]:
        print(f"NOTE property={pid} no path reached the end of {v}")
    wall = time.time() - t0
    exhaustive = not (unsupported or unknown or errors or budget or stopped or unreproduced
                      or S.get("unknown_forks", 0))
    fns = []
    for fn, qn in sorted(covered):
        if "<" in qn.split(".")[-1] or qn == "<module>":
            continue
        fns.append(f"{os.path.basename(fn)}:{qn}")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "wall_s": round(wall, 2), "violations": len(reported),
        "assumptions": [f"{k}: {v}" for k, v in sorted(used.items())]
        + list(getattr(mod, "ASSUMPTIONS", []))
        + ["floating point numbers of the implementation are read as exact reals"],
        "coverage": {
            "states": max(1, S.get("paths", 0)), "transitions": S.get("transitions", 0),
            "traces_validated_against_impl": S.get("validated", 0),
            "samples": [f"{c['func']} {json.dumps(c['params'])}" for c in cases[:8]],
            "cases": len(cases), "paths_complete": S.get("complete", 0),
            "paths_cut_by_requirements": S.get("cut", 0),
            "paths_outside_engine": sum(unsupported.values()),
            "obligations_discharged_by_solver": S.get("discharged", 0),
            "obligations_constant_true": S.get("trivial", 0),
            "obligations_unknown": len(unknown),
            "queries": S.get("queries", 0), "solver_s": round(S.get("solver_s", 0.0), 2),
            "unreproduced_counterexamples": len(unreproduced),
            "model_real_mismatches": len(mism),
            "exhaustive_within_bounds": bool(exhaustive),
            "functions_encoded": fns, "bounds": getattr(mod, "BOUNDS", ""),
            "obligations": labels,
            "harnesses_without_checks": nocheck, "unreached": vac,
        },
    }
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print(f"{pid} {tier}: {len(cases)} cases, {S.get('paths', 0)} paths ({S.get('complete', 0)} complete, "
          f"{S.get('cut', 0)} cut), {S.get('discharged', 0)}+{S.get('trivial', 0)} obligations, "
          f"{S.get('queries', 0)} queries {S.get('solver_s', 0):.1f}s, {S.get('validated', 0)} replays agree, "
          f"{S.get('skipped', 0)} skipped, exhaustive={exhaustive}, {wall:.1f}s -> {'VIOLATION' if rc else 'ok'}")
    if errors and not rc and not S.get("complete", 0):
        return 2
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
