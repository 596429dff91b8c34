"""Applies edits that keep the behaviour, one at a time, to a scratch copy and reports what the checks say.

python3 refac.py SPEC.py [ids...]; SPEC defines R, a list of (id, [(file, old, new), ...], [property ids])."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor


def one(r):
    rid, edits, pids = r
    root = tempfile.mkdtemp(prefix="refac")
    shutil.rmtree(root)
    subprocess.run(["cp", "-a", "/repo", root], check=True)
    out = []
    try:
        for f, old, new in edits:
            p = f"{root}/swprocess/{f}"
            raw = open(p, "rb").read()
            s = raw.decode().replace("\r\n", "\n")
            if s.count(old) != 1:
                return [f"{rid} EDIT {f}: {s.count(old)} matches of {old[:50]!r}"]
            t = s.replace(old, new)
            open(p, "wb").write((t.replace("\n", "\r\n") if b"\r\n" in raw else t).encode())
        if os.environ.get("TESTS", "1") == "1":
            q = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "test"], cwd=root, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=root, MPLBACKEND="Agg"))
            if q.returncode not in (0,):
                out.append(f"{rid} TESTS {q.stdout.strip().splitlines()[-1:]}")
        for pid in pids:
            q = subprocess.run(["timeout", "900", "python3-vt", "-m", "symx.run", pid, "--no-evidence"], cwd="/verif",
                               capture_output=True, text=True, env=dict(os.environ, SYMX_REPO=root))
            txt = (q.stdout + q.stderr).strip().splitlines()
            ok = q.returncode == 0 and "exhaustive=True" in txt[-1]
            out.append(f"{rid} {pid} " + ("quiet" if ok else f"rc={q.returncode} " + " | ".join(txt[-4:])[:1200]))
    finally:
        shutil.rmtree(root)
    return out


if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    want = sys.argv[2:]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for res in ex.map(one, [r for r in g["R"] if not want or r[0] in want]):
            print("\n".join(res), flush=True)
