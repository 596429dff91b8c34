"""Writes properties.jsonl and MANIFEST.json (run after editing tools/meta.py)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
import meta  # noqa: E402

NA = getattr(meta, "NA", {})
lines, checks = [], []
for pid, d in sorted(meta.P.items()):
    assert len(d["title"]) <= 80, (pid, len(d["title"]))
    lines.append(json.dumps({
        "id": pid, "title": d["title"], "statement": d["statement"],
        "quantifier": {"over": d["over"], "text": d["text"]},
        "why_tests_cant": d["why"],
        "anchors": {"files": d["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in d["mech"]]}}))
    if pid in NA:
        continue
    mod = __import__("props." + pid.lower(), fromlist=["x"])
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid} quick",
        "thorough_cmd": f"./check.sh {pid} thorough",
        "technique": "symbolic execution of the real source with z3 (bounded), counterexamples replayed",
        "level": "model_checking",
        "level_note": "bounded: " + mod.BOUNDS + ". Floats read as exact reals; library calls by the "
        "contract models listed in the evidence; every counterexample is replayed on the unmodified package."})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh",
               "checks": checks,
               "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
               "notes": "One engine (symx/) executes the current /repo source symbolically; props/ holds one "
               "harness module per property. No hooks are needed in /repo. See DESIGN.md."},
              f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(NA), "not applicable")
