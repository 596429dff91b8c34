"""Writes DESIGN.md from tools/design_head.md, the harnesses and the planted bugs."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
import meta  # noqa: E402

out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), ""]
bugs = {}
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
for pid, d in sorted(meta.P.items()):
    mod = importlib.import_module("props." + pid.lower())
    out += [f"### {pid} {d['title']}", "", d["statement"], "",
            "*Anchored in* " + "; ".join(f"`{w}`: {n}" for n, w in d["mech"]) + ".", "",
            "*Quantified over* " + d["text"] + ". *Why tests cannot settle it:* " + d["why"] + ".", "",
            "*Bounds:* " + mod.BOUNDS + ".", "", "*Harnesses:*"]
    for h in mod.HARNESSES:
        fn, quick, deep = h[0], h[1], h[2] if len(h) > 2 else []
        doc = " ".join((fn.__doc__ or "").split()) or "see its checks"
        out.append(f"- `{fn.__name__}` ({len(quick)} quick{f', {len(deep)} more thorough' if deep else ''}): {doc}")
    if pid in bugs:
        out += ["", "*Planted bugs:*"]
        for b, m in bugs[pid]:
            out.append(f"- `{b}`: {m['what_it_breaks']}; needs {m['needs']}")
    out.append("")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
