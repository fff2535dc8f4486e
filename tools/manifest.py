"""Regenerate MANIFEST.json from the registry: python3 tools/manifest.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import registry  # noqa: E402

NA = {
    "C28": "energy conservation of arbitrary lossless stacks is an inequality/identity over products of matrix exponentials with data-dependent length and square roots on branch cuts; no static argument in reach bounds it, and only numeric evaluation could",
    "C29": "numerical agreement of two different algorithms up to rounding quantifies over floating-point error of scipy.linalg.expm and LAPACK eig, which no source analysis here can bound (the structural agreement is C12 and C16)",
    "C30": "convergence of lmfit's iterative optimiser depends on runtime numerics of third-party code and on the conditioning of the data; it has no static anchor in this repository",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in registry.PROPS:
        e = registry.PROPS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "python3 -m sa.run %s --tier quick" % pid,
            "thorough_cmd": "python3 -m sa.run %s --tier thorough" % pid,
            "technique": e.get("technique", "static analysis: abstract interpretation / value-flow comparison of the source against a specification over symbolic inputs"),
            "level": e.get("level", "other"),
            "level_note": e.get("explanation") or e["rule"],
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet: the static specification for this property is not written")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
