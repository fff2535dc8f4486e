"""Regenerate DESIGN.md from the registry, the explanations, the known findings and the planted bugs: python3 tools/design.py"""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import registry  # noqa: E402
from sa.explain import EXPLAIN, WHY  # noqa: E402


def read(*p):
    return open(os.path.join(ROOT, *p), encoding="utf-8").read()


props = [json.loads(l) for l in read("properties.jsonl").splitlines()]
manifest = json.loads(read("MANIFEST.json"))
na = {x["property"]: x["reason"] for x in manifest["not_applicable"]}
fixed, known = [], []
for l in read("known_findings.txt").splitlines():
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixed.append(m.groups())
    m = re.match(r"known: property=(\S+) obligation=(.*?) -- (.*)", l)
    if m:
        known.append(m.groups())
mins = {}
if os.path.exists(os.path.join(ROOT, "sa", "minimums.json")):
    mins = json.loads(read("sa", "minimums.json"))

out = [read("tools", "design_head.md").rstrip(), "", "## 4. Property by property", ""]
for p in props:
    i = p["id"]
    out.append("### %s - %s" % (i, p["title"]))
    out.append("")
    if i in na:
        out += ["Not applicable: " + na[i] + ".", ""]
        continue
    what, oracle, bounds = EXPLAIN[i]
    e = registry.PROPS[i]
    specs = ", ".join("`sa/specs/%s.py`%s" % (s.split(":")[0], " (`ob_%s...`)" % s.split(":")[1] if ":" in s else "") for s in e["specs"])
    out.append("* Specified: " + what)
    out.append("* Oracle: %s." % oracle)
    out.append("* Bounds: %s." % bounds)
    if i in WHY:
        out.append("* Beyond the tests: %s." % WHY[i])
    out.append("* Specification: %s.%s" % (specs, " At least %d obligations have to be decided." % mins[i] if i in mins else ""))
    f = [x for x in fixed if x[0] == i]
    if f:
        out.append("* Defects found and repaired: " + "; ".join("%s (%s)" % (t, c) for _, c, t in f) + ".")
    k = [x for x in known if x[0] == i]
    if k:
        out.append("* Known findings: " + "; ".join("`%s`: %s" % (o, t) for _, o, t in k) + ".")
    out.append("")
out += ["## 5. Planted bugs", "", "Each lies in `seeded/<id>` with its patch, a demonstration and what it needs to manifest. All of those listed are caught by the check of",
        "their property, usually through the construct named in the VIOLATION line.", "", "| change | property | what it breaks | needs |", "|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
out += ["", read("tools", "design_tail.md").rstrip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out))
print("DESIGN.md", len(out), "lines")
