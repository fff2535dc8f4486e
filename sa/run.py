"""python3 -m sa.run Cxx [--tier quick|thorough]"""
import argparse
import json
import os
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
threading.stack_size(1 << 29)


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.isfile(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                d = {}
                head, _, txt = line[7:].partition(" -- ")
                for tok in head.split(" ", 1):
                    k, _, v = tok.partition("=")
                    d[k] = v
                out.append((d.get("property"), d.get("obligation"), txt))
    return out


def load_minimums():
    p = os.path.join(ROOT, "sa", "minimums.json")
    return json.load(open(p)) if os.path.isfile(p) else {}


def analyse(prop, tier):
    """run every engine registered for the property -> dict(obls, stats)"""
    from . import props
    return props.run(prop, tier)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    t0 = time.time()
    res = {}

    def work():
        try:
            res["r"] = analyse(prop, a.tier)
        except BaseException as e:
            import traceback
            res["err"] = traceback.format_exc()
    th = threading.Thread(target=work)
    th.start()
    th.join()
    if "err" in res:
        print("ERROR analysis failed\n" + res["err"])
        return 2
    r = res["r"]
    obls = r["obls"]
    known = {(p, o): t for p, o, t in known_findings()}
    viol = [o for o in obls if o.status == "violation"]
    und = [o for o in obls if o.status == "undecided"]
    ok = [o for o in obls if o.status == "ok"]
    listed = [o for o in viol if (prop, o.key) in known]
    new = [o for o in viol if (prop, o.key) not in known]
    for o in listed:
        print("KNOWN-FINDING: property=%s %s: %s [%s]" % (prop, o.key, known[(prop, o.key)], o.detail[:160]))
    ev = os.environ.get("SA_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for n, o in enumerate(new):
        path = os.path.join(ev, "replay", "%s-%d.txt" % (prop, n))
        with open(path, "w") as f:
            f.write("property   %s\nobligation %s\nconstruct  %s\nviolation  %s\nrule       %s\nreplay     cd %s && python3 -m sa.run %s -v\n" % (
                prop, o.key, o.at, o.detail, r.get("rule", ""), ROOT, prop))
        print("%s: %s: %s" % (o.at, o.key, o.detail[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for o in und:
        print("UNDECIDED %s: %s [%s]" % (o.key, o.detail[:300], o.at))
    if a.v:
        for o in ok:
            print("ok        %s (%s)" % (o.key, o.how))
    proved = sum(1 for o in ok if o.how != "random-interpretation")
    mins = load_minimums().get(prop)
    wall = time.time() - t0
    cov = {
        "explanation": r.get("explanation", ""),
        "rule": r.get("rule", ""),
        "obligations": len(obls), "discharged": len(ok), "proved_by_normal_form": proved,
        "agree_under_random_interpretation": len(ok) - proved, "undecided": len(und),
        "undecided_list": ["%s: %s" % (o.key, o.detail[:200]) for o in und][:40],
        "known_findings": [o.key for o in listed],
    }
    cov.update(r.get("stats", {}))
    json.dump({
        "property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": r.get("level", "other"), "coverage": cov, "wall_s": round(wall, 2),
        "violations": [{"obligation": o.key, "construct": o.at, "detail": o.detail[:500]} for o in new],
        "assumptions": r.get("assumptions", []),
    }, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged (%d by normal form), %d undecided, %d known findings, %d violations, %.1f s" % (
        prop, len(obls), len(ok), proved, len(und), len(listed), len(new), wall))
    if new:
        return 1
    if mins is not None and len(ok) + len(listed) < mins and not os.environ.get("SA_NOMIN"):
        print("ERROR only %d obligations decided, expected at least %d: the analysis no longer covers the code" % (len(ok), mins))
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
