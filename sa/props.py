"""Registry: which specification modules and source rules decide which property."""
import multiprocessing
import os
import time

from .harness import Harness, Obl
from . import registry


_H = _G = None
SURROUNDINGS = ("numerical error settings", "process-wide settings", "warning filters", "shared unit registry", "files closed", "text decoded with the encoding of the file")


def _one(i):
    """analyse one specification group (runs in a forked worker)"""
    H, I = _H, _H.I
    H.obls = []
    c0 = I.calls_resolved
    H.run_group(*_G[i][:2])
    if H.ambient:
        for o in H.obls:
            o.group = _G[i][2] + "." + o.group
        H.obls = [o for o in H.obls if o.label in SURROUNDINGS or o.status == "undecided"]
    own = {m.path for n, m in list(I.modules.items()) if n.split(".")[0] == "elli"}
    return (H.obls, {"%s:%s" % f for f in I.funcs_analysed if f[0] in own}, {str(o) for o in I.calls_opaque},
            I.calls_resolved - c0, {x for x in I.stmts_done if x[0] in own})


def run(prop, tier="quick", overlay=None, only=None):
    ent = registry.PROPS[prop]
    obls, stats = [], {"functions_analysed": 0, "calls_resolved": 0, "statements_interpreted": 0}
    funcs, opaque, done = set(), set(), set()
    t0 = time.time()
    mods = {}
    for ambient, key in ((False, "specs"), (True, "ambient")):
        for spec in ent.get(key, ()):  # "module" or "module:group prefix"
            mod, _, pref = spec.partition(":")
            mods.setdefault((mod, ambient), []).append(pref)
    global _H, _G
    for (mod, ambient), prefs in mods.items():
        H = _H = Harness(prop, overlay, ent.get("budget", 120.0))
        H.ambient = ambient
        for n, (name, args, loc) in enumerate(H.load_errors):
            # importing the package raises: nothing below is meaningful
            H.group = "import"
            H.add("elli-%d" % n, "undecided", "importing elli raises %s %s at %s" % (name, args, loc))
        _G = [(n, f, mod) for n, f in H.load_spec(mod) if any(n.startswith(p) for p in prefs) and (not only or only in n)]
        obls += H.obls
        H.obls = []
        jobs = 1 if os.environ.get("SA_DEBUG") else min(int(os.environ.get("SA_JOBS") or 8), len(_G), os.cpu_count() or 1)
        if jobs > 1:
            with multiprocessing.get_context("fork").Pool(jobs) as pool:
                parts = pool.map_async(_one, range(len(_G)), 1).get(780)
        else:
            parts = [_one(i) for i in range(len(_G))]
        for o, f, q, c, n in parts:
            obls += o
            funcs |= f
            opaque |= q
            stats["calls_resolved"] += c
            done |= n
    for rule in ent.get("rules", ()):
        r_obls, r_stats = rule(prop, tier, overlay)
        obls += r_obls
        for k, v in r_stats.items():
            if isinstance(v, int) and isinstance(stats.get(k, 0), int):
                stats[k] = stats.get(k, 0) + v
            else:
                stats[k] = v
    obls = merge(obls)
    fl = sorted(str(f) for f in funcs)
    stats["functions_analysed"] += len(fl)
    stats["statements_interpreted"] = len(done)
    stats["functions"] = fl
    if os.environ.get("SA_COVER"):      # for finding code no check looks at
        with open(os.path.join(os.environ["SA_COVER"], prop), "w") as f:
            f.writelines("%s:%d\n" % x for x in sorted(done))
    stats["unmodelled_library_calls"] = sorted(str(o) for o in opaque)[:40]
    return {"obls": obls, "rule": ent["rule"], "explanation": ent["explanation"], "level": ent.get("level", "other"),
            "stats": stats, "assumptions": registry.ASSUMPTIONS + ent.get("assumptions", [])}


def merge(obls):
    """one entry per key: violation > undecided > ok"""
    rank = {"ok": 0, "undecided": 1, "violation": 2}
    out = {}
    for o in obls:
        p = out.get(o.key)
        if p is None or rank[o.status] > rank[p.status]:
            out[o.key] = o
    return list(out.values())
