"""Boundary-directed random interpretation.

Random points of the symbols rarely fall on the rare side of a comparison (``if d < 1e-3``, ``if len(x) == 1``).
For every comparison inside two terms that are compared this module searches, by line searches over single
symbols, interpretations in which the comparison takes either value together with the comparisons that lead
to it.  It evaluates terms only."""
import cmath
import math
import time
from fractions import Fraction

from . import terms as T
from .terms import Term, mk

MEMO = {}


def alternatives(c, want, depth=0):
    """disjunctive normal form of c == want, cut after a few alternatives; lists of (atom, polarity)"""
    if c is T.TRUE or c is T.FALSE:
        return [[]] if (c is T.TRUE) == want else []
    if c.op == "not":
        return alternatives(c.args[0], not want, depth)
    if depth > 6:
        return [[(c, want)]]
    if c.op == "and":
        if want:
            out = [[]]
            for a in c.args:
                out = [x + y for x in out for y in alternatives(a, True, depth + 1)[:4]][:8]
            return out
        out = []
        for a in c.args:
            out += alternatives(a, False, depth + 1)[:4]
        return out[:12]
    if c.op == "ite" and T.isbool(c):
        out = []
        for pol, arm in ((True, c.args[1]), (False, c.args[2])):
            for x in alternatives(c.args[0], pol, depth + 1)[:3]:
                for y in alternatives(arm, want, depth + 1)[:3]:
                    out.append(x + y)
        return out[:8]
    return [[(c, want)]]


def consts(t, out=None):
    out = []
    for u in T.atoms(t, lambda u: u.op == "n"):
        v = u.args[0]
        try:
            out.append(float(v))
        except (TypeError, OverflowError):
            pass
    return sorted(set(out), key=abs)[:12]


def candidates(key, info, c):
    """values of one symbol worth trying for comparison c"""
    kind, lo, hi = info
    strs = [T.cval(x) for x in c.args if isinstance(x, Term) and x.op == "k"] if c.op == "eq" else []
    if kind == "bool":
        return [True, False]
    if kind == "str":
        return [s for s in strs if isinstance(s, str)] + ["other"]
    ks = consts(c)
    if kind in ("int", "posint"):
        vals = [1, 2, 3, 4, 5, 7, 10, 11, 20, 33, 40, 101, 257, 1001, 10001, 0, -1, -2, -3, -7] + [x + d for x in ks for d in (0, -1, 1)] + [-x for x in ks]
        vals = [float(int(x)) for x in vals if abs(x) < 1e9]
        if lo is None and kind == "posint":
            lo = 1
        return [x for x in dict.fromkeys(vals) if (lo is None or x >= lo) and (hi is None or x <= hi)]
    near = [x * f for x in ks for f in (1, -1, 0.999, 1.001, 1.000001, 0.999999, 0.5, 2)]
    if lo is not None:
        lo, hi = float(lo), float(hi if hi is not None else lo + 1e4)
        w = hi - lo
        vals = [lo + w * f for f in (0.5, 0.25, 0.75, 0.1, 0.9, 0.03, 0.97, 0.003, 0.997, 0.0003, 0.9997, 0.6, 0.4)] + [x for x in near if lo <= x <= hi]
        vals += [x for x in (lo + w * 1e-7, hi - w * 1e-7) if lo <= x <= hi]
        if kind == "complex":
            return [complex(x) for x in vals] + [complex(x, 0.3 * x) for x in vals[:5]]
        return vals
    pos = [1.0, 0.3, 3.0, 0.05, 12.0, 1e-3, 70.0, 1e-5, 500.0, 1e-8, 5e3, 1e5, 1e-11, 1e7]
    if kind in ("pos", "nonneg"):
        return pos + [x for x in near if x > 0 or (x == 0 and kind == "nonneg")] + ([0.0] if kind == "nonneg" else [])
    real = pos[:10] + [-x for x in pos[:10]] + near + [0.0] + pos[10:] + [-x for x in pos[10:]]
    if kind == "real":
        return real
    if kind == "eps":
        return [complex(x, y) for x, y in ((2.0, 0.1), (1.0, 0.0), (12.0, 3.0), (-5.0, 0.4), (-20.0, 1.0), (0.5, 0.0), (30.0, 20.0), (4.0, 1e-6), (1.0001, 0.0), (-3.0, 1e-5), (1e-6, 0.0))] + [complex(x) for x in near] + [complex(0, x) for x in near if x > 0]
    if kind == "index":
        return [complex(x, y) for x, y in ((1.5, 0.01), (1.0, 0.0), (4.0, 1.0), (0.1, 4.0), (1.0001, 0.0), (0.5, 0.0), (3.0, 1e-6), (8.0, 8.0))] + [complex(x) for x in near if x > 0] + [complex(1.2, x) for x in near if x > 0]
    vals = [complex(x) for x in real]
    return vals + [complex(0, x) for x in real[:20]] + [complex(x, x / 2) for x in real[:10]] + [complex(1, x) for x in near] + [complex(x, 1) for x in near]


def interp(norm, seed, over):
    it = norm.Interp(("s", seed), {}, 1.0)
    it.over = over
    return it


def holds(norm, seed, over, lits):
    it = interp(norm, seed, over)
    try:
        return all(norm.truth(it.ev(c)) == want for c, want in lits)
    except (norm.NoValue, RecursionError, TypeError, AttributeError):
        return False


def margin(norm, seed, over, c, want):
    """positive when lt atom c has polarity `want`"""
    it = interp(norm, seed, over)
    try:
        x, y = (complex(norm.num_(it.ev(a))).real for a in c.args)
    except (norm.NoValue, RecursionError, TypeError, AttributeError):
        return -math.inf
    m = y - x
    return m if want else -m


def support(norm, seed, over, c):
    it = interp(norm, seed, over)
    it.hit = {}
    try:
        it.ev(c)
    except (norm.NoValue, RecursionError, TypeError, AttributeError):
        pass
    return it.hit


def value(norm, seed, key, info):
    return interp(norm, seed, {}).symval(key, *[x for x in info if x is not None])


def inward(norm, seed, over, key, info, done):
    """move one chosen value as far towards its random one as the conditions allow (less special points tell more)"""
    if info[0] not in ("pos", "nonneg", "real", "complex", "any", "eps", "index"):
        return over
    v = over[key]
    if info[0] in ("eps", "index"):
        w = complex(2.31, 0.47) if info[0] == "eps" else complex(1.63, 0.31)
    else:
        w = value(norm, seed, key, info)
        if info[0] != "complex" and info[0] != "any":
            w = complex(w).real
    lo, hi, good = 0.0, 1.0, None
    for _ in range(14):
        t = (lo + hi) / 2
        o = dict(over)
        o[key] = v + (w - v) * t
        if holds(norm, seed, o, done):
            lo, good = t, o
        else:
            hi = t
    if good is None or lo < 1e-4:
        return over
    o = dict(over)
    o[key] = v + (w - v) * lo * 0.9
    return o if holds(norm, seed, o, done) else good


def solve(norm, lits, seed, deadline):
    over = {}
    done = []
    kinds = {}
    for c, want in lits:
        if holds(norm, seed, over, [(c, want)]):
            done.append((c, want))
            continue
        hit = support(norm, seed, over, c)
        keys = [k for k in hit if k not in over]
        keys.sort(key=lambda k: (k[0] == "u" and isinstance(k, tuple), str(k)))
        found = None
        joint, jm = dict(over), -math.inf
        for k in keys[:14]:
            if time.time() > deadline:
                return None
            whole = (k[0], "*") if isinstance(k, tuple) and k[0] != "u" else None
            for kk in (k,) + ((whole,) if whole and whole not in over else ()):
                best = None
                for v in candidates(k, hit[k], c):
                    o = dict(over)
                    o[kk] = v
                    if holds(norm, seed, o, done + [(c, want)]):
                        found = o
                        break
                    if c.op == "lt" and isinstance(v, float):
                        m = margin(norm, seed, o, c, want)
                        if best is None or m > best[0]:
                            best = (m, v)
                if found:
                    break
                if best and best[0] > -math.inf:
                    found = climb(norm, seed, over, kk, hit[k], best, done, c, want)
                if not found and c.op == "eq":
                    found = root(norm, seed, over, kk, hit[k], done, c, want)
                if found:
                    kinds[kk] = hit[k]
                    break
            if found:
                kinds[kk] = hit[k]
                break
            if c.op == "lt" and len(keys) > 1:
                # several symbols together: keep the best value of each and go on
                for v in candidates(k, hit[k], c):
                    if not isinstance(v, float):
                        continue
                    o = dict(joint)
                    o[k] = v
                    m = margin(norm, seed, o, c, want)
                    if m > jm and (not done or holds(norm, seed, o, done)):
                        joint, jm = o, m
                        if m > 0 and holds(norm, seed, o, done + [(c, want)]):
                            found = o
                            break
                if found:
                    for q in found:
                        if q not in over:
                            kinds[q] = hit.get(q, hit[k])
                    break
        if not found:
            return None
        over = found
        done.append((c, want))
    out = [over]
    for k in list(over):
        if time.time() > deadline:
            break
        over = inward(norm, seed, over, k, kinds[k], done)
    return out + [over] if over is not out[0] else out


def climb(norm, seed, over, key, info, best, done, c, want):
    kind, lo, hi = info
    if kind in ("int", "posint", "bool", "str"):
        return None
    m, v = best
    step = max(abs(v) * 0.5, 1e-9) if lo is None else (float(hi if hi is not None else lo + 1e4) - float(lo)) / 4
    for _ in range(60):
        moved = False
        for w in (v + step, v - step):
            if lo is not None and w < float(lo) or hi is not None and w > float(hi) or kind in ("pos", "nonneg") and w <= 0:
                continue
            o = dict(over)
            o[key] = w
            n = margin(norm, seed, o, c, want)
            if n > m:
                m, v, moved = n, w, True
                if n > 0 and holds(norm, seed, o, done + [(c, want)]):
                    return o
                break
        if not moved:
            step /= 2.5
    return None


def root(norm, seed, over, key, info, done, c, want):
    """a value of the symbol that makes an equality hold"""
    if not want or info[0] in ("bool", "str", "int", "posint"):
        return None

    def h(v):
        o = dict(over)
        o[key] = v
        it = interp(norm, seed, o)
        x, y = (norm.num_(it.ev(a)) for a in c.args)
        return complex(x) - complex(y)
    cplx = info[0] in ("complex", "eps", "index", "any")
    v0, v1 = (complex(0.7, 0.1), complex(1.3, 0.2)) if cplx else (0.7, 1.3)
    if info[1] is not None:
        w = float(info[2] if info[2] is not None else info[1] + 1e4) - float(info[1])
        v0, v1 = float(info[1]) + w * 0.3, float(info[1]) + w * 0.6
    try:
        f0, f1 = h(v0), h(v1)
        for _ in range(40):
            if f1 == f0:
                return None
            v = v1 - f1 * (v1 - v0) / (f1 - f0)
            if not cplx:
                v = v.real
            v0, f0, v1 = v1, f1, v
            f1 = h(v1)
            if abs(f1) < 1e-12:
                break
    except (norm.NoValue, RecursionError, TypeError, AttributeError, ZeroDivisionError, OverflowError):
        return None
    r = v1 if not isinstance(v1, complex) else v1.real
    if info[1] is not None and not float(info[1]) <= r <= float(info[2] if info[2] is not None else math.inf):
        return None
    if info[0] in ("pos", "nonneg") and r <= 0 or info[0] == "eps" and v1.imag < 0 or info[0] == "index" and (r <= 0 or v1.imag < 0):
        return None
    o = dict(over)
    o[key] = v1
    return o if holds(norm, seed, o, done + [(c, want)]) else None


def steer(norm, goals, seed=0, limit=1.0):
    """assignments of symbols under which every (condition, polarity) holds; [] if none is found"""
    key = (tuple(goals), seed)
    if key in MEMO:
        return MEMO[key]
    deadline = time.time() + limit
    alts = [[]]
    for c, want in goals:
        alts = [x + y for x in alts for y in alternatives(c, want)][:12]
    out = None
    for lits in alts:
        lits = list(dict.fromkeys(lits))
        if any((c, not w) in lits for c, w in lits):
            continue
        # equalities first: they determine a symbol
        lits.sort(key=lambda x: not (x[0].op == "eq" and x[1]))
        out = solve(norm, lits, seed, deadline)
        if out or time.time() > deadline:
            break
    out = MEMO[key] = out or []
    return out


def guards(*roots):
    """comparisons inside the terms, each with the comparisons that lead to it: [(condition, path)]"""
    seen, out = set(), []
    stack = [(r, ()) for r in reversed(roots)]
    while stack:
        t, path = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("lt", "eq"):
            out.append((t, path))
        elif t.op == "bind":
            out_ = T.rename_vars(t.args[3], {t.args[1]: T.num(0)}) if isinstance(t.args[3], Term) else None
            if t.args[0] in ("any", "all"):
                out.append((t, path))
            if out_ is not None:
                stack.append((out_, path))
            if isinstance(t.args[2], Term):
                stack.append((t.args[2], path))
            continue
        elif t.op == "fn" and t.args[0] in ("max", "min") and len(t.args) == 3:
            out.append((T.lt(t.args[1], t.args[2]), path))
        elif t.op == "fn" and t.args[0] in ("sign", "abs") and T.is_real(t.args[1]):
            out.append((T.lt(t.args[1], T.num(0)), path))
        if t.op == "ite":
            c = t.args[0]
            if c.op not in ("lt", "eq"):
                out.append((c, path))
            if len(path) < 6:
                stack.append((t.args[2], path + ((c, False),)))
                stack.append((t.args[1], path + ((c, True),)))
            stack.append((c, path))
            continue
        for a in t.args:
            if isinstance(a, Term):
                stack.append((a, path))
    return [(c, p) for c, p in out if c is not T.TRUE and c is not T.FALSE]
