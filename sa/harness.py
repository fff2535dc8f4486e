"""Obligation harness: runs specification modules through the abstract interpreter together
with the repository's source and decides each obligation."""
import os
import time

from . import terms as T
from .terms import Term, mk, const, num
from . import arrays as A
from .arrays import ArrV
from . import norm
from . import steer
from . import interp as V
from . import models as M
from . import models_np as NP

HERE = os.path.dirname(os.path.abspath(__file__))


class Obl:
    __slots__ = ("group", "label", "status", "detail", "at", "how")

    def __init__(self, group, label, status, detail="", at="", how=""):
        self.group, self.label, self.status, self.detail, self.at, self.how = group, label, status, detail, at, how

    @property
    def key(self):
        return "%s/%s" % (self.group, self.label)


def sat(conds, raw=False):
    """'yes' (a satisfying interpretation exists), 'no' (folds to false), 'unknown'"""
    c = T.land(*conds) if conds else T.TRUE
    if not raw:
        c = T.quiet(c)
    if c is T.TRUE:
        return "yes"
    if c is T.FALSE:
        return "no"
    if norm.opaque_heads(c):
        return "unknown"
    pins = [{}]
    for e in T.atoms(c, lambda u: u.op == "eq"):
        for p, q in (e.args, e.args[::-1]):
            if q.op in ("sym", "idx") and T.is_const(p):
                v = T.cval(p)
                pins.append({q: v if isinstance(v, (str, bool, type(None))) else float(v)})
    for k in range(40):
        for scale in ((1.0, 0.02, 40.0, 500.0) if k < 10 else (1.0,)):
            for pin in pins:
                it = norm.Interp(("sat", k), dict(pin), scale)
                try:
                    if norm.truth(it.ev(c)):
                        return "yes"
                except (norm.NoValue, RecursionError, TypeError):
                    continue
    if steer.steer(norm, ((c, True),)):
        return "yes"
    return "unknown"


class Harness:
    def __init__(self, prop, overlay=None, budget=120.0):
        self.prop = prop
        self.budget = budget
        ov = dict(overlay or {})
        lib = os.path.join(HERE, "lib")
        if os.path.isdir(lib):
            for f in sorted(os.listdir(lib)):
                if f.endswith(".py"):
                    with open(os.path.join(lib, f)) as fh:
                        ov.setdefault(f[:-3].replace("__", "."), (fh.read(), "lib/" + f))
        self.I = V.Interp(ov)
        self.obls = []
        self.group = "?"
        self.seen = set()
        self.notes = []
        self.ambient = False
        self.install()
        self.I.load("vf_np")
        self.I.load("elli")
        self.load_errors = self.exits_desc(self.I.collectors[0])
        self.base = self.I.st
        if self.base.dead:
            self.base.dead = False

    # -------------------------------------------------------------- results
    def at(self):
        e = getattr(self.I, "last_entry", None) or getattr(self.I, "weak_entry", None)
        return "%s:%s:%d" % e if e else ""

    def add(self, label, status, detail="", how="", at=None):
        label = str(label)
        self.obls.append(Obl(self.group, label, status, detail, at or self.at(), how))
        return status == "ok"

    def exits_desc(self, exits):
        out = []
        for e in exits:
            r = e.st.heap.get(e.val.oid)
            n = getattr(r.meta, "name", "?") if r is not None else "?"
            a = r.data.get("args") if r is not None else None
            out.append((n, str(a)[:200], e.loc))
        return out

    # -------------------------------------------------------------- running
    def load_spec(self, name):
        path = os.path.join(HERE, "specs", name + ".py")
        common = os.path.join(HERE, "specs", "common.py")
        self.I.overlay["spec_common"] = (open(common).read(), "specs/common.py")
        for f in sorted(os.listdir(os.path.join(HERE, "specs"))):
            if f.endswith(".py"):
                self.I.overlay["spec_" + f[:-3]] = (open(os.path.join(HERE, "specs", f)).read(), "specs/" + f)
        self.I.st = self.base.fork()
        self.I.collectors = [[]]
        m = self.I.load("spec_" + name)
        if self.I.collectors[0]:
            self.notes.append("spec load: %s" % self.exits_desc(self.I.collectors[0]))
        self.base = self.I.st
        self.base.dead = False
        d = self.I.st.heap[m.oid].data
        groups = [(k[3:], v) for k, v in d.items() if k.startswith("ob_") and isinstance(v, V.FuncV) and v.module.name == "spec_" + name]
        for n, (exc, a, loc) in enumerate(self.exits_desc(self.I.collectors[0])):
            self.group = name
            self.add("load-%d" % n, "undecided", "spec module raised %s %s at %s" % (exc, a, loc))
        return groups

    def run_group(self, name, fn):
        I = self.I
        self.group = name
        I.st = self.base.fork()
        I.collectors = [[]]
        I.effects = []
        I.undecided_notes = []
        I.unbound_reads = []
        I.frames = []
        I.call_stack = []
        I.may_raise_stack = [False]
        I.rep_stack = []
        I._in_ga = I._in_sa = I._dc_init = False
        I.last_entry = I.weak_entry = None
        I.deadline = time.time() + self.budget
        fr = V.Frame(None, I.modules[fn.module.name].oid, 0)
        fr.module = fn.module
        I.frames.append(fr)
        try:
            try:
                I.call(fn, [], {})
            except V.Abort:
                pass
        except V.Undecided as e:
            self.add("completes", "undecided", "analysis limit: %s (at %s)" % (e, I.where()))
        except RecursionError:
            self.add("completes", "undecided", "analysis recursion limit")
        except Exception as e:  # engine limitation, never an alarm
            if os.environ.get("SA_DEBUG"):
                raise
            self.add("completes", "undecided", "analysis error %s: %s (at %s)" % (type(e).__name__, str(e)[:200], I.where()))
        if self.ambient:
            if not I.st.dead:
                self.surroundings(I.st)
            for e in I.collectors[0]:
                self.surroundings(e.st)
        for e in I.collectors[0]:
            self.stray(e)

    def surroundings(self, st, base=None):
        """the state around the library in `st` is that of `base` (default: before the group started)"""
        I = self.I
        base = base or self.base
        keep, I.st = I.st, st
        try:
            for kind, oids in self.around():
                bad, unk = [], []
                for o in oids:
                    r0, r1 = base.heap.get(o), st.heap.get(o)
                    if r0 is r1 or r0 is None or r1 is None:
                        continue
                    for what, r in self.rec_diff(r0, r1, base.heap, False):
                        (bad if r[0] == "diff" else unk if r[0] == "unknown" else []).append("%s: %s" % (what, r[1]))
                self.verdict(kind, bad, unk, st, [e for e in I.effects if e.oid in oids])
            bad, unk = [], []
            for f in I.st.heap[self.lib("vf_io", "OPENED").oid].data:
                if f in (getattr(self, "opened_before", None) or ()):
                    continue
                if not isinstance(f, V.Ref):
                    unk.append("conditionally opened file")
                    continue
                d = I.st.heap[f.oid].data
                c = d.get("closed", d.get("_closed"))
                nm = d.get("_where")
                if c is not T.TRUE:
                    (bad if c is T.FALSE else unk).append("%s stays open" % (T.show(nm, 2) if isinstance(nm, Term) else nm))
            self.verdict("files closed", bad, unk, st, ())
            bad = [T.show(x, 2) if isinstance(x, Term) else "decoded as %s" % (x.items[1],) for x in I.st.heap[self.lib("vf_io", "WRONG").oid].data if isinstance(x, V.TupV)]
            self.verdict("text decoded with the encoding of the file", bad, [], st, ())
        finally:
            I.st = keep

    def verdict(self, label, bad, unk, st, effects):
        if bad:
            s = sat(st.pc, True)
            if s != "no":
                at = "%s:%s:%d" % effects[-1].loc if effects and getattr(effects[-1], "loc", None) else None
                self.add(label, "violation" if s == "yes" else "undecided", bad[0], at=at)
        elif unk:
            self.add(label, "undecided", unk[0])
        else:
            self.add(label, "ok", how="proved")

    def lib(self, mod, name):
        I = self.I
        if mod not in I.modules:
            I.load(mod)
        return I.st.heap[I.modules[mod].oid].data[name]

    def around(self):
        I = self.I
        out = [("numerical error settings", [I.np_err]), ("process-wide settings", [I.ext_state.oid])]
        if "warnings" in I.modules:
            out.append(("warning filters", [self.lib("warnings", "filters").oid]))
        if "elli.units" in I.modules:
            out.append(("shared unit registry", sorted(self.reach([self.lib("elli.units", "ureg")], self.base.heap))))
        return out

    def stray(self, e, label="no exception"):
        r = e.st.heap.get(e.val.oid)
        n = getattr(r.meta, "name", "?")
        a = r.data.get("args") if isinstance(r.data, dict) else ""
        where = "%s:%s:%d" % e.loc if e.loc else "?"
        s = sat(e.pc)
        d = "%s%s raised at %s" % (n, str(a)[3:160], where)
        if e.pc:
            d += " when " + T.show(T.land(*e.pc), 5)[:200]
        if n == "Undecided" or s != "yes":
            self.add("%s [%s %s]" % (label, n, where.split(":")[0]), "undecided" if s == "unknown" else "ok", d)
        else:
            self.add("%s [%s]" % (label, n), "violation", d, at=where)

    # -------------------------------------------------------------- equality
    def equal(self, got, want, label, depth=0):
        why = self.cmp(got, want, depth, "")
        st = {"equal": "ok", "same": "ok"}.get(why[0])
        if st:
            return self.add(label, "ok", how="proved" if why[0] == "equal" else "random-interpretation")
        if why[0] == "diff":
            return self.add(label, "violation", why[1])
        return self.add(label, "undecided", why[1])

    def pc(self):
        return self.I.st.pc

    def cmp_terms(self, g, w, path):
        if g is w:
            return ("equal", "")
        g, w = T.quiet(g), T.quiet(w)
        pc = tuple(T.quiet(c) for c in self.pc())
        c = T.land(*pc) if pc else T.TRUE
        if c is T.FALSE:
            return ("equal", "")
        r = norm.compare(g, w, pc)
        if r == "equal":
            return ("equal", "")
        if r == "same":
            # try once more with the path condition gating both sides
            return ("same", path)
        if isinstance(r, tuple):
            return ("diff", "%s: source gives %s, expected %s (e.g. %s)" % (path or "value", T.show(g, 6)[:300], T.show(w, 6)[:300], r[1]))
        return ("unknown", "%s: cannot compare %s with %s" % (path or "value", T.show(g, 5)[:250], T.show(w, 5)[:250]))

    def cmp(self, g, w, depth, path):
        I = self.I
        if depth > 16:
            return ("unknown", "too deep")
        if isinstance(g, V.PhiV):
            return self.cmp_phi(g, w, depth, path, False)
        if isinstance(w, V.PhiV):
            return self.cmp_phi(w, g, depth, path, True)
        g0, w0 = I.deref(g), I.deref(w)
        if isinstance(g0, ArrV) or isinstance(w0, ArrV):
            if isinstance(g0, Term) and (isinstance(w0, ArrV)) and (T.is_num(g0) or g0.op in ("ext", "meth", "item")):
                if w0.ndim and g0.op in ("ext", "meth", "item", "elem", "attr"):
                    return ("unknown", "opaque value %s" % T.show(g0, 3)[:200])
            try:
                ga = g0 if isinstance(g0, ArrV) else NP.to_arr(I, g0)
                wa = w0 if isinstance(w0, ArrV) else NP.to_arr(I, w0)
            except (NP.Bad, A.ShapeError, A.Unsupported):
                return ("unknown", "not comparable as arrays")
            if len(ga.shape) != len(wa.shape):
                if any(e.op in ("ext", "meth", "item", "elem", "attr", "call", "stored") for e in ga.elems):
                    return ("unknown", "opaque value of unknown shape %s" % T.show(ga.elems[0], 3)[:200])
                return ("diff", "%s: shape %s, expected %s" % (path or "value", shp(ga), shp(wa)))
            for x, y in zip(ga.shape, wa.shape):
                if A.isint(x) and A.isint(y):
                    if x != y:
                        return ("diff", "%s: shape %s, expected %s" % (path or "value", shp(ga), shp(wa)))
                else:
                    r = self.cmp_terms(A.dimterm(x), A.dimterm(y), path + ".shape")
                    if r[0] != "equal":
                        return r if r[0] != "same" else ("unknown", "shape")
                    if A.isint(x) != A.isint(y):
                        return ("unknown", "shape representation")
            return self.worst(self.cmp_terms(x, y, "%s[elem %d]" % (path, i)) for i, (x, y) in enumerate(zip(ga.elems, wa.elems)))
        if isinstance(g, Term) and isinstance(w, Term):
            if T.is_const(g) and T.is_const(w) and (g.op == "k" or w.op == "k"):
                return ("equal", "") if g is w else ("diff", "%s: %s, expected %s" % (path or "value", T.show(g), T.show(w)))
            return self.cmp_terms(g, w, path)
        gi, wi = self.seq(g), self.seq(w)
        if gi is not None and wi is not None:
            if any(isinstance(x, (V.OptV, V.RepV)) for x in gi + wi):
                if len(gi) == len(wi) and all(x is y for x, y in zip(gi, wi)):
                    return ("equal", "")
                if not any(isinstance(x, V.RepV) for x in gi + wi) and self.other_count(gi, wi):
                    return ("diff", "%s: different number of items for some input" % (path or "value"))
                return ("unknown", "sequence of conditional length")
            if len(gi) != len(wi):
                return ("diff", "%s: %d items, expected %d" % (path or "value", len(gi), len(wi)))
            return self.worst(self.cmp(x, y, depth + 1, "%s[%d]" % (path, i)) for i, (x, y) in enumerate(zip(gi, wi)))
        if isinstance(g, V.Ref) and isinstance(w, V.Ref):
            if g.oid == w.oid:
                return ("equal", "")
            a, b = I.rec(g), I.rec(w)
            if a.kind == b.kind == "dict":
                ka, kb = set(a.data), set(b.data)
                if ka != kb:
                    if all(I.known_key(k) for k in ka | kb):
                        return ("diff", "%s: keys %s, expected %s" % (path or "value", sorted(str(k[1]) for k in ka), sorted(str(k[1]) for k in kb)))
                    return ("unknown", "dict keys")
                return self.worst(self.cmp(a.data[k][1], b.data[k][1], depth + 1, "%s[%s]" % (path, k[1])) for k in a.data)
            if a.kind == b.kind == "set":
                return ("equal", "") if set(a.data) == set(b.data) else ("diff", "%s: different sets" % path)
            if a.kind == b.kind == "inst":
                if a.meta is not b.meta:
                    return ("diff", "%s: %s object, expected %s" % (path or "value", getattr(a.meta, "name", "?"), getattr(b.meta, "name", "?")))
                if (g.oid, w.oid) in self.seen:
                    return ("equal", "")
                self.seen.add((g.oid, w.oid))
                try:
                    ka = {k for k, v in a.data.items() if v is not V.UNBOUND}
                    kb = {k for k, v in b.data.items() if v is not V.UNBOUND}
                    if ka != kb:
                        return ("diff", "%s: attributes differ: %s" % (path or "object", sorted(ka ^ kb)))
                    return self.worst(self.cmp(a.data[k], b.data[k], depth + 1, "%s.%s" % (path, k)) for k in a.data if k in ka)
                finally:
                    self.seen.discard((g.oid, w.oid))
            return ("diff", "%s: %s, expected %s" % (path or "value", a.kind, b.kind))
        if isinstance(g, V.BoundV) and isinstance(w, V.BoundV):
            if g.func is w.func:
                return self.cmp(g.self, w.self, depth + 1, path + ".__self__")
            return ("diff", "%s: different function" % path)
        if type(g) is type(w) and not isinstance(g, (Term,)):
            return ("equal", "") if g == w or M.is_(I, g, w) is T.TRUE else ("diff", "%s: %r, expected %r" % (path or "value", g, w))
        for x in (g, w):
            if isinstance(x, Term) and x.op in ("ext", "meth", "attr", "item", "elem", "call", "strmeth", "loopout"):
                return ("unknown", "%s: opaque value %s" % (path, T.show(x, 3)[:200]))
        return ("diff", "%s: %s, expected %s" % (path or "value", self.kind(g), self.kind(w)))

    def other_count(self, gi, wi):
        """some interpretation of the current path gives the sequences different lengths"""
        pc = [T.quiet(c) for c in self.I.st.pc]
        gc, wc = ([T.quiet(x.c) if isinstance(x, V.OptV) else T.TRUE for x in xs] for xs in (gi, wi))
        if norm.opaque_heads(T.land(*pc + gc + wc)):
            return False
        for k in range(12):
            it = norm.Interp(("count", k), {}, 1.0)
            try:
                if all(norm.truth(it.ev(c)) for c in pc) and len({sum(bool(norm.truth(it.ev(c))) for c in xs) for xs in (gc, wc)}) > 1:
                    return True
            except (norm.NoValue, RecursionError, TypeError):
                continue
        return False

    def kind(self, v):
        if isinstance(v, V.Ref):
            r = self.I.rec(v)
            return "%s %s" % (r.kind, getattr(r.meta, "name", ""))
        if isinstance(v, Term):
            return "value " + T.show(v, 4)[:120]
        return repr(v)[:120]

    def cmp_phi(self, phi, other, depth, path, swap):
        I = self.I
        c = I.fold(phi.c)
        res = []
        for val, alt in ((True, phi.a), (False, phi.b)):
            cc = c if val else T.lnot(c)
            if T.quiet(cc) is T.FALSE:
                continue
            saved = I.st
            I.st = saved.fork()
            I.st.pc = saved.pc + ((cc,) if cc is not T.TRUE else ())
            I.assume(I.st, c, val)
            r = self.cmp(other, alt, depth, path) if swap else self.cmp(alt, other, depth, path)
            if r[0] == "diff" and sat(I.st.pc) != "yes":
                r = ("unknown", r[1]) if sat(I.st.pc) == "unknown" else ("equal", "")
            I.st = saved
            res.append(r)
        return self.worst(res)

    def seq(self, v):
        if isinstance(v, V.TupV):
            return list(v.items)
        if isinstance(v, V.IterV):
            return list(v.items)
        if isinstance(v, V.Ref) and self.I.rec(v).kind == "list":
            return list(self.I.rec(v).data)
        return None

    def worst(self, rs):
        out = ("equal", "")
        rank = {"equal": 0, "same": 1, "unknown": 2, "diff": 3}
        for r in rs:
            if rank[r[0]] > rank[out[0]]:
                out = r
            if out[0] == "diff":
                break
        return out

    # -------------------------------------------------------------- conditions
    def check(self, cond, label, detail=""):
        I = self.I
        c = T.quiet(I.fold(I.truth(cond)))
        if c is T.TRUE:
            return self.add(label, "ok", how="proved")
        pc = tuple(T.quiet(x) for x in self.pc())
        if c is T.FALSE:
            s = sat(pc)
            return self.add(label, "violation" if s == "yes" else ("ok" if s == "no" else "undecided"), detail or "condition is false" + (" when " + T.show(T.land(*pc), 4)[:200] if pc else ""))
        if norm.opaque_heads(c):
            return self.add(label, "undecided", "condition depends on unmodelled value %s" % T.show(c, 4)[:200])
        r = norm.compare(c, T.TRUE, pc)
        if r in ("equal", "same"):
            return self.add(label, "ok", how="proved" if r == "equal" else "random-interpretation")
        if isinstance(r, tuple):
            return self.add(label, "violation", (detail + ": " if detail else "") + "fails for some input: not (%s)" % T.show(c, 5)[:300])
        return self.add(label, "undecided", T.show(c, 4)[:200])

    # -------------------------------------------------------------- outcomes
    def outcome(self, fn, args, kwargs):
        """-> (value|None, end state|None, exits) ; interpreter state is left at the end state"""
        I = self.I
        coll = []
        I.collectors.append(coll)
        I.st = I.st.fork()
        val, ok = None, True
        try:
            try:
                val = I.call(fn, args, kwargs)
            except V.Abort:
                ok = False
        finally:
            I.collectors.pop()
        return (val if ok else None), (I.st if ok else None), coll

    def expect_raises(self, fn, exc, label, args, kwargs, snap=None):
        I = self.I
        base = I.st
        try:
            val, st, exits = self.outcome(fn, args, kwargs)
        except V.Undecided as e:
            I.st = base
            return self.add(label, "undecided", "analysis limit: %s" % e)
        res = []
        if st is not None:
            s = sat(st.pc)
            if s == "yes":
                res.append(("violation", "completes without raising%s" % (" when " + T.show(T.land(*st.pc), 4)[:200] if st.pc else "")))
            elif s == "unknown":
                res.append(("undecided", "may complete without raising"))
        for e in exits:
            if self.ambient:
                self.surroundings(e.st)
            I.st = e.st
            m = I.exc_matches(e.val, exc)
            if m is True:
                res.append(("ok", ""))
                continue
            n = getattr(I.exc_class(e.val), "name", "?")
            s = sat(e.pc)
            if s == "no":
                continue
            if m is False and s == "yes":
                res.append(("violation", "raises %s%s at %s:%s:%d" % ((n, str(I.rec(e.val).data.get("args"))[3:120]) + e.loc)))
            elif m is None or s == "unknown":
                res.append(("undecided", "raises %s" % n))
        I.st = base
        for k in ("violation", "undecided"):
            for r in res:
                if r[0] == k:
                    return self.add(label, k, r[1])
        return self.add(label, "ok" if res else "undecided", how="proved")

    # -------------------------------------------------------------- heap
    def reach(self, vals, heap=None, with_cls=False):
        heap = heap or self.I.st.heap
        seen = set()
        stack = list(vals)
        while stack:
            v = stack.pop()
            if isinstance(v, V.Ref):
                if v.oid in seen:
                    continue
                seen.add(v.oid)
                r = heap[v.oid]
                if r.kind in ("list",):
                    stack.extend(r.data)
                elif r.kind in ("set", "frozenset"):
                    stack.extend(r.data.values())
                elif r.kind == "dict":
                    for k, x in r.data.values():
                        stack += [k, x]
                elif r.kind == "inst":
                    stack.extend(r.data.values())
                elif r.kind == "opq" and isinstance(r.data, dict):
                    stack.extend(r.data.values())
            elif isinstance(v, (V.TupV, V.IterV)):
                stack.extend(v.items)
            elif isinstance(v, (V.OptV, V.RepV)):
                stack.append(v.v)
            elif isinstance(v, V.PhiV):
                stack += [v.a, v.b]
            elif isinstance(v, V.BoundV):
                stack.append(v.self)
            elif isinstance(v, V.PartialV):
                stack += list(v.args) + list(v.kwargs.values())
            elif isinstance(v, V.FuncV) and with_cls:
                env = v.env
                while env is not None and heap[env].meta is not None:
                    if env in seen:
                        break
                    seen.add(env)
                    stack.extend(heap[env].data.values())
                    env = heap[env].meta
            elif isinstance(v, ArrV):
                stack += [V.Ref(o) for o in v.roots]
        return seen

    def frozen(self, roots, fn, label, args=(), kwargs=None, private_ok=True):
        """run fn; every object reachable from roots must be unchanged afterwards (also when fn raises)"""
        I = self.I
        before = dict(I.st.heap)
        oids = self.reach([roots])
        n0 = len(I.effects)
        base = I.st
        val, st, exits = self.outcome(fn, list(args), kwargs or {})
        bad = []
        unk = []
        for s in ([st] if st is not None else []) + [e.st for e in exits]:
            I.st = s
            saved_heap = None
            for o in sorted(oids):
                r0, r1 = before[o], s.heap.get(o)
                if r0 is r1 or r1 is None:
                    continue
                for what, r in self.rec_diff(r0, r1, before, private_ok):
                    if r[0] == "diff":
                        sv = sat(s.pc)
                        (bad if sv == "yes" else unk).append((o, what, r[1]))
                    elif r[0] == "unknown":
                        unk.append((o, what, r[1]))
        if bad:
            o, what, d = bad[0]
            w = [e for e in I.effects[n0:] if e.oid == o]
            loc = "%s:%s:%d" % w[-1].loc if w else self.at()
            self.add(label, "violation", "changes %s of %s: %s" % (what, self.objname(before[o], roots, o), d), at=loc)
        elif unk:
            self.add(label, "undecided", "may change %s: %s" % (unk[0][1], unk[0][2]))
        else:
            self.add(label, "ok", how="proved")
        for e in exits:
            I.collectors[-1].append(e)
        if st is None:
            I.st = base
            I.st.dead = True
            raise V.Abort()
        I.st = st
        return val

    def objname(self, rec, roots, oid):
        return getattr(rec.meta, "name", None) or rec.kind

    def rec_diff(self, r0, r1, before, private_ok):
        """differences of one heap record (shallow: references compared by identity)"""
        k = r0.kind
        if k == "inst":
            for n in list(r0.data) + [m for m in r1.data if m not in r0.data]:
                a, b = r0.data.get(n, V.UNBOUND), r1.data.get(n, V.UNBOUND)
                if a is b:
                    continue
                if private_ok and n.startswith("_") and (a is V.UNBOUND or a is T.NONE):
                    continue
                yield "attribute '%s'" % n, self.shallow_cmp(b, a)
        elif k == "list":
            if len(r0.data) != len(r1.data):
                yield "list length", ("diff", "%d -> %d items" % (len(r0.data), len(r1.data)))
                return
            for i, (a, b) in enumerate(zip(r0.data, r1.data)):
                if a is not b:
                    yield "item %d" % i, self.shallow_cmp(b, a)
        elif k == "dict":
            for n in list(r0.data) + [m for m in r1.data if m not in r0.data]:
                if n not in r0.data or n not in r1.data:
                    yield "key %s" % (n[1],), ("diff", "key %s" % ("added" if n in r1.data else "removed"))
                elif r0.data[n][1] is not r1.data[n][1]:
                    yield "key %s" % (n[1],), self.shallow_cmp(r1.data[n][1], r0.data[n][1])
        elif k == "set":
            if set(r0.data) != set(r1.data):
                yield "set", ("diff", "members changed")
        elif k == "arr":
            if shp(r0.data) != shp(r1.data):
                yield "array shape", ("diff", "%s -> %s" % (shp(r0.data), shp(r1.data)))
            else:
                yield "array data", self.worst(self.cmp_terms(b, a, "[%d]" % i) for i, (a, b) in enumerate(zip(r0.data.elems, r1.data.elems)))
        elif k == "opq":
            yield "object", ("diff", "modified")

    def shallow_cmp(self, b, a):
        if isinstance(a, V.Ref) and isinstance(b, V.Ref):
            if a.oid == b.oid:
                return ("equal", "")
            return self.cmp(b, a, 0, "")
        if isinstance(a, V.OptV) or isinstance(b, V.OptV):
            return ("unknown", "conditional item")
        if a is V.UNBOUND or b is V.UNBOUND:
            return ("diff", "added" if a is V.UNBOUND else "removed")
        if isinstance(b, V.PhiV) and (b.a is V.UNBOUND or b.b is V.UNBOUND):
            return ("diff", "conditionally added/removed")
        return self.cmp(b, a, 0, "")

    def shares(self, a, b):
        """mutable heap objects reachable from both"""
        return [o for o in sorted(self.reach([a]) & self.reach([b])) if self.I.st.heap[o].kind in ("list", "dict", "set", "inst", "arr")]

    # -------------------------------------------------------------- intrinsics
    def install(self):
        from .intrinsics import make
        I = self.I
        env = I.alloc("env", {"__name__": const("vf")}, None)
        m = V.ModV("vf", env.oid, "vf")
        d = dict(I.st.heap[env.oid].data)
        d.update(make(self))
        I.st.heap[env.oid] = V.Rec("env", d, None)
        I.modules["vf"] = m
        I.overlay["vf"] = ("", "vf")


def shp(a):
    return "(" + ", ".join(str(d) if A.isint(d) else T.show(d, 3) for d in a.shape) + ")"
