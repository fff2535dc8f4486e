"""Abstract interpreter: repository source (syntax trees) -> gated value-flow terms.

Calls into repository code are inlined (so helper extraction is invisible), joins
merge both sides into gated values (`ite`), loops over known sequences are unrolled,
loops over unknown iterables run once on a generic element and havoc what they
assign.  Nothing of the analysed program is imported or executed.
"""
import ast
import os
import re
import sys
import time
from fractions import Fraction

from . import terms as T
from .terms import Term, mk, const, num
from . import arrays as A
from .arrays import ArrV, ShapeError, Unsupported

REPO = os.environ.get("SA_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class Abort(Exception):
    """current abstract path ended (return/raise/break/continue recorded)"""


class Undecided(Exception):
    """the analysis met a construct it cannot model"""


# ------------------------------------------------------------------ values
class TupV:
    __slots__ = ("items", "names", "tname")

    def __init__(self, items, names=None, tname=None):
        self.items = tuple(items)
        self.names = names
        self.tname = tname

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return "Ref(%d)" % self.oid


class PhiV:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Phi(%r,%r,%r)" % (self.c, self.a, self.b)


class OptV:
    """list item present only under a condition"""
    __slots__ = ("c", "v")

    def __init__(self, c, v):
        self.c, self.v = c, v


def opt(c, v):
    return OptV(T.land(c, v.c), v.v) if isinstance(v, OptV) else OptV(c, v)


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class FuncV:
    def __init__(self, node, env, module, defaults, kwdefaults, name, qual, cls=None):
        self.node, self.env, self.module = node, env, module
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.qual, self.cls = name, qual, cls
        self.attrs = {}

    def __repr__(self):
        return "<func %s>" % self.qual


class BoundV:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self)


class BMeth:
    """method of a builtin object"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "<bmeth %s of %r>" % (self.name, self.obj)


class PyFn:
    """analysis-provided function"""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class PartialV:
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class StaticV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ClassMethV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class PropV:
    __slots__ = ("fget", "fset", "fdel", "cached")

    def __init__(self, fget, fset=None, fdel=None, cached=False):
        self.fget, self.fset, self.fdel, self.cached = fget, fset, fdel, cached


class ClassV:
    def __init__(self, name, bases, oid, module, node=None):
        self.name, self.bases, self.oid, self.module, self.node = name, bases, oid, module, node
        self.mro = c3(self)
        self.flags = {}

    def __repr__(self):
        return "<class %s>" % self.name


class ModV:
    def __init__(self, name, oid, path=None):
        self.name, self.oid, self.path = name, oid, path

    def __repr__(self):
        return "<module %s>" % self.name


class ExtV:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "<ext %s>" % self.name


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class IterV:
    """an iterator or (view=...) a reusable view, materialised as a list of items; what was consumed is kept in the state"""
    __slots__ = ("items", "view", "oid", "endless")

    def __init__(self, items, view=None, endless=False):
        self.items = list(items)
        self.view = view
        self.oid = None
        self.endless = endless  # only a beginning of the items is kept


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


def c3(cls):
    def merge(seqs):
        res = []
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Undecided("inconsistent MRO")
            res.append(c)
            for s in seqs:
                if s[0] == c:
                    del s[0]
    return [cls] + merge([list(b.mro) if isinstance(b, ClassV) else [b] for b in cls.bases] + [list(cls.bases)])


class Rec:
    __slots__ = ("kind", "data", "meta")

    def __init__(self, kind, data, meta=None):
        self.kind, self.data, self.meta = kind, data, meta

    def __repr__(self):
        return "Rec(%s,%r)" % (self.kind, self.data)


class State:
    __slots__ = ("heap", "pc", "facts", "dead")

    def __init__(self, heap, pc=(), facts=None, dead=False):
        self.heap, self.pc, self.facts, self.dead = heap, pc, facts or {}, dead

    def fork(self):
        return State(dict(self.heap), self.pc, dict(self.facts), False)


class Exit:
    __slots__ = ("pc", "val", "st", "loc", "stack")

    def __init__(self, pc, val, st, loc=None, stack=None):
        self.pc, self.val, self.st, self.loc, self.stack = pc, val, st, loc, stack


class Frame:
    def __init__(self, func, env, pclen):
        self.func, self.env, self.pclen = func, env, pclen
        self.returns = []
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.yields = None


class LoopCtx:
    def __init__(self):
        self.breaks, self.conts = [], []


class Effect:
    __slots__ = ("kind", "oid", "what", "val", "loc", "pc", "stack", "old")

    def __init__(self, kind, oid, what, val, loc, pc, stack, old=None):
        self.kind, self.oid, self.what, self.val, self.loc, self.pc, self.stack, self.old = kind, oid, what, val, loc, pc, stack, old


BUILTIN_EXC = {
    "BaseException": [], "Exception": ["BaseException"], "ArithmeticError": ["Exception"],
    "ZeroDivisionError": ["ArithmeticError"], "OverflowError": ["ArithmeticError"],
    "AttributeError": ["Exception"], "LookupError": ["Exception"], "KeyError": ["LookupError"],
    "IndexError": ["LookupError"], "TypeError": ["Exception"], "ValueError": ["Exception"],
    "UnicodeDecodeError": ["ValueError"], "RuntimeError": ["Exception"], "RecursionError": ["RuntimeError"],
    "NotImplementedError": ["RuntimeError"], "ImportError": ["Exception"], "ModuleNotFoundError": ["ImportError"],
    "NameError": ["Exception"], "UnboundLocalError": ["NameError"], "StopIteration": ["Exception"],
    "OSError": ["Exception"], "IOError": ["OSError"], "FileNotFoundError": ["OSError"], "AssertionError": ["Exception"],
    "Warning": ["Exception"], "UserWarning": ["Warning"], "DeprecationWarning": ["Warning"], "KeyboardInterrupt": ["BaseException"], "PicklingError": ["Exception"],
    "pint.DimensionalityError": ["TypeError"], "pint.UndefinedUnitError": ["AttributeError"],
}


def exc_isa(name, target):
    if name == target:
        return True
    return any(exc_isa(b, target) for b in BUILTIN_EXC.get(name, []))


class Interp:
    UNROLL = 400

    def __init__(self, overlay=None):
        self.st = State({})
        self.next_oid = 1
        self.modules = {}
        self.frames = []
        self.collectors = [[]]
        self.effects = []
        self.loc = ("?", "?", 0)
        self.call_stack = []
        self.overlay = overlay or {}
        self.funcs_analysed = set()
        self.calls_resolved = 0
        self.calls_opaque = set()
        self.undecided_notes = []
        self.assumptions = set()
        self.havocs = 0
        self.stmts_done = set()
        self.unbound_reads = []
        self.freshn = 0
        self.depth = 0
        from . import models
        self.models = models
        self.builtins = models.make_builtins(self)
        self.np_err = self.new_dict([(const(k), const(v)) for k, v in (
            ("divide", "warn"), ("over", "warn"), ("under", "ignore"), ("invalid", "warn"))]).oid
        self.ext_state = self.new_dict()      # settings of libraries and the process changed so far

    # ------------------------------------------------------------ heap
    def alloc(self, kind, data, meta=None):
        oid = self.next_oid
        self.next_oid += 1
        self.st.heap[oid] = Rec(kind, data, meta)
        return Ref(oid)

    def rec(self, ref):
        return self.st.heap[ref.oid]

    def setrec(self, ref, data, what="content", val=None, kind="write"):
        r = self.st.heap[ref.oid]
        self.effects.append(Effect(kind, ref.oid, what, val, self.loc, self.st.pc, tuple(self.call_stack), r))
        self.st.heap[ref.oid] = Rec(r.kind, data, r.meta)

    def new_list(self, items):
        return self.alloc("list", tuple(items))

    def new_dict(self, pairs=()):
        d = {}
        for k, v in pairs:
            d[self.hkey(k)] = (k, v)
        return self.alloc("dict", d)

    def new_arr(self, a):
        return self.alloc("arr", ArrV(a.shape, a.elems))

    def fresh(self, prefix):
        self.freshn += 1
        return "%s#%d" % (prefix, self.freshn)

    # ------------------------------------------------------------ helpers
    def where(self):
        return "%s:%s:%d" % self.loc

    def hkey(self, v):
        if isinstance(v, Term):
            if v.op == "n":
                return ("c", v.args[0])
            if v.op == "k":
                x = v.args[0]
                return ("c", Fraction(int(x))) if isinstance(x, bool) else ("k", x)
            return ("t", v.id)
        if isinstance(v, TupV):
            return ("tup",) + tuple(self.hkey(x) for x in v.items)
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == "frozenset":
                return ("fs",) + tuple(sorted(map(str, r.data)))
            return ("ref", v.oid)
        if isinstance(v, (ClassV, ModV, FuncV)):
            return ("obj", id(v))
        if isinstance(v, ExtV):
            return ("ext", v.name)
        if isinstance(v, BoundV):
            return ("b", id(v.func), self.hkey(v.self))
        return ("id", id(v))

    def known_key(self, k):
        if k[0] == "t":
            return False
        if k[0] == "tup":
            return all(self.known_key(x) for x in k[1:])
        return True

    def embed(self, v, depth=0):
        """value -> Term for use as argument of opaque operations"""
        if isinstance(v, Term):
            return v
        if depth > 6:
            return mk("deep")
        e = lambda x: self.embed(x, depth + 1)
        if isinstance(v, TupV):
            return mk("tuple", *[e(x) for x in v.items])
        if isinstance(v, ArrV):
            if v.shape == ():
                return v.elems[0]
            return mk("arr", mk("shape", *[A.dimterm(d) for d in v.shape]), *v.elems)
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind in ("list", "set"):
                return mk(r.kind, *[e(x) for x in (r.data if r.kind == "list" else r.data.values())])
            if r.kind == "arr":
                return self.embed(r.data)
            if r.kind == "dict":
                return mk("dict", *[e(TupV(p)) for p in r.data.values()])
            if r.kind == "opq" and isinstance(r.meta, Term):
                return r.meta
            if r.kind == "inst":
                return mk("obj", v.oid)
            return mk("ref", v.oid)
        if isinstance(v, PhiV):
            return T.ite(v.c, e(v.a), e(v.b))
        if isinstance(v, OptV):
            return mk("opt", v.c, e(v.v))
        if isinstance(v, SliceV):
            return mk("slice", e(v.lo), e(v.hi), e(v.step))
        if isinstance(v, ExtV):
            return mk("extname", v.name)
        if isinstance(v, (FuncV,)):
            return mk("func", v.qual, id(v))
        if isinstance(v, BoundV):
            return mk("bound", e(v.func), e(v.self))
        if isinstance(v, ClassV):
            return mk("class", v.name)
        if isinstance(v, ModV):
            return mk("module", v.name)
        if isinstance(v, IterV):
            return mk("iter", *[e(x) for x in v.items])
        if v is UNBOUND:
            return mk("unbound")
        return mk("pyobj", type(v).__name__, id(v))

    def deref(self, v):
        """array refs -> ArrV content"""
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == "arr":
                return ArrV(r.data.shape, r.data.elems, frozenset([v.oid]))
        return v

    def fold(self, c):
        """simplify condition with current facts"""
        if c.op == "k":
            return c
        facts = self.st.facts
        if not facts:
            return c
        memo = {}

        def f(u):
            if u in facts:
                return T.TRUE if facts[u] else T.FALSE
            if u.op == "eq":
                x, y = u.args
                for p, q in ((x, y), (y, x)):
                    if T.is_const(p):
                        k = facts.get(("eq", q))
                        if k is not None and k is not p:
                            return T.eq(k, p)
            if u.op == "lt" and (T.is_num(u.args[0]) or T.is_num(u.args[1])):
                q = u.args[1] if T.is_num(u.args[0]) else u.args[0]
                k = facts.get(("eq", q))
                if k is not None:
                    return T.lt(u.args[0], k) if q is u.args[1] else T.lt(k, u.args[1])
                r = self.bounds_fold(u)
                if r is not None:
                    return r
            if u.op in ("not", "and", "ite", "eq", "lt"):
                return None
            return u

        return T.rewrite(c, f, memo)

    def bounds_fold(self, u):
        """decide x<c from recorded numeric bounds on x"""
        a, b = u.args
        if T.is_num(b):
            lo = self.st.facts.get(("lo", a))
            hi = self.st.facts.get(("hi", a))
            c = b.args[0]
            if hi is not None and (hi[0] < c or (hi[0] == c and hi[1])):
                return T.TRUE
            if lo is not None and lo[0] >= c:
                return T.FALSE
        elif T.is_num(a):
            lo = self.st.facts.get(("lo", b))
            hi = self.st.facts.get(("hi", b))
            c = a.args[0]
            if lo is not None and (lo[0] > c or (lo[0] == c and lo[1])):
                return T.TRUE
            if hi is not None and hi[0] <= c:
                return T.FALSE
        return None

    def assume(self, st, c, val=True):
        if c.op == "not":
            return self.assume(st, c.args[0], not val)
        if c.op == "k":
            return
        if c.op == "and" and val:
            for u in c.args:
                self.assume(st, u, True)
        st.facts[c] = val
        if c.op == "eq" and val:
            x, y = c.args
            if T.is_const(x):
                st.facts[("eq", y)] = x
            elif T.is_const(y):
                st.facts[("eq", x)] = y
        if c.op == "lt":
            a, b = c.args
            if T.is_num(b):
                v = b.args[0]
                if val:
                    self._upd(st, ("hi", a), (v, True), False)
                else:
                    self._upd(st, ("lo", a), (v, False), True)
            elif T.is_num(a):
                v = a.args[0]
                if val:
                    self._upd(st, ("lo", b), (v, True), True)
                else:
                    self._upd(st, ("hi", b), (v, False), False)

    def _upd(self, st, key, new, is_lo):
        old = st.facts.get(key)
        if old is None or (new[0] > old[0] if is_lo else new[0] < old[0]) or (new[0] == old[0] and new[1]):
            st.facts[key] = new

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, OptV) or isinstance(b, OptV):
            ca, va = (a.c, a.v) if isinstance(a, OptV) else (T.TRUE, a)
            cb, vb = (b.c, b.v) if isinstance(b, OptV) else (T.TRUE, b)
            if va is UNBOUND or vb is UNBOUND:
                return PhiV(c, a, b)
            return OptV(T.ite(c, ca, cb), self.merge_val(c, va, vb))
        if isinstance(a, Term) and isinstance(b, Term):
            return T.ite(c, a, b)
        if isinstance(a, ArrV) and isinstance(b, ArrV) and a.shape == b.shape:
            return ArrV(a.shape, [T.ite(c, x, y) for x, y in zip(a.elems, b.elems)], a.roots | b.roots)
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items) and a.names == b.names:
            return TupV([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.names, a.tname)
        if isinstance(a, (Ref, ExtV)) and a == b:
            return a
        if isinstance(a, BoundV) and isinstance(b, BoundV) and a.func is b.func and a.self == b.self:
            return a
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return SliceV(*[self.merge_val(c, getattr(a, n), getattr(b, n)) for n in ("lo", "hi", "step")])
        return PhiV(c, a, b)

    def merge_rec(self, c, a, b):
        if a is b:
            return a
        if a is None or b is None:
            r = b if a is None else a
            return Rec("iter", (0, None, 0)) if r.kind == "iter" else r
        if a.kind != b.kind:
            return a
        k = a.kind
        if k == "iter":
            return a if a.data[1] == b.data[1] else Rec("iter", (0, None, 0))
        if k == "list":
            x, y = a.data, b.data
            if len(x) == len(y):
                return Rec(k, tuple(self.merge_val(c, p, q) for p, q in zip(x, y)), a.meta)
            n = 0
            while n < len(x) and n < len(y) and (x[n] is y[n] or (isinstance(x[n], Ref) and x[n] == y[n])):
                n += 1
            m = 0
            while m < len(x) - n and m < len(y) - n and (x[-1 - m] is y[-1 - m] or (isinstance(x[-1 - m], Ref) and x[-1 - m] == y[-1 - m])):
                m += 1
            items = list(x[:n])
            items += [opt(c, v) for v in x[n:len(x) - m]]
            items += [opt(T.lnot(c), v) for v in y[n:len(y) - m]]
            items += x[len(x) - m:]
            return Rec(k, tuple(items), a.meta)
        if k in ("inst", "env", "cls"):
            out = {}
            for n in list(a.data) + [m for m in b.data if m not in a.data]:
                out[n] = self.merge_val(c, a.data.get(n, UNBOUND), b.data.get(n, UNBOUND))
            return Rec(k, out, a.meta)
        if k in ("dict", "set"):
            out = {}
            for n in list(a.data) + [m for m in b.data if m not in a.data]:
                if n in a.data and n in b.data:
                    va, vb = a.data[n], b.data[n]
                    if k == "dict":
                        out[n] = (va[0], self.merge_val(c, va[1], vb[1]))
                    else:
                        out[n] = va
                elif n in a.data:
                    v = a.data[n]
                    out[n] = (v[0], OptV(c, v[1])) if k == "dict" else OptV(c, v)
                else:
                    v = b.data[n]
                    out[n] = (v[0], OptV(T.lnot(c), v[1])) if k == "dict" else OptV(T.lnot(c), v)
            return Rec(k, out, a.meta)
        if k == "arr":
            if a.data.shape == b.data.shape:
                return Rec(k, ArrV(a.data.shape, [T.ite(c, x, y) for x, y in zip(a.data.elems, b.data.elems)]), a.meta)
            return Rec("opq", mk("phi", c, self.embed(a.data), self.embed(b.data)), None)
        if k == "opq":
            return Rec(k, a.data if a.data is b.data else (self.merge_val(c, a.data, b.data) if isinstance(a.data, (Term, TupV)) and isinstance(b.data, (Term, TupV)) else a.data), a.meta if a.meta is b.meta else mk("phi", c, *(m if isinstance(m, Term) else mk("nometa") for m in (a.meta, b.meta))))
        return a

    def merge_state(self, c, s1, s2, base):
        """s1 under c, s2 under not c -> new state with base pc"""
        h1, h2 = s1.heap, s2.heap
        out = dict(h1)
        for oid, r2 in h2.items():
            r1 = h1.get(oid)
            if r1 is not r2:
                out[oid] = self.merge_rec(c, r1, r2)
        facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k, None) == v}
        return State(out, base.pc, facts, False)

    def suffix(self, pc, n):
        return T.land(*pc[n:])

    # ------------------------------------------------------------ branching
    def branch(self, cond, fthen, felse, value=True):
        """evaluate thunk fthen under cond and felse under not cond, join"""
        c = self.fold(cond)
        if c is T.TRUE:
            return fthen()
        if c is T.FALSE:
            return felse()
        base = self.st
        res = []
        for val, f in ((True, fthen), (False, felse)):
            s = base.fork()
            cc = c if val else T.lnot(c)
            s.pc = base.pc + (cc,)
            self.assume(s, c, val)
            self.st = s
            v = None
            try:
                v = f()
            except Abort:
                self.st.dead = True
            res.append((self.st, v))
        (s1, v1), (s2, v2) = res
        if s1.dead and s2.dead:
            self.st = s1
            raise Abort()
        if s1.dead:
            self.st = s2
            return v2
        if s2.dead:
            self.st = s1
            return v1
        self.st = self.merge_state(c, s1, s2, base)
        if value:
            return self.merge_val(c, v1, v2)
        return None

    def dist(self, v, f):
        """apply f to every alternative of a gated value"""
        if isinstance(v, PhiV):
            return self.branch(v.c, lambda: self.dist(v.a, f), lambda: self.dist(v.b, f))
        return f(v)

    def join_exits(self, exits, base):
        """merge list of Exit -> (state, value); guards are pc suffixes beyond base"""
        n = len(base.pc)
        st, val = exits[-1].st, exits[-1].val
        for e in reversed(exits[:-1]):
            c = self.suffix(e.pc, n)
            if c is T.TRUE:
                st, val = e.st, e.val
                continue
            self.st = e.st
            st = self.merge_state(c, e.st, st, base)
            self.st = st
            val = self.merge_val(c, e.val, val)
        st = State(st.heap, base.pc, {k: v for k, v in st.facts.items()}, False)
        if len(exits) == 1:
            st.pc = exits[0].pc
        return st, val

    # ------------------------------------------------------------ raising
    def make_exc(self, name, *args):
        return self.alloc("inst", {"args": TupV([const(a) if isinstance(a, str) else a for a in args])}, ExtV(name))

    def do_raise(self, exc):
        self.collectors[-1].append(Exit(self.st.pc, exc, self.st, self.loc, tuple(self.call_stack)))
        self.st.dead = True
        raise Abort()

    def raise_(self, name, msg=""):
        self.do_raise(self.make_exc(name, msg))

    def raise_if(self, cond, name, msg=""):
        def t():
            self.raise_(name, msg)
        self.branch(cond, t, lambda: None, value=False)

    def exc_class(self, exc):
        r = self.rec(exc)
        return r.meta

    def exc_matches(self, exc, handler):
        """-> True/False/None"""
        if isinstance(handler, TupV):
            rs = [self.exc_matches(exc, h) for h in handler.items]
            return True if True in rs else (None if None in rs else False)
        cls = self.exc_class(exc)
        names = []
        if isinstance(cls, ClassV):
            for b in cls.mro:
                if b is handler:
                    return True
                if isinstance(b, ExtV):
                    names.append(b.name)
        else:
            names.append(cls.name)
        if isinstance(handler, ExtV):
            for n in names:
                n = n.split("builtins.")[-1]
                if n == "?any":
                    if handler.name in ("Exception", "BaseException"):
                        return True
                    return None
                if exc_isa(n, handler.name.split("builtins.")[-1]):
                    return True
        return False

    # ------------------------------------------------------------ modules
    def mod_path(self, name):
        if name in self.overlay:
            return self.overlay[name]
        if name == "elli" or name.startswith("elli."):
            p = os.path.join(SRC, *name.split("."))
            if os.path.isdir(p):
                return os.path.join(p, "__init__.py")
            if os.path.isfile(p + ".py"):
                return p + ".py"
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.mod_path(name)
        if path is None:
            return None
        if isinstance(path, tuple):
            src, fname = path
        else:
            if not os.path.isfile(path):
                m = ModV(name, None)
                m.oid = self.alloc("env", {}, None).oid
                self.modules[name] = m
                return m
            with open(path, encoding="utf-8") as f:
                src = f.read()
            fname = os.path.relpath(path, REPO)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        if name in self.modules:
            return self.modules[name]
        tree = ast.parse(src)
        env = self.alloc("env", {"__name__": const(name), "__file__": const(os.path.join(REPO, fname)), "__doc__": const(ast.get_docstring(tree, clean=False)), "__package__": const(name)}, None)
        m = ModV(name, env.oid, fname)
        m.tree = tree
        m.is_pkg = fname.endswith("__init__.py")
        self.modules[name] = m
        fr = Frame(None, env.oid, len(self.st.pc))
        fr.module = m
        saved = self.loc
        self.frames.append(fr)
        self.call_stack.append((fname, "<module>", 0))
        try:
            self.exec_block(tree.body)
        finally:
            self.frames.pop()
            self.call_stack.pop()
            self.loc = saved
        if "." in name:
            par, child = name.rsplit(".", 1)
            pm = self.modules.get(par)
            if pm is not None:
                r = self.st.heap[pm.oid]
                d = dict(r.data)
                d.setdefault(child, m)
                self.st.heap[pm.oid] = Rec("env", d, r.meta)
        return m

    def import_mod(self, name):
        m = self.load(name)
        return m if m is not None else ExtV(name)

    # ------------------------------------------------------------ env
    @property
    def frame(self):
        return self.frames[-1]

    def lookup(self, name):
        env = self.frame.env
        while env is not None:
            r = self.st.heap[env]
            if name in r.data:
                v = r.data[name]
                return self.check_bound(v, name)
            env = r.meta
        if name in self.builtins:
            return self.builtins[name]
        self.raise_("NameError", name)

    def check_bound(self, v, name):
        if v is UNBOUND:
            self.raise_("UnboundLocalError", name)
        if isinstance(v, PhiV) and (v.a is UNBOUND or v.b is UNBOUND):
            def bad():
                self.unbound_reads.append((self.loc, name))
                self.raise_("UnboundLocalError", name)
            return self.branch(v.c,
                               lambda: bad() if v.a is UNBOUND else self.check_bound(v.a, name),
                               lambda: bad() if v.b is UNBOUND else self.check_bound(v.b, name))
        return v

    def assign_name(self, name, val):
        fr = self.frame
        env = fr.env
        if name in fr.globals:
            env = self.module_env(env)
        elif name in fr.nonlocals:
            e = self.st.heap[env].meta
            while e is not None and name not in self.st.heap[e].data:
                e = self.st.heap[e].meta
            env = e if e is not None else env
        r = self.st.heap[env]
        d = dict(r.data)
        d[name] = val
        if env != fr.env or fr.func is None:
            self.effects.append(Effect("global", env, name, val, self.loc, self.st.pc, tuple(self.call_stack), r))
        self.st.heap[env] = Rec("env", d, r.meta)

    def module_env(self, env):
        while self.st.heap[env].meta is not None:
            env = self.st.heap[env].meta
        return env

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st.dead:
                return
            self.exec_stmt(s)

    deadline = None

    def exec_stmt(self, s):
        fr = self.frame
        if self.deadline is not None and time.time() > self.deadline:
            raise Undecided("time budget of this obligation group exhausted")
        fname = fr.module.path
        self.loc = (fname, fr.func.qual if fr.func is not None else "<module>", getattr(s, "lineno", 0))
        T.CURRENT_LOC[0] = self.loc
        self.stmts_done.add((fname, getattr(s, "lineno", 0)))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided("statement %s at %s" % (type(s).__name__, self.where()))
        try:
            m(s)
        except Abort:
            self.st.dead = True

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.ev(s.value)
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))
            if self.frame.func is None and isinstance(s.target, ast.Name):
                pass
        if isinstance(s.target, ast.Name) and getattr(self.frame, "is_class", False):
            self.frame.annotations.append((s.target.id, s.value is not None))

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            new = self.aug(op, old, self.ev(s.value))
            self.assign_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            new = self.aug(op, old, self.ev(s.value))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            old = self.subscript(o, k)
            new = self.aug(op, old, self.ev(s.value))
            self.setitem(o, k, new)

    def aug(self, op, old, v):
        if isinstance(old, PhiV):
            return self.dist(old, lambda o: self.aug(op, o, v))
        if isinstance(old, Ref):
            r = self.rec(old)
            if r.kind == "list" and op == "Add":
                items = self.iterate(v)
                self.setrec(old, r.data + tuple(items), "+=", v)
                return old
            if r.kind == "arr":
                new = self.binop(op, old, v)
                new = self.deref(new)
                if isinstance(new, Term):
                    new = A.scalar(new)
                try:
                    new = A.broadcast_to(new, r.data.shape)
                except ShapeError as e:
                    if A.shaky(new, r.data):
                        raise Undecided("shape of the operands: " + str(e))
                    self.raise_("ValueError", str(e))
                new = self.models.NP.cast_for(self, r, new)
                self.setrec(old, ArrV(new.shape, new.elems), "inplace %s=" % op, new)
                return old
            if r.kind == "set" and op in ("BitOr",):
                pass
            if r.kind == "inst":
                nm = "__i%s__" % DUNDER[op][2:-2]
                f = self.class_attr(r.meta, nm) if isinstance(r.meta, ClassV) else None
                if f is not None:
                    return self.call(BoundV(f, old), [v], {})
        return self.binop(op, old, v)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else T.NONE
        self.frame.returns.append(Exit(self.st.pc, v, self.st, self.loc))
        raise Abort()

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        loc = self.loc

        def t():
            self.exec_block(s.body)
            if self.st.dead:
                raise Abort()

        def f():
            self.loc = loc
            self.exec_block(s.orelse)
            if self.st.dead:
                raise Abort()
        self.branch(c, t, f, value=False)

    def s_Match(self, s):
        loc = self.loc

        def case(v, cases):
            if isinstance(v, PhiV):
                return self.branch(v.c, lambda: case(v.a, cases), lambda: case(v.b, cases), value=False)
            if not cases:
                return
            m, rest = cases[0], cases[1:]
            binds = []
            c = self.pattern(m.pattern, v, binds)

            def other():
                self.loc = loc
                case(v, rest)
                if self.st.dead:
                    raise Abort()

            def body():
                self.exec_block(m.body)
                if self.st.dead:
                    raise Abort()

            def yes():
                for n, x in binds:
                    self.assign_name(n, x)
                if m.guard is None:
                    body()
                else:
                    self.branch(self.truth(self.ev(m.guard)), body, other, value=False)
            self.branch(c, yes, other, value=False)
        case(self.ev(s.subject), s.cases)

    def pattern(self, p, v, binds):
        """condition under which a value matches a pattern; the names it binds are appended"""
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.ev(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("Is", v, const(p.value)))
        if isinstance(p, ast.MatchAs):
            c = T.TRUE if p.pattern is None else self.pattern(p.pattern, v, binds)
            if p.name is not None:
                binds.append((p.name, v))
            return c
        if isinstance(p, ast.MatchOr):
            cs = []
            for q in p.patterns:
                b = []
                cs.append(self.pattern(q, v, b))
                if b:
                    if cs[-1] is T.TRUE:
                        binds.extend(b)
                        return T.TRUE
                    if cs[-1] is not T.FALSE:
                        raise Undecided("alternative patterns that bind names")
                elif cs[-1] is T.TRUE:
                    return T.TRUE
            return T.lor(*cs)
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls)
            c = self.truth(self.call(ExtV("isinstance"), [v, cls], {}))
            if c is T.FALSE or not p.patterns and not p.kwd_patterns:
                return c
            subs = []
            if p.patterns:
                if isinstance(cls, ExtV) and cls.name in ("int", "float", "str", "bool", "bytes", "list", "tuple", "dict", "set", "frozenset", "complex") and len(p.patterns) == 1:
                    subs.append((p.patterns[0], lambda: v))
                else:
                    names = self.class_attr(cls, "__match_args__") if isinstance(cls, ClassV) else None
                    names = self.iterate(names) if names is not None else None
                    if names is None and isinstance(cls, ClassV) and cls.flags.get("dataclass"):
                        from . import models_call as MC
                        names = [const(n) for n in MC.dc_fields(self, cls)]
                    if names is None or len(names) < len(p.patterns):
                        raise Undecided("positional class pattern")
                    subs += [(q, (lambda n=n: self.getattr(v, T.cval(n)))) for q, n in zip(p.patterns, names)]
            subs += [(q, (lambda n=n: self.getattr(v, n))) for q, n in zip(p.kwd_patterns, p.kwd_attrs)]
            if c is not T.TRUE:
                raise Undecided("class pattern of a value of unknown class")
            cs = []
            for q, get in subs:
                cs.append(self.pattern(q, get(), binds))
                if cs[-1] is T.FALSE:
                    return T.FALSE
            return T.land(*cs)
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, TupV):
                items = list(v.items)
            elif isinstance(v, Ref) and self.rec(v).kind == "list":
                items = list(self.rec(v).data)
            elif isinstance(v, ArrV) or isinstance(v, Ref) and self.rec(v).kind in ("arr", "dict", "set", "frozenset"):
                return T.FALSE
            elif isinstance(v, Term) and (v is T.NONE or v.op in ("n", "k", "I") or self.models.MO.is_numeric(v) or self.models.MO.is_str(v)):
                return T.FALSE
            else:
                raise Undecided("sequence pattern")
            if any(isinstance(x, (OptV, RepV)) for x in items):
                raise Undecided("sequence pattern over a sequence of unknown length")
            star = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
            n = len(p.patterns)
            if star is None and len(items) != n or star is not None and len(items) < n - 1:
                return T.FALSE
            pairs = list(zip(p.patterns, items))
            if star is not None:
                tail = n - star - 1
                pairs = list(zip(p.patterns[:star], items[:star])) + list(zip(p.patterns[star + 1:], items[len(items) - tail:]))
                if p.patterns[star].name is not None:
                    binds.append((p.patterns[star].name, self.new_list(items[star:len(items) - tail])))
            cs = []
            for q, x in pairs:
                if isinstance(x, PhiV) and not isinstance(q, ast.MatchAs):
                    raise Undecided("pattern over a conditional item")
                cs.append(self.pattern(q, x, binds))
                if cs[-1] is T.FALSE:
                    return T.FALSE
            return T.land(*cs)
        if isinstance(p, ast.MatchMapping):
            if not (isinstance(v, Ref) and self.rec(v).kind == "dict"):
                if isinstance(v, (TupV, ArrV)) or isinstance(v, Ref) and self.rec(v).kind in ("list", "arr", "set", "frozenset") or isinstance(v, Term) and (v is T.NONE or v.op in ("n", "k", "I")):
                    return T.FALSE
                raise Undecided("mapping pattern")
            d = self.rec(v).data
            keys = [self.hkey(self.ev(k)) for k in p.keys]
            if any(k in d and isinstance(d[k][1], (OptV, RepV, PhiV)) for k in keys) or not all(self.known_key(k) for k in list(d) + keys):
                raise Undecided("mapping pattern over unknown keys")
            if any(k not in d for k in keys):
                return T.FALSE
            cs = [self.pattern(q, d[k][1], binds) for q, k in zip(p.patterns, keys)]
            if p.rest is not None:
                binds.append((p.rest, self.new_dict([kv for k, kv in d.items() if k not in keys])))
            return T.land(*cs)
        raise Undecided("pattern %s" % type(p).__name__)

    def s_Raise(self, s):
        if s.exc is None:
            e = getattr(self.frame, "cur_exc", None)
            if e is None:
                e = self.make_exc("RuntimeError", "no active exception")
            self.do_raise(e)
        v = self.ev(s.exc)
        if s.cause is not None:
            self.ev(s.cause)
        v = self.dist(v, lambda x: x)
        if isinstance(v, (ClassV, ExtV)):
            v = self.call(v, [], {})
        if not isinstance(v, Ref):
            v = self.make_exc("?any")
        self.do_raise(v)

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.raise_if(T.lnot(c), "AssertionError", "")

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.assign_name(t.id, UNBOUND)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                r = self.rec(o) if isinstance(o, Ref) else None
                if r is not None and r.kind == "inst":
                    d = dict(r.data)
                    d.pop(t.attr, None)
                    self.setrec(o, d, "del " + t.attr)
                else:
                    self.opaque_effect("delattr", o)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev_index(t.slice))

    def s_Global(self, s):
        self.frame.globals.update(s.names)

    def s_Nonlocal(self, s):
        self.frame.nonlocals.update(s.names)

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.assign_name(a.asname, self.import_mod(a.name))
            else:
                m = self.import_mod(a.name)
                top = a.name.split(".")[0]
                self.assign_name(top, self.import_mod(top))

    def s_ImportFrom(self, s):
        cur = self.frame.module
        if s.level:
            pk = cur.name if getattr(cur, "is_pkg", False) else cur.name.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                pk = pk.rsplit(".", 1)[0]
            base = pk + ("." + s.module if s.module else "")
        else:
            base = s.module
        m = self.import_mod(base)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, ModV):
                    d = self.st.heap[m.oid].data
                    if "__all__" in d:
                        names = [T.cval(x) for x in self.iterate(d["__all__"])]
                    else:
                        names = [n for n in d if not n.startswith("_")]
                    for n in names:
                        if n in d:
                            self.assign_name(n, d[n])
                continue
            if isinstance(m, ModV):
                d = self.st.heap[m.oid].data
                if a.name in d:
                    v = d[a.name]
                else:
                    v = self.load(base + "." + a.name)
                    if v is None and m.path is not None and not m.path.startswith("src") and m.name != "vf":
                        v = ExtV(base + "." + a.name)       # library models are partial
                    if v is None:
                        self.raise_("ImportError", "%s from %s" % (a.name, base))
            else:
                v = self.models.ext_member(self, m.name, a.name)
            self.assign_name(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, f)
        self.assign_name(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, s, name):
        fr = self.frame
        defaults = [self.ev(d) for d in s.args.defaults]
        kwd = [self.ev(d) if d is not None else UNBOUND for d in s.args.kw_defaults]
        if getattr(fr, "is_class", False):
            qual = fr.qual + "." + name
            env = self.st.heap[fr.env].meta
        else:
            qual = (fr.func.qual + "." if fr.func is not None else "") + name
            env = fr.env
        return FuncV(s, env, fr.module, defaults, kwd, name, qual, getattr(fr, "cls_cell", None) or (fr.func.cls if fr.func is not None else None))

    def decorate(self, d, v, f):
        name = ast.unparse(d.func) if isinstance(d, ast.Call) else ast.unparse(d)
        base = name.split(".")[-1]
        if name == "property" or base == "cached_property":
            return PropV(v, cached=base == "cached_property")
        if name == "staticmethod":
            return StaticV(v)
        if name == "classmethod":
            return ClassMethV(v)
        if base in ("abstractmethod", "wraps", "overload", "lru_cache", "cache", "singledispatch"):
            if base in ("lru_cache", "cache") and isinstance(v, FuncV):
                v.attrs["$memo"] = self.alloc("dict", {}, None).oid
            return v
        if base in ("setter", "getter", "deleter") and isinstance(d, ast.Attribute):
            p = self.ev(d.value)
            if isinstance(p, PropV):
                if base == "setter":
                    return PropV(p.fget, v, p.fdel)
                if base == "deleter":
                    return PropV(p.fget, p.fset, v)
                return PropV(v, p.fset, p.fdel)
        dv = self.ev(d)
        if isinstance(dv, (FuncV, PyFn, BoundV, PartialV)):
            return self.call(dv, [v], {})
        if isinstance(dv, ExtV):
            r = self.models.ext_decorator(self, dv.name, v)
            return r
        return v

    def s_ClassDef(self, s):
        fr = self.frame
        bases = []
        for b in s.bases:
            v = self.ev(b)
            if isinstance(v, (ClassV, ExtV)):
                bases.append(v)
            else:
                bases.append(ExtV("opaque.base"))
        for k in s.keywords:
            self.ev(k.value)
        env = self.alloc("env", {}, fr.env)
        cf = Frame(fr.func, env.oid, len(self.st.pc))
        cf.module = fr.module
        cf.is_class = True
        cf.annotations = []
        cf.qual = (fr.qual + "." if getattr(fr, "is_class", False) else (fr.func.qual + "." if fr.func is not None else "")) + s.name
        cf.cls_cell = [None]
        self.frames.append(cf)
        saved = self.loc
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
            self.loc = saved
        if not bases:
            bases = [ExtV("object")]
        attrs = dict(self.st.heap[env.oid].data)
        ref = self.alloc("cls", attrs)
        c = ClassV(s.name, bases, ref.oid, fr.module, s)
        doc = ast.get_docstring(s, clean=False)
        c.doc = doc
        c.annotations = cf.annotations
        cf.cls_cell[0] = c
        deco = []
        for d in s.decorator_list:
            nm = ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
            if nm == "dataclass":
                c.flags["dataclass"] = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        c.flags["dc_" + k.arg] = self.ev(k.value)
            else:
                dv = self.ev(d)
                if isinstance(dv, (FuncV, PyFn, BoundV, PartialV)):
                    deco.append(dv)
                c.flags.setdefault("decorators", []).append(ast.unparse(d))
        self.assign_name(s.name, c)
        for k, v in attrs.items():
            f = self.descriptor(v, "__set_name__")
            if f is not None:
                self.call(BoundV(f, v), [c, const(k)], {})
        for b in bases:
            if isinstance(b, ClassV):
                f = self.class_attr(b, "__init_subclass__")
                if f is not None:
                    ff = f.f if isinstance(f, ClassMethV) else f
                    self.call(BoundV(ff, c), [], {})
                    break
        for dv in reversed(deco):
            self.assign_name(s.name, self.call(dv, [c], {}))

    def s_With(self, s):
        self._with(s, 0)

    def _with(self, s, i):
        if i == len(s.items):
            self.exec_block(s.body)
            if self.st.dead:
                raise Abort()
            return
        it = s.items[i]
        cm = self.ev(it.context_expr)
        v = self.models.enter(self, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        fr = self.frame
        # exits inside leave through __exit__
        coll = []
        self.collectors.append(coll)
        nret = len(fr.returns)
        marks = [(len(l.breaks), len(l.conts)) for l in fr.loops]
        try:
            try:
                self._with(s, i + 1)
            except Abort:
                self.st.dead = True
        finally:
            self.collectors.pop()
        cur = self.st

        def at(e):
            self.st = e.st
            e.st.dead = False
            self.models.exit_cm(self, cm)
            e.st = self.st
        for e in fr.returns[nret:]:
            at(e)
        for l, (b, c) in zip(fr.loops, marks):
            for e in l.breaks[b:] + l.conts[c:]:
                at(e)
        for e in coll:
            at(e)
            e.st.dead = True
            self.collectors[-1].append(e)
        self.st = cur
        if not cur.dead:
            self.models.exit_cm(self, cm)
        else:
            raise Abort()

    def s_Try(self, s):
        fr = self.frame
        base = self.st
        base_copy = State(dict(base.heap), base.pc, dict(base.facts))
        coll = []
        nret = len(fr.returns)
        marks = [(len(l.breaks), len(l.conts)) for l in fr.loops]
        self.collectors.append(coll)
        n_opaque = len(self.effects)
        try:
            self.may_raise_stack.append(False)
            try:
                self.exec_block(s.body)
            except Abort:
                self.st.dead = True
            mayraise = self.may_raise_stack.pop()
        finally:
            self.collectors.pop()
        ends = []
        body_end = self.st
        if body_end.dead:
            # an exit may hold this very state, which its handler brings back to life
            body_end = State(dict(body_end.heap), body_end.pc, dict(body_end.facts))
            body_end.dead = True
        handled = []
        outer = []
        coll2 = []
        self.collectors.append(coll2)
        exits = list(coll)
        if mayraise and s.handlers:
            # an unmodelled call in the body may raise: enter handlers from the try start
            g = T.sym(self.fresh("raises@%s:%d" % (self.loc[0], s.lineno)), "bool")
            T.RAISES[g] = T.FALSE
            st = State(dict(base_copy.heap), base_copy.pc + (g,), dict(base_copy.facts))
            self.st = st
            exits.append(Exit(st.pc, self.alloc("inst", {"args": TupV([])}, ExtV("?any")), self.st, self.loc))
        for e in exits:
            self.st = e.st
            self.st.dead = False
            done = False
            for h in s.handlers:
                if h.type is None:
                    m = True
                else:
                    m = self.exc_matches(e.val, self.ev(h.type))
                if m is False:
                    continue
                if h.name:
                    self.assign_name(h.name, e.val)
                fr.cur_exc = e.val
                hst = self.st
                hpc = e.pc
                if m is None and self.exc_class(e.val).name == "?any":
                    pass
                self.exec_block(h.body)
                fr.cur_exc = None
                if not self.st.dead:
                    handled.append(Exit(e.pc, T.NONE, self.st))
                done = True
                break
            if not done:
                if isinstance(self.exc_class(e.val), ExtV) and self.exc_class(e.val).name == "?any":
                    continue
                outer.append(e)
        self.collectors.pop()
        outer += coll2
        # else clause
        self.st = body_end
        if not body_end.dead and s.orelse:
            coll3 = []
            self.collectors.append(coll3)
            self.exec_block(s.orelse)
            self.collectors.pop()
            outer += coll3
            body_end = self.st
        ends = handled + ([Exit(body_end.pc, T.NONE, body_end)] if not body_end.dead else [])

        def run_final(st):
            self.st = st
            was = st.dead
            st.dead = False
            self.exec_block(s.finalbody)
            if not self.st.dead:
                self.st.dead = was
            return self.st
        if s.finalbody:
            for e in fr.returns[nret:]:
                e.st = run_final(e.st)
            for l, (b, c) in zip(fr.loops, marks):
                for e in l.breaks[b:] + l.conts[c:]:
                    e.st = run_final(e.st)
            for e in outer:
                e.st = run_final(e.st)
            for e in ends:
                e.st = run_final(e.st)
        for e in outer:
            e.st.dead = True
            self.collectors[-1].append(e)
        ends = [e for e in ends if not e.st.dead]
        if not ends:
            self.st = body_end if body_end.dead else base_copy
            self.st.dead = True
            raise Abort()
        st, _ = self.join_exits(ends, base_copy)
        if len(ends) == 1:
            pass
        self.st = st

    may_raise_stack = [False]

    def note_may_raise(self):
        if self.may_raise_stack:
            self.may_raise_stack[-1] = True

    def s_For(self, s):
        it = self.ev(s.iter)
        self.for_loop(it, s)

    def for_loop(self, it, s):
        if isinstance(it, PhiV):
            def run(x):
                def f():
                    self.for_loop(x, s)
                    if self.st.dead:
                        raise Abort()
                return f
            return self.branch(it.c, run(it.a), run(it.b), value=False)
        self.tick()
        first = self.iter_pos(it) if isinstance(it, IterV) else 0
        endless = isinstance(it, IterV) and it.endless
        items = it.items[first:][:self.UNROLL] if endless else self.iterate(it, allow_unknown=True)
        if items is None:
            return self.unknown_loop(it, s)
        fr = self.frame
        base = self.st
        base0 = State(base.heap, base.pc, base.facts)
        breaks = []
        if len(items) > self.UNROLL:
            raise Undecided("loop too long at %s" % self.where())
        sure = True
        for nth, item in enumerate(items):
            sure = sure and not breaks and not isinstance(item, OptV)
            if isinstance(item, OptV):
                def body(item=item):
                    self.loop_iter(s, item.v, breaks)
                    if self.st.dead:
                        raise Abort()
                try:
                    self.branch(item.c, body, lambda: None, value=False)
                except Abort:
                    self.st.dead = True
            else:
                self.loop_iter(s, item, breaks)
            if self.st.dead:
                break
        if endless and not self.st.dead:
            raise Undecided("loop over an endless iterator at %s" % self.where())
        if isinstance(it, IterV) and breaks:
            for st in {id(e.st): e.st for e in breaks}.values():
                if it.oid in st.heap:
                    st.heap[it.oid] = Rec("iter", (first, first + nth + 1 if sure else None, 0))
        if not self.st.dead and s.orelse:
            self.exec_block(s.orelse)
        if breaks:
            ends = breaks + ([Exit(self.st.pc, T.NONE, self.st)] if not self.st.dead else [])
            for e in ends:
                e.st.dead = False
            self.st, _ = self.join_exits(ends, base0)
        if self.st.dead:
            raise Abort()

    def loop_iter(self, s, item, breaks):
        fr = self.frame
        ctx = LoopCtx()
        fr.loops.append(ctx)
        base = State(self.st.heap, self.st.pc, self.st.facts)
        try:
            if s is not None and hasattr(s, "target"):
                self.assign(s.target, item)
            try:
                self.exec_block(s.body)
            except Abort:
                self.st.dead = True
        finally:
            fr.loops.pop()
        breaks.extend(ctx.breaks)
        if ctx.conts:
            ends = ctx.conts + ([Exit(self.st.pc, T.NONE, self.st)] if not self.st.dead else [])
            for e in ends:
                e.st.dead = False
            self.st, _ = self.join_exits(ends, base)

    def s_Break(self, s):
        self.frame.loops[-1].breaks.append(Exit(self.st.pc, T.NONE, self.st))
        raise Abort()

    def s_Continue(self, s):
        self.frame.loops[-1].conts.append(Exit(self.st.pc, T.NONE, self.st))
        raise Abort()

    def s_While(self, s):
        base0 = State(self.st.heap, self.st.pc, self.st.facts)
        breaks = []
        exits = []
        for k in range(200):
            c = self.fold(self.truth(self.ev(s.test)))
            if c is T.FALSE:
                break
            if c is not T.TRUE:
                # unknown trip count: havoc
                self.unknown_loop(None, s)
                break
            self.loop_iter(s, None, breaks)
            if self.st.dead:
                break
        else:
            raise Undecided("while loop does not terminate within bound at %s" % self.where())
        if breaks:
            ends = breaks + ([Exit(self.st.pc, T.NONE, self.st)] if not self.st.dead else [])
            for e in ends:
                e.st.dead = False
            self.st, _ = self.join_exits(ends, base0)
        if self.st.dead:
            raise Abort()

    def unknown_loop(self, it, s):
        """loop with unknown trip count: generic iteration, assigned names havocked"""
        self.havocs += 1
        fr = self.frame
        assigned = set()
        for st in s.body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    assigned.add(n.id)
        if hasattr(s, "target"):
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    assigned.add(n.id)
        where = "%s:%d" % (self.loc[0], s.lineno)
        itt = self.embed(it) if it is not None else mk("while", where)
        env = self.st.heap[fr.env].data
        pre = {}
        for n in assigned:
            if n in env and isinstance(env[n], Term):
                pre[n] = env[n]
                self.assign_name(n, mk("loopvar", where, n, itt))
        base = self.st
        g = mk("fn", "truth", mk("loopruns", where, itt))
        breaks = []

        def body():
            item = self.models.elem_of(self, it) if it is not None else None
            self.loop_iter(s, item, breaks)
            if self.st.dead:
                raise Abort()
        if it is None and hasattr(s, "test"):
            self.fold(self.truth(self.ev(s.test)))
        saved = (self.st.pc, self.st)
        oldheap = dict(self.st.heap)
        first_new = self.next_oid
        try:
            self.branch(g, body, lambda: None, value=False)
        except Abort:
            if not breaks:
                raise
        if breaks:
            ends = breaks + ([Exit(self.st.pc, T.NONE, self.st)] if not self.st.dead else [])
            for e in ends:
                e.st.dead = False
            b0 = State(saved[1].heap, saved[0], saved[1].facts)
            self.st, _ = self.join_exits(ends, b0)
        # lists grown in the loop get an unknown number of generic items
        for oid, r in list(self.st.heap.items()):
            o = oldheap.get(oid)
            if o is not None and o is not r and r.kind == "list":
                items = []
                for k, x in enumerate(r.data):
                    if k >= len(o.data):
                        x = RepV(x.v if isinstance(x, OptV) else x, itt)
                    items.append(x)
                self.st.heap[oid] = Rec("list", tuple(items), r.meta)
            elif o is not None and o is not r and r.kind == "inst" and isinstance(r.data, dict):
                d = {}
                for n, x in r.data.items():
                    y = o.data.get(n)
                    if y is not x and not isinstance(x, Ref):
                        x = self.loop_out(where, n, itt, x, y)
                    d[n] = x
                self.st.heap[oid] = Rec(r.kind, d, r.meta)
        e = self.st.heap[fr.env]
        d = dict(e.data)
        for n in assigned:
            if n in d and isinstance(d[n], (Term, ArrV)):
                d[n] = mk("loopout", where, n, itt, self.embed(d[n]), pre.get(n, T.NONE))
            elif n in d and isinstance(d[n], (TupV, PhiV)) and d[n] is not env.get(n):
                d[n] = self.loop_out(where, n, itt, d[n], env.get(n))
        self.st.heap[fr.env] = Rec("env", d, e.meta)

    def loop_out(self, where, n, itt, x, y):
        """value of a name or attribute after a loop of unknown length, x after one generic pass and y before"""
        if isinstance(x, PhiV):
            return PhiV(x.c, self.loop_out(where, n, itt, x.a, y), self.loop_out(where, n, itt, x.b, y))
        if x is y or isinstance(x, Ref):
            return x
        if isinstance(x, TupV) and isinstance(y, TupV) and len(x.items) > len(y.items):
            return TupV(list(x.items[:len(y.items)]) + [RepV(i.v if isinstance(i, OptV) else i, itt) for i in x.items[len(y.items):]], x.names, x.tname)
        if isinstance(x, TupV) and isinstance(y, TupV) and len(x.items) == len(y.items) and all(a is b for a, b in zip(x.items, y.items)):
            return x
        if isinstance(x, (Term, ArrV, TupV)):
            return mk("loopout", where, n, itt, self.embed(x), T.NONE if y is None else self.embed(y))
        return x

    # ------------------------------------------------------------ assignment
    def assign(self, t, v):
        if isinstance(v, ArrV) and v.meta is None and not v.roots and not isinstance(t, ast.Subscript):
            v = self.new_arr(v)
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if isinstance(v, PhiV):
                # distribute: unpack each alternative then merge per target
                vals = self.dist(v, lambda x: TupV(self.unpack(x, n, stars)))
                vals = vals.items if isinstance(vals, TupV) else [self.subscript(vals, num(i)) for i in range(n)]
            else:
                vals = self.unpack(v, n, stars)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            self.setitem(o, k, v, node=t.value)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Undecided("assignment target %s" % type(t).__name__)

    def unpack(self, v, n, stars):
        items = self.iterate(v, allow_unknown=True)
        if items is None:
            e = self.embed(v)
            return [self.models.item_of(self, v, i) for i in range(n)]
        if any(isinstance(i, (OptV, RepV)) for i in items):
            return [self.models.item_of(self, v, i) for i in range(n)]
        if not stars:
            if len(items) != n:
                self.raise_("ValueError", "unpack: expected %d, got %d" % (n, len(items)))
            return items
        k = stars[0]
        rest = n - 1 - k
        if len(items) < n - 1:
            self.raise_("ValueError", "not enough values to unpack")
        return list(items[:k]) + [self.new_list(items[k:len(items) - rest])] + list(items[len(items) - rest:])

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression %s at %s" % (type(e).__name__, self.where()))
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return self.float_const(v, e)
        if isinstance(v, complex):
            return T.mul(self.float_const(v.imag, None), T.I)
        if v is Ellipsis:
            return mk("k", Ellipsis)
        return const(v)

    def float_const(self, v, e):
        if v != v or v in (float("inf"), float("-inf")):
            return num(v)
        return mk("n", Fraction(repr(v)), "float")

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return TupV(self.ev_items(e.elts))

    def e_List(self, e):
        return self.new_list(self.ev_items(e.elts))

    def e_Set(self, e):
        items = self.ev_items(e.elts)
        return self.alloc("set", {self.hkey(x): x for x in items})

    def ev_items(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                it = self.iterate(v, allow_unknown=True)
                if it is None:
                    out.append(RepV(self.models.elem_of(self, v), self.embed(v)))
                else:
                    out.extend(it)
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        ref = self.alloc("dict", {})
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v)
                self.models.dict_update(self, ref, src)
            else:
                kv = self.ev(k)
                vv = self.ev(v)
                r = self.rec(ref)
                d = dict(r.data)
                d[self.hkey(kv)] = (kv, vv)
                self.st.heap[ref.oid] = Rec("dict", d, r.meta)
        return ref

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                spec = self.ev(v.format_spec) if v.format_spec is not None else None
                parts.append(self.fmt_piece(x, spec, v.conversion))
        return self.models.concat_str(self, parts)

    def fmt_piece(self, x, spec, conversion):
        """what one replacement field of a format string contributes: a Python string when it is known"""
        if isinstance(x, Term) and x.op == "k" and isinstance(x.args[0], str) and spec is None and conversion in (-1, 115):
            return x.args[0]
        if isinstance(x, Term) and x.op == "n" and x.args[1] == "int" and spec is None and conversion == -1:
            return str(T.cval(x))
        from .models_call import pyval
        try:
            y = pyval(self, x)
            if conversion == 114:
                y = repr(y)
            return format(y, "" if spec is None else T.cval(spec))
        except (ValueError, TypeError, AttributeError):
            if spec is None and isinstance(x, Ref):
                from .models_call import to_str, to_repr
                y = to_repr(self, x) if conversion == 114 else to_str(self, x)
                return y.args[0] if isinstance(y, Term) and y.op == "k" else y
            return mk("fmt", self.embed(x), spec if isinstance(spec, Term) else T.NONE)

    def e_FormattedValue(self, e):
        return mk("fmt", self.embed(self.ev(e.value)), T.NONE)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return T.lnot(self.truth(v))
        return self.unary(type(e.op).__name__, v)

    def unary(self, op, v):
        if isinstance(v, PhiV):
            return self.dist(v, lambda x: self.unary(op, x))
        if isinstance(v, Ref) and self.rec(v).kind == "inst":
            f = self.class_attr(self.rec(v).meta, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if f is not None:
                return self.call(BoundV(f, v), [], {})
        v = self.num_operand(v)
        if op == "USub":
            f = T.neg
        elif op == "UAdd":
            f = lambda x: x
        else:
            f = lambda x: T.lnot(x) if T.isbool(x) else mk("fn", "invert", x)
        if isinstance(v, ArrV):
            return v.map(f)
        return f(v)

    def num_operand(self, v):
        v = self.deref(v)
        if isinstance(v, (Term, ArrV)):
            return v
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == "opq":
                return self.models.opq_operand(self, v)
            if r.kind == "inst":
                from . import models_call as MC
                if MC.wrapper(self, v):
                    return self.deref(MC.unwrap(self, v))
        return self.embed(v)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, PhiV):
            return self.dist(a, lambda x: self.binop(op, x, b))
        if isinstance(b, PhiV):
            return self.dist(b, lambda x: self.binop(op, a, x))
        r = self.models.binop_special(self, op, a, b)
        if r is not None:
            return r
        x, y = self.num_operand(a), self.num_operand(b)
        if op == "MatMult":
            try:
                return A.matmul(x if isinstance(x, ArrV) else A.scalar(x), y if isinstance(y, ArrV) else A.scalar(y)) if (
                    isinstance(x, ArrV) and isinstance(y, ArrV)) else mk("ext", "matmul", self.embed(x), self.embed(y))
            except ShapeError as err:
                if A.shaky(x, y):
                    return mk("ext", "matmul", self.embed(x), self.embed(y))
                self.raise_("ValueError", str(err))
            except Unsupported:
                return mk("ext", "matmul", self.embed(x), self.embed(y))
        f = BIN.get(op)
        if f is None:
            f = lambda p, q: mk("fn", op, p, q)
        return self.lift(f, x, y)

    def lift(self, f, *vs):
        """apply scalar function elementwise with broadcasting"""
        if not any(isinstance(v, ArrV) for v in vs):
            return f(*vs)
        arrs = [v if isinstance(v, ArrV) else A.scalar(v) for v in vs]
        try:
            r = A.elementwise(f, *arrs)
        except ShapeError as err:
            if A.shaky(*vs):
                raise Undecided("shape of the operands: " + str(err))
            self.raise_("ValueError", str(err))
        # operations on arrays without dimensions give numbers
        return r.elems[0] if isinstance(r, ArrV) and r.shape == () else r

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(i + 1), lambda: v)
            return self.branch(c, lambda: v, lambda: go(i + 1))
        return go(0)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            v = self.compare(type(op).__name__, left, right)
            res = v if res is None else self.and_(res, v)
            left = right
        return res

    def and_(self, a, b):
        if isinstance(a, Term) and isinstance(b, Term):
            return T.land(self.truth(a), self.truth(b))
        return T.land(self.truth(a), self.truth(b))

    def compare(self, op, a, b):
        if isinstance(a, PhiV):
            return self.dist(a, lambda x: self.compare(op, x, b))
        if isinstance(b, PhiV):
            return self.dist(b, lambda x: self.compare(op, a, x))
        if op in ("Is", "IsNot"):
            r = self.models.is_(self, a, b)
            return r if op == "Is" else T.lnot(r)
        if op in ("In", "NotIn"):
            r = self.models.contains(self, a, b)
            return r if op == "In" else T.lnot(r)
        if op in ("Eq", "NotEq"):
            if op == "NotEq":
                for x, y in ((a, b), (b, a)):
                    c = self.models.inst_cls(self, x)
                    if c is not None and self.class_attr(c, "__ne__") is not None:
                        r = self.call(self.getattr(x, "__ne__"), [y], {})
                        if r is not self.models.NOTIMPL:
                            return r
            r = self.models.eq_(self, a, b)
            d = self.deref(r)
            if isinstance(d, ArrV):
                return d if op == "Eq" else d.map(T.lnot)
            if isinstance(r, Ref) and op == "Eq":
                return r
            r = self.truth(r) if not isinstance(r, Term) else r
            return r if op == "Eq" else T.lnot(r)
        r = self.models.cmp_special(self, op, a, b)
        if r is not None:
            return r
        x, y = self.num_operand(a), self.num_operand(b)
        f = {"Lt": T.lt, "Gt": lambda p, q: T.lt(q, p), "LtE": T.le, "GtE": lambda p, q: T.le(q, p)}[op]
        return self.lift(f, x, y)

    def truth(self, v):
        if isinstance(v, Term):
            if T.isbool(v):
                return v
            if v.op == "n":
                return T.TRUE if v.args[0] != 0 else T.FALSE
            if v.op == "k":
                x = v.args[0]
                return T.TRUE if x else T.FALSE
            if v.op == "ite":
                return T.ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
            if v.op == "sym" and v.args[1] in ("real", "int", "pos", "complex", "posint", "nonneg"):
                return T.lnot(T.eq(v, T.ZERO))
            if v.op in ("add", "mul", "pow"):
                return T.lnot(T.eq(v, T.ZERO))
            return mk("fn", "truth", v)
        if isinstance(v, ArrV):
            if all(A.isint(d) for d in v.shape) and len(v.elems) == 1:
                return self.truth(v.elems[0])
            if len(v.elems) > 1 and all(A.isint(d) for d in v.shape):
                self.raise_("ValueError", "truth value of an array is ambiguous")
            return mk("fn", "truth", self.embed(v))
        if isinstance(v, PhiV):
            return T.ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, TupV):
            return T.TRUE if v.items else T.FALSE
        if isinstance(v, IterV) and v.view and not any(isinstance(x, (OptV, RepV)) for x in v.items):
            return T.TRUE if v.items else T.FALSE
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind in ("list", "set", "dict"):
                vals = list(r.data) if r.kind == "list" else [x[1] if r.kind == "dict" else x for x in r.data.values()]
                if any(not isinstance(x, (OptV, RepV)) for x in vals):
                    return T.TRUE
                if not vals:
                    return T.FALSE
                return T.lor(*[x.c if isinstance(x, OptV) else mk("fn", "truth", x.n) for x in vals])
            if r.kind == "arr":
                return self.truth(r.data)
            if r.kind == "inst":
                if isinstance(r.meta, ClassV):
                    f = self.class_attr(r.meta, "__bool__")
                    if f is not None:
                        return self.truth(self.call(BoundV(f, v), [], {}))
                    f = self.class_attr(r.meta, "__len__")
                    if f is not None:
                        return self.truth(self.call(BoundV(f, v), [], {}))
                return T.TRUE
            if r.kind == "opq":
                return mk("fn", "truth", self.embed(v))
        return T.TRUE

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.frame
            cell = None
            f = fr.func
            while f is not None and cell is None:
                cell = f.cls
                break
            cls = cell[0] if isinstance(cell, list) else cell
            first = fr.func.node.args.args[0].arg if fr.func.node.args.args else None
            return SuperV(cls, self.lookup(first))
        f = self.ev(e.func)
        args, kwargs = [], {}
        rest = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                self.tick()
                it = self.iterate(v, allow_unknown=True)
                if it is None:
                    args.append(RepV(self.models.elem_of(self, v), self.embed(v)))
                else:
                    args.extend(it)
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                self.models.star_kwargs(self, d, kwargs)
            else:
                kwargs[k.arg] = self.ev(k.value)
        loc = self.loc
        self.tick()
        r = self.call(f, args, kwargs, node=e)
        self.loc = loc
        T.CURRENT_LOC[0] = loc
        return r

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        return self.subscript(o, self.ev_index(e.slice))

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            g = lambda x: self.ev(x) if x is not None else T.NONE
            return SliceV(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iterate(self.ev(x.value)))
                else:
                    out.append(self.ev_index(x))
            return TupV(out)
        return self.ev(s)

    e_Slice = ev_index

    def e_Lambda(self, e):
        return self.make_func(e, "<lambda>")

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign_name(e.target.id, v)
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else T.NONE
        fr = self.frame
        if fr.yields is None:
            raise Undecided("yield outside generator")
        r = self.rec(fr.yields)
        self.st.heap[fr.yields.oid] = Rec("list", r.data + (v,), r.meta)
        return T.NONE

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        fr = self.frame
        for x in self.iterate(v):
            r = self.rec(fr.yields)
            self.st.heap[fr.yields.oid] = Rec("list", r.data + (x,), r.meta)
        return T.NONE

    def comp(self, generators, add):
        """run comprehension; scope: child env"""
        fr = self.frame
        env = self.alloc("env", {}, self.comp_parent_env(fr))
        cf = Frame(fr.func, env.oid, fr.pclen)
        cf.module = fr.module
        if hasattr(fr, "cur_exc"):
            cf.cur_exc = fr.cur_exc
        if getattr(fr, "is_class", False):
            cf.cls_cell = fr.cls_cell
        cf.returns = fr.returns

        def go(i):
            if i == len(generators):
                add()
                return
            g = generators[i]
            if i == 0:
                self.frames.pop()
                try:
                    it = self.ev(g.iter)
                finally:
                    self.frames.append(cf)
            else:
                it = self.ev(g.iter)

            def loop(it):
                if isinstance(it, PhiV):
                    return self.branch(it.c, lambda: loop(it.a), lambda: loop(it.b), value=False)
                self.tick()
                items = self.iterate(it, allow_unknown=True)
                if items is None:
                    items = [self.models.rep_of(self, it)]
                for item in items:
                    def body(item=item):
                        self.assign(g.target, item)

                        def inner(k):
                            if k == len(g.ifs):
                                go(i + 1)
                                return
                            c = self.truth(self.ev(g.ifs[k]))
                            self.branch(c, lambda: inner(k + 1), lambda: None, value=False)
                        inner(0)
                    if isinstance(item, OptV):
                        self.branch(item.c, lambda: body(item.v), lambda: None, value=False)
                    elif isinstance(item, RepV):
                        self.havocs += 1
                        self.rep_stack.append(item)
                        body(item.v)
                        self.rep_stack.pop()
                    else:
                        body(item)
            loop(it)
        self.frames.append(cf)
        try:
            go(0)
        finally:
            self.frames.pop()

    rep_stack = []

    def comp_parent_env(self, fr):
        return fr.env

    def e_ListComp(self, e):
        ref = self.new_list([])

        def add():
            v = self.ev(e.elt)
            if self.rep_stack:
                top = self.rep_stack[-1]
                v = RepV(v, top.n, top.ix if len(self.rep_stack) == 1 else None)
            r = self.rec(ref)
            self.st.heap[ref.oid] = Rec("list", r.data + (v,), r.meta)
        saved, self.rep_stack = self.rep_stack, []
        try:
            self.comp(e.generators, add)
        finally:
            self.rep_stack = saved
        return ref

    def e_GeneratorExp(self, e):
        ref = self.e_ListComp(e)
        return IterV(self.rec(ref).data)

    def e_SetComp(self, e):
        ref = self.e_ListComp(e)
        return self.alloc("set", {self.hkey(x): x for x in self.rec(ref).data})

    def e_DictComp(self, e):
        ref = self.alloc("dict", {})

        def add():
            k, v = self.ev(e.key), self.ev(e.value)
            r = self.rec(ref)
            d = dict(r.data)
            if self.rep_stack:
                v = RepV(v, self.rep_stack[-1].n)
            d[self.hkey(k)] = (k, v)
            self.st.heap[ref.oid] = Rec("dict", d, r.meta)
        saved, self.rep_stack = self.rep_stack, []
        try:
            self.comp(e.generators, add)
        finally:
            self.rep_stack = saved
        return ref

    def e_Await(self, e):
        return self.ev(e.value)

    # ------------------------------------------------------------ iteration
    serial = 0

    def iter_pos(self, v):
        """the first item not consumed yet (the call or loop that consumed it may look again)"""
        r = self.st.heap.get(v.oid) if v.oid is not None else None
        if v.view or r is None:
            return 0
        start, end, serial = r.data
        if end is None:
            raise Undecided("position of a partly consumed iterator at %s" % self.where())
        return start if serial == self.serial else end

    def tick(self):
        self.serial = Interp.serial = Interp.serial + 1

    def iter_move(self, v, start, end):
        if v.view or not v.items:
            return
        if v.oid is None:
            v.oid = self.next_oid
            self.next_oid += 1
        self.st.heap[v.oid] = Rec("iter", (start, end, self.serial))

    # (also used by for loops)
    def iterate(self, v, allow_unknown=False):
        """list of items, or None if unknown"""
        if isinstance(v, TupV):
            return list(v.items)
        if isinstance(v, IterV):
            if v.endless:
                raise Undecided("all items of an endless iterator at %s" % self.where())
            pos = self.iter_pos(v)
            self.iter_move(v, pos, len(v.items))
            return v.items[pos:]
        if isinstance(v, PhiV):
            a = self.iterate(v.a, True)
            b = self.iterate(v.b, True)
            if a is not None and b is not None:
                n = 0
                out = []
                if len(a) == len(b) and not any(isinstance(x, (OptV, RepV)) for x in a + b):
                    return [self.merge_val(v.c, x, y) for x, y in zip(a, b)]
                for x in a:
                    out.append(OptV(T.land(v.c, x.c), x.v) if isinstance(x, OptV) else OptV(v.c, x))
                nc = T.lnot(v.c)
                for x in b:
                    out.append(OptV(T.land(nc, x.c), x.v) if isinstance(x, OptV) else OptV(nc, x))
                return out
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == "list":
                return list(r.data)
            if r.kind in ("set", "frozenset"):
                return list(r.data.values())
            if r.kind == "dict":
                return [OptV(x[1].c, x[0]) if isinstance(x[1], OptV) else (RepV(x[0], x[1].n) if isinstance(x[1], RepV) else x[0]) for x in r.data.values()]
            if r.kind == "arr":
                return self.iterate(self.deref(v), allow_unknown)
            if r.kind == "inst":
                cls = r.meta
                if isinstance(cls, ClassV):
                    f = self.class_attr(cls, "__iter__")
                    if f is not None:
                        return self.iterate(self.call(BoundV(f, v), [], {}), allow_unknown)
        if isinstance(v, ArrV) and v.ndim >= 1:
            if A.isint(v.shape[0]):
                out = []
                for i in range(v.shape[0]):
                    x = A.index(v, (i,))
                    out.append(x.elems[0] if x.ndim == 0 else x)
                return out
        if isinstance(v, Term) and v.op == "k" and isinstance(v.args[0], (str, bytes)):
            return [const(c) for c in v.args[0]]
        if isinstance(v, Term) and v.op == "n":
            self.raise_("TypeError", "number is not iterable")
        it = self.models.iterate_special(self, v)
        if it is not None:
            return it
        if allow_unknown:
            return None
        raise Undecided("iteration over unknown value at %s: %s" % (self.where(), str(v)[:80]))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        if isinstance(f, PhiV):
            return self.branch(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundV):
            ff = f.func
            if isinstance(ff, (StaticV, ClassMethV)):
                ff = ff.f
            return self.call(ff, [f.self] + list(args), kwargs)
        if isinstance(f, PyFn):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, StaticV):
            return self.call(f.f, args, kwargs)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, BMeth):
            return self.models.call_bmeth(self, f, args, kwargs)
        if isinstance(f, ExtV):
            return self.models.call_ext(self, f.name, args, kwargs)
        if isinstance(f, Ref):
            r = self.rec(f)
            if r.kind == "inst" and isinstance(r.meta, ClassV):
                m = self.class_attr(r.meta, "__call__")
                if m is not None:
                    return self.call(BoundV(m, f), args, kwargs)
            if r.kind in ("list", "dict", "arr", "set"):
                self.raise_("TypeError", "'%s' object is not callable" % r.kind)
            if r.kind == "opq":
                return self.models.call_opq(self, f, args, kwargs)
        if isinstance(f, ModV):
            self.raise_("TypeError", "'module' object is not callable")
        if isinstance(f, (TupV, ArrV)) or (isinstance(f, Term) and T.is_const(f)):
            self.raise_("TypeError", "object is not callable")
        return self.models.call_opaque(self, f, args, kwargs)

    def call_func(self, f, args, kwargs):
        if "$memo" in f.attrs:
            ks = [self.memo_key(x) for x in args] + [("kw", n, self.memo_key(x)) for n, x in sorted(kwargs.items())]
            if not any(k is None or k[-1] is None for k in ks):
                oid = f.attrs["$memo"]
                k = tuple(ks)
                e = self.st.heap[oid].data.get(k)
                if e is not None and not isinstance(e[1], (OptV, RepV)) and not (isinstance(e[1], PhiV) and UNBOUND in (e[1].a, e[1].b)):
                    return e[1]
                v = self._call_func(f, args, kwargs)
                d = dict(self.st.heap[oid].data)
                d[k] = (const("memo"), v)
                self.st.heap[oid] = Rec("dict", d, None)
                return v
        return self._call_func(f, args, kwargs)

    def _call_func(self, f, args, kwargs):
        node = f.node
        a = node.args
        self.funcs_analysed.add((f.module.path, f.qual))
        if f.module.path.startswith("src") and not (self.frames and self.frames[-1].module.path.startswith("src")):
            e = (f.module.path, f.qual, node.lineno)
            own = args and isinstance(args[0], Ref) and isinstance(getattr(self.st.heap.get(args[0].oid), "meta", None), ClassV) \
                and self.st.heap[args[0].oid].meta.module is not None and self.st.heap[args[0].oid].meta.module.path.startswith("specs")
            if own or any(fr.module.path.startswith("src") for fr in self.frames):
                self.weak_entry = e
            else:
                self.last_entry = e
        self.calls_resolved += 1
        depth = sum(1 for fr in self.frames if fr.func is f)
        if depth > 30:
            self.raise_("RecursionError", "maximum recursion depth exceeded in %s" % f.qual)
        d = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        pos = list(args)
        kw = dict(kwargs)
        qn = f.qual
        nmax = len(params)
        reps = [x for x in pos if isinstance(x, RepV)]
        if reps and not a.vararg:
            raise Undecided("unknown number of positional arguments for %s" % qn)
        for i, p in enumerate(params):
            if i < len(pos):
                d[p] = pos[i]
                if p in kw:
                    self.raise_("TypeError", "%s() got multiple values for argument '%s'" % (qn, p))
            elif p in kw and p not in [x.arg for x in a.posonlyargs]:
                d[p] = kw.pop(p)
            else:
                k = i - (nmax - len(f.defaults))
                if k >= 0:
                    d[p] = f.defaults[k]
                else:
                    self.raise_("TypeError", "%s() missing required argument '%s'" % (qn, p))
            if isinstance(d[p], OptV):
                o = d[p]
                d[p] = o.v
        if len(pos) > nmax:
            if a.vararg:
                d[a.vararg.arg] = TupV(pos[nmax:])
            else:
                self.raise_("TypeError", "%s() takes %d positional arguments but %d were given" % (qn, nmax, len(pos)))
        elif a.vararg:
            d[a.vararg.arg] = TupV([])
        for p, dv in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kw:
                d[p.arg] = kw.pop(p.arg)
            elif dv is not UNBOUND:
                d[p.arg] = dv
            else:
                self.raise_("TypeError", "%s() missing keyword-only argument '%s'" % (qn, p.arg))
        if a.kwarg:
            d[a.kwarg.arg] = self.new_dict([(const(k), v) for k, v in kw.items()])
        elif kw:
            self.raise_("TypeError", "%s() got an unexpected keyword argument '%s'" % (qn, next(iter(kw))))
        env = self.alloc("env", d, f.env)
        fr = Frame(f, env.oid, len(self.st.pc))
        fr.module = f.module
        base = State(self.st.heap, self.st.pc, self.st.facts)
        base_pc = self.st.pc
        loc = self.loc
        self.frames.append(fr)
        self.call_stack.append(loc)
        gen = None
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            if is_generator(node):
                gen = self.new_list([])
                fr.yields = gen
            try:
                self.exec_block(node.body)
            except Abort:
                self.st.dead = True
            if not self.st.dead:
                fr.returns.append(Exit(self.st.pc, T.NONE, self.st))
        finally:
            self.frames.pop()
            self.call_stack.pop()
            self.loc = loc
            T.CURRENT_LOC[0] = loc
        if not fr.returns:
            self.st.dead = True
            raise Abort()
        b = State({}, base_pc, {})
        for e in fr.returns:
            e.st.dead = False
        if len(fr.returns) == 1:
            self.st = fr.returns[0].st
            v = fr.returns[0].val
        else:
            self.st, v = self.join_exits(fr.returns, b)
        if gen is not None:
            return IterV(self.rec(gen).data)
        return v

    def instantiate(self, c, args, kwargs):
        r = self.models.class_special(self, c, args, kwargs)
        if r is not None:
            return r
        for name, m in self.abstract_methods(c):
            self.raise_("TypeError", "Can't instantiate abstract class %s with abstract method %s" % (c.name, name))
        obj = self.alloc("inst", {}, c)
        new = self.class_attr(c, "__new__")
        if isinstance(new, FuncV):
            obj2 = self.call(new, [c] + list(args), kwargs)
            if not (isinstance(obj2, Ref) and self.rec(obj2).kind == "inst"):
                return obj2
            obj = obj2
        init = self.class_attr(c, "__init__")
        if init is not None:
            self.call(BoundV(init, obj), args, kwargs)
        elif c.flags.get("dataclass") or any(isinstance(b, ClassV) and b.flags.get("dataclass") for b in c.mro):
            self.models.dataclass_init(self, c, obj, args, kwargs)
        else:
            ext = [b for b in c.mro if isinstance(b, ExtV) and b.name not in ("object", "abc.ABC", "builtins.object")]
            if ext:
                self.models.ext_base_init(self, obj, ext[0], args, kwargs)
            elif args or kwargs:
                self.raise_("TypeError", "%s() takes no arguments" % c.name)
        return obj

    def abstract_methods(self, c):
        seen = set()
        if not any(isinstance(b, ExtV) and b.name in ("abc.ABC", "ABC") for b in c.mro):
            return
        for b in c.mro:
            if not isinstance(b, ClassV):
                continue
            for n, v in self.st.heap[b.oid].data.items():
                if n in seen:
                    continue
                seen.add(n)
                f = v
                if isinstance(f, (StaticV, ClassMethV)):
                    f = f.f
                if isinstance(f, PropV):
                    f = f.fget
                if isinstance(f, FuncV) and hasattr(f.node, "decorator_list") and any(
                        ast.unparse(d).split(".")[-1] == "abstractmethod" for d in f.node.decorator_list):
                    yield n, f

    # ------------------------------------------------------------ attributes
    def class_attr(self, c, name, after=None):
        """raw attribute from the class's MRO (ClassV parts only)"""
        mro = c.mro if isinstance(c, ClassV) else [c]
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for b in mro:
            if isinstance(b, ClassV):
                d = self.st.heap[b.oid].data
                if name in d and d[name] is not UNBOUND:
                    return d[name]
        return None

    def bind(self, v, obj, cls):
        if isinstance(v, FuncV):
            return BoundV(v, obj)
        if isinstance(v, PyFn):
            return v
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClassMethV):
            return BoundV(v.f, cls)
        if isinstance(v, PropV):
            return self.call(v.fget, [obj], {})
        if isinstance(v, PhiV):
            return self.dist(v, lambda x: self.bind(x, obj, cls))
        g = self.descriptor(v, "__get__")
        if g is not None:
            return self.call(BoundV(g, v), [obj, cls], {})
        return v

    def descriptor(self, v, name):
        """method of the class of a class attribute: the descriptor protocol"""
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == "inst" and isinstance(r.meta, ClassV):
                f = self.class_attr(r.meta, name)
                return f if isinstance(f, FuncV) else None
        return None

    def getattr(self, o, name, default=None):
        """default: thunk for missing attribute (else AttributeError is raised)"""
        if isinstance(o, PhiV):
            return self.dist(o, lambda x: self.getattr(x, name, default))
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == "inst":
                return self.inst_getattr(o, r, name, default)
        if isinstance(o, ClassV):
            v = self.class_attr(o, name)
            if v is not None:
                if isinstance(v, StaticV):
                    return v.f
                if isinstance(v, ClassMethV):
                    return BoundV(v.f, o)
                g = self.descriptor(v, "__get__")
                if g is not None:
                    return self.call(BoundV(g, v), [T.NONE, o], {})
                return v
            if name == "__name__":
                return const(o.name)
            if name == "__doc__":
                return const(o.doc)
            if name == "__module__":
                return const(o.module.name)
            if name == "__mro__":
                return TupV(o.mro)
            if name == "__subclasses__":
                return PyFn("__subclasses__", lambda I, a, k: I.new_list([m for m in I.all_classes() if o in m.bases]))
            if name == "__dict__":
                return self.new_dict([(const(k), v) for k, v in self.st.heap[o.oid].data.items()])
            ext = [b for b in o.mro if isinstance(b, ExtV) and b.name not in ("object", "abc.ABC")]
            if name.startswith("__") and name in ("__init__", "__setattr__", "__getattribute__", "__new__", "__eq__", "__hash__", "__repr__", "__str__", "__class__"):
                return ExtV("object." + name)
            if ext:
                return ExtV(ext[0].name + "." + name)
            return self.missing(o, name, default)
        if isinstance(o, ModV):
            d = self.st.heap[o.oid].data
            if name in d:
                return d[name]
            m = self.modules.get(o.name + "." + name)
            if m is not None:
                return m
            if name == "__dict__":
                return self.new_dict([(const(k), v) for k, v in d.items()])
            if name == "__name__":
                return const(o.name)
            if "__getattr__" in d:
                return self.call(d["__getattr__"], [const(name)], {})
            if not o.path.startswith("src") and o.name != "vf":
                return ExtV(o.name + "." + name)       # library models are partial
            return self.missing(o, name, default)
        if isinstance(o, SuperV):
            inst = o.obj
            cls = self.rec(inst).meta if isinstance(inst, Ref) else inst
            v = self.class_attr(cls, name, after=o.cls)
            if v is not None:
                if isinstance(inst, Ref):
                    return self.bind(v, inst, cls)
                return v.f if isinstance(v, StaticV) else BoundV(v.f if isinstance(v, ClassMethV) else v, inst)
            return self.models.super_ext(self, o, cls, name)
        v = self.models.getattr_special(self, o, name, default)
        return v

    def all_classes(self):
        out = []
        for m in self.modules.values():
            for v in self.st.heap[m.oid].data.values():
                if isinstance(v, ClassV) and v not in out:
                    out.append(v)
        return out

    def missing(self, o, name, default):
        if default is not None:
            return default()
        self.raise_("AttributeError", "no attribute '%s'" % name)

    def inst_getattr(self, o, r, name, default=None, hook=True):
        cls = r.meta
        if isinstance(cls, ClassV) and hook:
            ga = self.class_attr(cls, "__getattribute__")
            if ga is not None and not getattr(self, "_in_ga", False):
                self._in_ga = True
                try:
                    return self.call(BoundV(ga, o), [const(name)], {})
                finally:
                    self._in_ga = False
        ca = self.class_attr(cls, name) if isinstance(cls, ClassV) else None
        if isinstance(ca, PropV) and ca.cached:
            return self.cached_attr(o, cls, name, ca, r.data.get(name, UNBOUND))
        if isinstance(ca, PropV):
            # AttributeError inside a property falls back to __getattr__
            ga = self.class_attr(cls, "__getattr__")
            if hook and ga is not None:
                coll = []
                self.collectors.append(coll)
                base = State(self.st.heap, self.st.pc, self.st.facts)
                try:
                    try:
                        v = self.call(ca.fget, [o], {})
                        ok = True
                    except Abort:
                        ok = False
                finally:
                    self.collectors.pop()
                rest = [e for e in coll if not (isinstance(self.exc_class_of(e), ExtV) and self.exc_class_of(e).name == "AttributeError")]
                aes = [e for e in coll if e not in rest]
                for e in rest:
                    self.collectors[-1].append(e)
                if aes and not ok and not rest:
                    self.st = aes[0].st
                    self.st.dead = False
                    return self.call(BoundV(ga, o), [const(name)], {})
                if not ok:
                    raise Abort()
                return v
            return self.call(ca.fget, [o], {})
        if ca is not None and self.descriptor(ca, "__get__") is not None and self.descriptor(ca, "__set__") is not None:
            return self.bind(ca, o, cls)
        if name in r.data:
            v = r.data[name]
            if v is UNBOUND:
                return self.missing_inst(o, cls, name, default, hook)
            if isinstance(v, PhiV) and (v.a is UNBOUND or v.b is UNBOUND):
                return self.branch(v.c,
                                   lambda: self.missing_or(v.a, o, cls, name, default, hook, ca),
                                   lambda: self.missing_or(v.b, o, cls, name, default, hook, ca))
            return v
        if ca is not None:
            return self.bind(ca, o, cls)
        return self.missing_inst(o, cls, name, default, hook)

    def cached_attr(self, o, cls, name, ca, v):
        """functools.cached_property: computed once, then stored under its name"""
        if isinstance(v, PhiV):
            return self.branch(v.c, lambda: self.cached_attr(o, cls, name, ca, v.a), lambda: self.cached_attr(o, cls, name, ca, v.b))
        if v is not UNBOUND:
            return v
        v = self.call(ca.fget, [o], {})
        r = self.rec(o)
        d = dict(r.data)
        d[name] = v
        self.st.heap[o.oid] = Rec(r.kind, d, r.meta)
        return v

    def memo_key(self, v):
        """key of an lru_cache argument; None when unknown"""
        if isinstance(v, Term):
            if T.is_const(v):
                return ("k", T.cval(v))
            return ("t", v)
        if isinstance(v, TupV):
            ks = tuple(self.memo_key(x) for x in v.items)
            return None if None in ks else ("tup",) + ks
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind in ("list", "dict", "set", "arr"):
                self.raise_("TypeError", "unhashable type")
            if r.kind == "inst":
                if isinstance(r.meta, ClassV) and (self.class_attr(r.meta, "__eq__") is not None or self.class_attr(r.meta, "__hash__") is not None
                                                   or any(isinstance(b, ClassV) and b.flags.get("dataclass") for b in r.meta.mro)):
                    return None
                return ("o", v.oid)
            return None
        if isinstance(v, ArrV):
            if v.ndim:
                self.raise_("TypeError", "unhashable type")
            return None
        if isinstance(v, (FuncV, ClassV)):
            return ("f", id(v))
        return None

    def missing_or(self, v, o, cls, name, default, hook, ca):
        if v is UNBOUND:
            if ca is not None:
                return self.bind(ca, o, cls)
            return self.missing_inst(o, cls, name, default, hook)
        return v

    def exc_class_of(self, e):
        return e.st.heap[e.val.oid].meta

    def not_modelled_here(self, cls, name):
        """classes of library models: True, or the names of the attributes that are left out"""
        p = self.class_attr(cls, "__vf_partial__")
        if p is None:
            return False
        if isinstance(p, TupV):
            return any(isinstance(x, Term) and x.op == "k" and x.args[0] == name for x in p.items)
        return True

    def missing_inst(self, o, cls, name, default, hook=True):
        if name == "__class__":
            return cls
        if name == "__dict__":
            r = self.rec(o)
            return self.alloc("dict", {("k", k): (const(k), v) for k, v in r.data.items()}, ("instdict", o.oid))
        sp = self.models.inst_builtin_attr(self, o, cls, name)
        if sp is not None:
            return sp
        ga = self.class_attr(cls, "__getattr__") if isinstance(cls, ClassV) else None
        if ga is not None and hook:
            return self.with_attr_default(lambda: self.call(BoundV(ga, o), [const(name)], {}), default)
        if isinstance(cls, ClassV) and not (name.startswith("__") and name.endswith("__")) and self.not_modelled_here(cls, name):
            raise Undecided("attribute '%s' of %s is not modelled" % (name, cls.name))
        if isinstance(cls, ClassV):
            ext = [b for b in cls.mro if isinstance(b, ExtV) and b.name not in ("object", "abc.ABC", "ABC", "enum.Enum")]
            if ext:
                return self.models.ext_inst_attr(self, o, ext[0], name, default)
        elif isinstance(cls, ExtV):
            if name == "args":
                return self.rec(o).data.get("args", TupV([]))
            return BMeth(o, name)
        return self.missing(o, name, default)

    def with_attr_default(self, f, default):
        if default is None:
            return f()
        coll = []
        self.collectors.append(coll)
        base = self.st
        b0 = State(base.heap, base.pc, base.facts)
        ok = True
        v = None
        try:
            try:
                v = f()
            except Abort:
                ok = False
        finally:
            self.collectors.pop()
        ends = []
        for e in coll:
            if self.exc_is_attr(e):
                ends.append(e)
            else:
                self.collectors[-1].append(e)
        outs = []
        normal = self.st if ok else None
        for e in ends:
            self.st = e.st
            self.st.dead = False
            try:
                outs.append(Exit(e.pc, default(), self.st))
            except Abort:
                pass
        if ok:
            outs.append(Exit(normal.pc, v, normal))
        if not outs:
            self.st = base
            self.st.dead = True
            raise Abort()
        self.st, v = self.join_exits(outs, b0)
        return v

    def exc_is_attr(self, e):
        c = self.exc_class_of(e)
        if isinstance(c, ClassV):
            return any(isinstance(b, ExtV) and exc_isa(b.name, "AttributeError") for b in c.mro)
        return exc_isa(c.name, "AttributeError")

    def setattr(self, o, name, v):
        if isinstance(o, PhiV):
            def t(x):
                return lambda: self.setattr(x, name, v)
            return self.branch(o.c, t(o.a), t(o.b), value=False)
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == "inst":
                cls = r.meta
                if isinstance(cls, ClassV):
                    ca = self.class_attr(cls, name)
                    if isinstance(ca, PropV) and not ca.cached:
                        if ca.fset is None:
                            self.raise_("AttributeError", "can't set attribute %s" % name)
                        self.call(ca.fset, [o, v], {})
                        return
                    ds = self.descriptor(ca, "__set__")
                    if ds is not None:
                        self.call(BoundV(ds, ca), [o, v], {})
                        return
                    sa = self.class_attr(cls, "__setattr__")
                    if isinstance(sa, FuncV) and not getattr(self, "_in_sa", False):
                        self._in_sa = True
                        try:
                            self.call(BoundV(sa, o), [const(name), v], {})
                        finally:
                            self._in_sa = False
                        return
                    if cls.flags.get("dc_frozen") is T.TRUE and not getattr(self, "_dc_init", False):
                        self.raise_("AttributeError", "cannot assign to field '%s'" % name)
                self.raw_setattr(o, name, v)
                return
        if isinstance(o, ClassV):
            r = self.st.heap[o.oid]
            d = dict(r.data)
            d[name] = v
            self.effects.append(Effect("clsattr", o.oid, name, v, self.loc, self.st.pc, tuple(self.call_stack), r))
            self.st.heap[o.oid] = Rec("cls", d, r.meta)
            return
        if isinstance(o, ModV):
            r = self.st.heap[o.oid]
            d = dict(r.data)
            d[name] = v
            self.effects.append(Effect("global", o.oid, name, v, self.loc, self.st.pc, tuple(self.call_stack), r))
            self.st.heap[o.oid] = Rec("env", d, r.meta)
            return
        if isinstance(o, FuncV):
            o.attrs[name] = v
            return
        self.models.setattr_special(self, o, name, v)

    def raw_setattr(self, o, name, v):
        if isinstance(v, ArrV) and v.meta is None and not v.roots:
            v = self.new_arr(v)
        r = self.rec(o)
        d = dict(r.data)
        d[name] = v
        self.setrec(o, d, name, v, kind="attr")

    def opaque_effect(self, what, o, val=None):
        t = self.embed(o)
        self.effects.append(Effect("opaque", None, what, t, self.loc, self.st.pc, tuple(self.call_stack)))

    # ------------------------------------------------------------ subscripts
    def subscript(self, o, k):
        if isinstance(o, PhiV):
            return self.dist(o, lambda x: self.subscript(x, k))
        if isinstance(k, PhiV):
            return self.dist(k, lambda x: self.subscript(o, x))
        return self.models.subscript(self, o, k)

    def setitem(self, o, k, v, node=None):
        if isinstance(o, PhiV):
            return self.branch(o.c, lambda: self.setitem(o.a, k, v), lambda: self.setitem(o.b, k, v), value=False)
        r = self.models.setitem(self, o, k, v)
        if r is not None and node is not None:
            # plain (unboxed) array value: rebind the holder
            self.assign(self._as_store(node), r)

    def _as_store(self, node):
        if isinstance(node, ast.Name):
            return ast.Name(id=node.id, ctx=ast.Store())
        if isinstance(node, ast.Attribute):
            return ast.Attribute(value=node.value, attr=node.attr, ctx=ast.Store())
        if isinstance(node, ast.Subscript):
            return ast.Subscript(value=node.value, slice=node.slice, ctx=ast.Store())
        raise Undecided("store into temporary")

    def delitem(self, o, k):
        self.models.delitem(self, o, k)


class RepV:
    """unknown number of copies of a generic item"""
    __slots__ = ("v", "n", "ix")

    def __init__(self, v, n, ix=None):
        self.v, self.n, self.ix = v, n, ix      # ix = (index symbol, length): the item is a function of the index


_gen_cache = {}


def is_generator(node):
    r = _gen_cache.get(node)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _gen_cache[node] = r
    return r


DUNDER = {
    "Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "Pow": "__pow__",
    "MatMult": "__matmul__", "Mod": "__mod__", "FloorDiv": "__floordiv__", "BitAnd": "__and__",
    "BitOr": "__or__", "BitXor": "__xor__", "LShift": "__lshift__", "RShift": "__rshift__",
}


def floordiv(a, b):
    if T.is_num(a) and T.is_num(b) and b.args[0] != 0:
        return mk("n", Fraction(a.args[0] // b.args[0]), T._ty(a, b))
    return mk("fn", "floordiv", a, b)


def mod(a, b):
    if T.is_num(a) and T.is_num(b) and b.args[0] != 0:
        v = a.args[0] - b.args[0] * (a.args[0] // b.args[0])
        return mk("n", v, T._ty(a, b))
    return mk("fn", "mod", a, b)


def bitand(a, b):
    if T.isbool(a) and T.isbool(b):
        return T.land(a, b)
    return mk("fn", "BitAnd", a, b)


def bitor(a, b):
    if T.isbool(a) and T.isbool(b):
        return T.lor(a, b)
    return mk("fn", "BitOr", a, b)


NUMERALS = {}  # numerals standing for symbolic values (set by specifications)
BIN = {
    "Add": T.add, "Sub": T.sub, "Mult": T.mul, "Div": T.div, "Pow": T.power,
    "FloorDiv": floordiv, "Mod": mod, "BitAnd": bitand, "BitOr": bitor,
}
