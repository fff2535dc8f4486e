"""Analysis-provided functions available to specification modules (module `vf`)."""
from fractions import Fraction

from . import terms as T
from .terms import Term, mk, const, num
from . import arrays as A
from .arrays import ArrV
from . import interp as V
from . import models as M
from . import models_call as MC
from . import models_np as NP
from . import models_meth as MM


def cstr(v):
    return T.cval(v) if isinstance(v, Term) and T.is_const(v) else T.show(v, 3)


def make(H):
    out = {}

    def reg(f, name=None):
        n = name or f.__name__
        out[n] = V.PyFn(n, f)
        return f

    def symf(kind):
        def f(I, a, k):
            nm = cstr(a[0])
            if len(a) > 2:
                lo, hi = a[1].args[0], a[2].args[0]
                return mk("sym", nm, kind, lo, hi)
            return T.sym(nm, kind)
        return f
    for n, kd in (("real", "real"), ("pos", "pos"), ("cplx", "complex"), ("integer", "int"), ("posint", "posint"), ("boolean", "bool"),
                  ("string", "str"), ("anyv", "any"), ("func", "func"), ("size", "posint"), ("nonneg", "nonneg")):
        out[n] = V.PyFn(n, symf(kd))

    @reg
    def process_state(I, a, k):
        """settings of numpy, of the process and of other libraries that were changed, as a dictionary"""
        out = {}
        for oid in (I.np_err, I.ext_state.oid):
            out.update(I.st.heap[oid].data)
        return I.alloc("dict", out)

    @reg
    def arr(I, a, k):
        """arr(name, shape, kind='complex', lo, hi): symbolic boxed array"""
        nm = cstr(a[0])
        shape = NP.shape_arg(I, a[1])
        kind = cstr(a[2]) if len(a) > 2 else "complex"
        ext = tuple(x.args[0] for x in a[3:5])
        nd = len(shape)
        elems = []
        for ix in A.indices(shape):
            tag = ",".join(str(i) if A.isint(d) else "." for i, d in zip(ix, shape))
            base = mk("sym", nm + ("[" + tag + "]" if any(A.isint(d) for d in shape) else ""), kind, *ext)
            vs = [A.axisvar(nd, ax) for ax, d in enumerate(shape) if not A.isint(d)]
            elems.append(T.idx(base, *[T.var(v) for v in vs]) if vs else base)
        return I.new_arr(ArrV(shape, elems))

    @reg
    def app(I, a, k):
        """app(name, *args): uninterpreted function applied elementwise"""
        nm = "u:" + cstr(a[0])
        for i, x in enumerate(a[1:], 1):
            if isinstance(x, V.PhiV):
                return I.dist(x, lambda y: app(I, a[:i] + [y] + a[i + 1:], k))
        return I.lift(lambda *xs: mk("fn", nm, *xs), *[I.num_operand(x) for x in a[1:]])

    @reg
    def read_source(I, a, k):
        """text of a file below the repository's source directory, else None"""
        import os
        p = os.path.normpath(os.path.join(V.REPO, cstr(a[0])))
        if not p.startswith(os.path.join(V.SRC, "elli") + os.sep) or not os.path.isfile(p):
            return T.NONE
        with open(p, encoding=cstr(a[1]) if len(a) > 1 else "utf-8") as f:
            return const(f.read())

    @reg
    def lark_check(I, a, k):
        """'' when the grammar is one lark accepts, else the reason it refuses it"""
        from . import larkm
        try:
            larkm.compiled(cstr(a[0]), cstr(a[1]))
        except larkm.GrammarProblem as e:
            return const(str(e))
        except larkm.NotModelled as e:
            raise V.Undecided("grammar feature not modelled: %s" % e)
        return const("")

    @reg
    def lark_parse(I, a, k):
        """nested ('tree', data, children) / ('tok', type, text) / None, or ('err', reason)"""
        from . import larkm
        g = larkm.compiled(cstr(a[0]), cstr(a[1]))
        try:
            r = g.parse(cstr(a[2]))
        except larkm.ParseProblem as e:
            return V.TupV([const("err"), const(str(e))])

        def conv(x):
            if x is None:
                return T.NONE
            if x[0] == "tok":
                return V.TupV([const("tok"), const(x[1]), const(x[2])])
            return V.TupV([const("tree"), const(x[1]), V.TupV([conv(c) for c in x[2]])])
        return conv(r)

    @reg
    def own_names(I, a, k):
        """names assigned in a class body"""
        return V.TupV([const(n) for n, v in I.st.heap[a[0].oid].data.items() if v is not V.UNBOUND])

    @reg
    def sci(I, a, k):
        return NP.SC[cstr(a[0])]

    @reg
    def unit_parse(I, a, k):
        """(magnitude, SI scale, (length, mass, time)) of a unit expression, None when a name is unknown"""
        from . import unitsm
        if not (isinstance(a[0], Term) and T.is_const(a[0]) and isinstance(T.cval(a[0]), str)):
            raise V.Undecided("unit expression is not a known string")
        al = {T.cval(kk): T.cval(vv) for kk, vv in I.rec(a[1]).data.values()}
        try:
            m, sc, dim = unitsm.parse(T.cval(a[0]), al)
        except unitsm.Unknown:
            return T.NONE
        except unitsm.NotModelled as e:
            raise V.Undecided("unit expression %r: %s" % (T.cval(a[0]), e))
        return V.TupV([m, sc, V.TupV([num(x) for x in dim])])

    def regex(a, n=0):
        import re
        for x in a:
            if not (isinstance(x, Term) and T.is_const(x)):
                raise V.Undecided("library model: regular expression applied to an unknown string")
        return re.compile(T.cval(a[0]), int(T.cval(a[1])))

    def spans(m):
        g = V.TupV([V.TupV([num(x) for x in m.span(i)]) for i in range((m.re.groups or 0) + 1)])
        return g

    def matchdata(I, m):
        d = MM.from_py(I, dict(m.re.groupindex))
        return V.TupV([spans(m), d])

    @reg
    def re_check(I, a, k):
        import re
        try:
            regex(a)
        except re.error as e:
            return const(str(e))
        return const("")

    @reg
    def re_match(I, a, k):
        """re_match(pattern, flags, mode, text, pos)"""
        p = regex(a)
        if not isinstance(T.cval(a[3]), str):
            I.raise_("TypeError", "expected string or bytes-like object")
        m = getattr(p, T.cval(a[2]))(T.cval(a[3]), int(T.cval(a[4])))
        return T.NONE if m is None else matchdata(I, m)

    @reg
    def re_all(I, a, k):
        return I.new_list([matchdata(I, m) for m in regex(a).finditer(T.cval(a[2]))])

    @reg
    def re_split(I, a, k):
        return MM.from_py(I, regex(a).split(T.cval(a[2]), int(T.cval(a[3]))))

    @reg
    def re_sub(I, a, k):
        return const(regex(a).sub(T.cval(a[2]), T.cval(a[3]), int(T.cval(a[4]))))

    @reg
    def re_expand(I, a, k):
        return const(regex(a).search(T.cval(a[2]), int(T.cval(a[3]))).expand(T.cval(a[4])))

    @reg
    def re_escape(I, a, k):
        import re
        return const(re.escape(T.cval(a[0])))

    @reg
    def na(I, a, k):
        return T.NA

    @reg
    def has_na(I, a, k):
        v = I.deref(a[0])
        return const(v is T.NA or isinstance(v, ArrV) and any(e is T.NA for e in v.elems))

    @reg
    def is_nan(I, a, k):
        v = I.deref(a[0])
        if isinstance(v, ArrV) and len(v.elems) == 1:
            v = v.elems[0]
        if isinstance(v, Term):
            if v.op == "n":
                return const(v.args[0] != v.args[0])
            if v.op == "fn" and v.args[0] == "nan":
                return T.TRUE
            if v.op == "ite":
                return T.ite(v.args[0], is_nan(I, [v.args[1]], {}), is_nan(I, [v.args[2]], {}))
        return T.FALSE

    def cell(I, x):
        x = I.deref(x)
        if isinstance(x, ArrV) and len(x.elems) == 1:
            return x.elems[0]
        if isinstance(x, Term):
            return x
        return I.embed(x)

    @reg
    def boxes(I, a, k):
        """1-D array of arbitrary cells"""
        items = [cell(I, x) for x in I.iterate(a[0])]
        return I.new_arr(ArrV((len(items),), items))

    @reg
    def full(I, a, k):
        d = NP.shape_arg(I, V.TupV([a[0]]))
        v = cell(I, a[1])
        n = d[0] if A.isint(d[0]) else 1
        return I.new_arr(ArrV(d, [v] * n))

    @reg
    def is_concrete(I, a, k):
        x = I.deref(a[0])
        if isinstance(x, ArrV):
            return const(all(T.is_const(e) for e in x.elems) and all(A.isint(d) for d in x.shape))
        if isinstance(x, V.TupV):
            return const(all(is_concrete(I, [y], {}) is T.TRUE for y in x.items))
        return const(isinstance(x, Term) and T.is_const(x))

    @reg
    def is_bool(I, a, k):
        x = I.deref(a[0])
        if isinstance(x, ArrV) and len(x.elems) == 1:
            x = x.elems[0]
        return const(isinstance(x, Term) and (T.isbool(x) or x.op == "k" and isinstance(x.args[0], bool)))

    @reg
    def known_length(I, a, k):
        x = I.deref(a[0])
        return const(isinstance(x, ArrV) and all(A.isint(d) for d in x.shape))

    def norm_dim(x):
        return x if isinstance(x, Term) else num(x)

    @reg
    def same_size(I, a, k):
        x, y = I.deref(a[0]), I.deref(a[1])
        if x is y:
            return T.TRUE
        if isinstance(x, Term) and isinstance(y, Term):
            if T.is_num(x) and T.is_num(y):
                return const(x.args[0] == y.args[0])
        raise V.Undecided("library model: comparison of symbolic sizes %r %r" % (x, y))

    @reg
    def same_index(I, a, k):
        """same labels"""
        x, y = a[0], a[1]
        if x is y or isinstance(x, V.Ref) and isinstance(y, V.Ref) and x.oid == y.oid:
            return T.TRUE
        def content(v):
            c = I.call(I.getattr(v, "_key_"), [], {})
            return c
        p, q = content(x), content(y)
        p, q = I.deref(p), I.deref(q)
        if isinstance(p, ArrV) and isinstance(q, ArrV):
            if p.shape == q.shape and p.elems == q.elems:
                return T.TRUE
            if not all(A.isint(d) for d in p.shape + q.shape):
                raise V.Undecided("library model: comparison of symbolic labels")
            return T.FALSE
        return const(I.embed(p) is I.embed(q))

    @reg
    def arange(I, a, k):
        r = I.deref(NP.np_arange(I, [a[0]], {}))
        return I.new_arr(r)

    @reg
    def column_of(I, a, k):
        """column whose generic element is the given value"""
        like = I.deref(a[1])
        v = I.deref(a[0])
        if isinstance(v, ArrV):
            if v.ndim == 1 and v.shape == like.shape:
                return I.new_arr(v)
            if len(v.elems) != 1:
                raise V.Undecided("library model: column of arrays")
            v = v.elems[0]
        if not isinstance(v, Term):
            raise V.Undecided("library model: column of objects")
        return I.new_arr(ArrV(like.shape, [v]))

    @reg
    def cell0(I, a, k):
        return I.deref(a[0]).elems[0]

    @reg
    def iterable(I, a, k):
        return V.TupV(I.iterate(a[0]))

    @reg
    def numeral(I, a, k):
        """numeral(text, value): from now on this numeral denotes the given symbolic value"""
        V.NUMERALS[T.cval(a[0])] = a[1]
        return a[0]

    @reg
    def numeral_value(I, a, k):
        if not (isinstance(a[0], Term) and a[0].op == "k" and isinstance(a[0].args[0], str)):
            return T.NONE
        s = a[0].args[0].strip()
        if s in V.NUMERALS:
            return V.NUMERALS[s]
        try:
            f = float(s)
        except ValueError:
            return T.NONE
        if f != f or f in (float("inf"), float("-inf")):
            return T.NONE
        return mk("n", Fraction(s), "int" if s.lstrip("+-").isdigit() else "float")

    @reg
    def not_modelled(I, a, k):
        raise V.Undecided("library model: " + cstr(a[0]))

    @reg
    def has_attr(I, a, k):
        o = a[0]
        r = I.rec(o)
        n = cstr(a[1])
        return const((r.data.get(n, V.UNBOUND) is not V.UNBOUND) or I.class_attr(r.meta, n) is not None)

    @reg
    def fn_attr(I, a, k):
        f = a[0]
        while isinstance(f, V.BoundV):
            f = f.func
        return f.attrs.get(cstr(a[1]), T.NONE) if isinstance(f, V.FuncV) else T.NONE

    @reg
    def fspath(I, a, k):
        o = a[0]
        if isinstance(o, V.Ref) and I.rec(o).kind == "inst" and isinstance(I.rec(o).meta, V.ClassV) and I.class_attr(I.rec(o).meta, "__fspath__") is not None:
            return I.call(I.getattr(o, "__fspath__"), [], {})
        return o

    @reg
    def eye_like(I, a, k):
        return T.NONE

    @reg
    def equal(I, a, k):
        H.equal(a[0], a[1], cstr(a[2]))
        return T.NONE

    @reg
    def check(I, a, k):
        H.check(a[0], cstr(a[1]))
        return T.NONE

    @reg
    def fail(I, a, k):
        H.check(T.FALSE, cstr(a[0]))
        return T.NONE

    @reg
    def undecided(I, a, k):
        H.add(cstr(a[0]), "undecided", cstr(a[1]) if len(a) > 1 else "")
        return T.NONE

    @reg
    def expect_raises(I, a, k):
        """expect_raises(exc, label, fn, *args, **kw)"""
        H.expect_raises(a[2], a[0], cstr(a[1]), list(a[3:]), k)
        return T.NONE

    @reg
    def accepted(I, a, k):
        """accepted(label, fn, *args): must not raise (value returned)"""
        base = I.st
        val, st, exits = H.outcome(a[1], list(a[2:]), k)
        from .harness import sat
        for e in exits:
            s = sat(e.pc)
            n = getattr(e.st.heap[e.val.oid].meta, "name", "?")
            if s == "yes":
                H.add(cstr(a[0]), "violation", "raises %s%s at %s:%s:%d" % ((n, str(e.st.heap[e.val.oid].data.get("args"))[3:140]) + e.loc))
                break
        else:
            H.add(cstr(a[0]), "ok", how="proved")
        if st is None:
            I.st = base
            I.st.dead = True
            raise V.Abort()
        I.st = st
        return val

    @reg
    def frozen(I, a, k):
        """frozen(label, roots, fn, *args)"""
        return H.frozen(a[1], a[2], cstr(a[0]), a[3:], k)

    @reg
    def disjoint(I, a, k):
        """disjoint(a, b, label): no shared mutable object"""
        s = H.shares(a[0], a[1])
        if s:
            r = I.st.heap[s[0]]
            H.check(T.FALSE, cstr(a[2]), "both reach the same %s %s" % (r.kind, getattr(r.meta, "name", "")))
        else:
            H.add(cstr(a[2]), "ok", how="proved")
        return T.NONE

    @reg
    def same_object(I, a, k):
        return M.is_(I, a[0], a[1])

    @reg
    def assume(I, a, k):
        c = I.truth(a[0])
        I.st.pc = I.st.pc + (c,)
        I.assume(I.st, c, True)
        return T.NONE

    @reg
    def outcome(I, a, k):
        """outcome(fn, *args) -> ('ok', value) | ('raise', class name) for definite outcomes, else ('mixed', None)"""
        base = I.st
        val, st, exits = H.outcome(a[0], list(a[1:]), k)
        from .harness import sat
        ex = [e for e in exits if sat(e.pc) != "no"]
        if st is not None and not ex:
            I.st = st
            return V.TupV([const("ok"), val])
        if st is None and ex:
            n = {getattr(e.st.heap[e.val.oid].meta, "name", "?") for e in ex}
            I.st = base
            return V.TupV([const("raise"), const(sorted(n)[0])])
        I.st = base
        return V.TupV([const("mixed"), T.NONE])

    @reg
    def pristine(I, a, k):
        """pristine(fn, *args): value fn() has when nothing happened before in this process (fn builds all it needs)"""
        cur = I.st
        I.st = H.base.fork()
        I.st.pc, I.st.facts = cur.pc, dict(cur.facts)
        for o in H.reach(list(a[1:]), cur.heap, True):
            I.st.heap.setdefault(o, cur.heap[o])
        val, st, exits = H.outcome(a[0], list(a[1:]), k)
        if st is None:
            I.st = cur
            raise V.Undecided("reference evaluation raises: %s" % (H.exits_desc(exits),))
        I.st = st
        val = MC.deepcopy(I, val)
        for o, r in I.st.heap.items():
            cur.heap.setdefault(o, r)
        I.st = cur
        return val

    @reg
    def clone(I, a, k):
        return MC.deepcopy(I, a[0])

    @reg
    def shape_of(I, a, k):
        d = I.deref(a[0])
        if isinstance(d, ArrV):
            return V.TupV([A.dimterm(x) for x in d.shape])
        return V.TupV([])

    @reg
    def names_of(I, a, k):
        """attribute names defined by a module / class"""
        v = a[0]
        d = I.st.heap[v.oid].data
        return I.new_list([const(n) for n in d if not n.startswith("__")])

    @reg
    def class_value(I, a, k):
        """raw attribute of a class, without binding"""
        v = I.class_attr(a[0], cstr(a[1]))
        return v if v is not None else T.NONE

    @reg
    def subclasses(I, a, k):
        out = []
        for c in I.all_classes():
            if a[0] in c.mro and c is not a[0] and c.module.name.startswith("elli"):
                out.append(c)
        return I.new_list(out)

    @reg
    def class_name(I, a, k):
        v = a[0]
        if isinstance(v, V.Ref):
            return const(getattr(I.rec(v).meta, "name", I.rec(v).kind))
        return const(getattr(v, "name", "?"))

    @reg
    def is_inst_of_name(I, a, k):
        v = a[0]
        if isinstance(v, V.Ref):
            m = I.rec(v).meta
            return const(any(getattr(b, "name", "") == cstr(a[1]) for b in (m.mro if isinstance(m, V.ClassV) else [m])))
        return T.FALSE

    @reg
    def docstring(I, a, k):
        import ast
        v = a[0]
        if isinstance(v, V.ClassV):
            return const(v.doc)
        if isinstance(v, V.FuncV):
            return const(ast.get_docstring(v.node, clean=False))
        return T.NONE

    @reg
    def is_opaque(I, a, k):
        from . import norm
        v = I.embed(a[0])
        return const(bool(norm.opaque_heads(v)))

    @reg
    def debug(I, a, k):
        for x in a:
            x = I.deref(x)
            if isinstance(x, Term):
                print("DEBUG", T.show(x, 8)[:1500])
            elif isinstance(x, ArrV):
                print("DEBUG", x.shape, [T.show(e, 6)[:400] for e in x.elems])
            elif isinstance(x, V.Ref):
                print("DEBUG", I.rec(x))
            else:
                print("DEBUG", x)
        return T.NONE
    return out
