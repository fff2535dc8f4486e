"""Models of Python builtins and external libraries for the abstract interpreter."""
from fractions import Fraction

from . import terms as T
from .terms import Term, mk, const, num
from . import arrays as A
from .arrays import ArrV, ShapeError, Unsupported
from . import models_np as NP
from . import models_obj as MO
from . import models_meth as MM
from .models_obj import getattr_special, setattr_special, subscript, setitem, delitem
from .models_meth import call_bmeth


def _iv():
    from . import interp
    return interp


# ------------------------------------------------------------------ builtins
TYPE_NAMES = ["int", "float", "complex", "bool", "str", "bytes", "list", "dict", "tuple", "set", "frozenset", "object", "type",
              "slice", "memoryview", "bytearray"]
FUNC_NAMES = ["len", "range", "enumerate", "zip", "map", "filter", "sorted", "reversed", "sum", "min", "max", "abs", "round", "any", "all",
              "isinstance", "issubclass", "getattr", "setattr", "hasattr", "delattr", "callable", "iter", "next", "print", "id", "hash", "repr",
              "vars", "dir", "open", "pow", "divmod", "format", "input", "chr", "ord", "globals", "locals", "super", "eval", "exec", "__import__"]


def make_builtins(I):
    V = _iv()
    d = {}
    for n in TYPE_NAMES + FUNC_NAMES:
        d[n] = V.ExtV(n)
    for n in V.BUILTIN_EXC:
        if "." not in n:
            d[n] = V.ExtV(n)
    d["True"], d["False"], d["None"] = T.TRUE, T.FALSE, T.NONE
    d["NotImplemented"] = mk("k", NotImplemented)
    d["Ellipsis"] = mk("k", Ellipsis)
    d["__name__"] = const("?")
    d["property"] = V.PyFn("property", lambda I, a, k: V.PropV(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"), a[2] if len(a) > 2 else None))
    d["staticmethod"] = V.PyFn("staticmethod", lambda I, a, k: V.StaticV(a[0]))
    d["classmethod"] = V.PyFn("classmethod", lambda I, a, k: V.ClassMethV(a[0]))
    return d


NP_ALIASES = {
    "numpy.lib.scimath": "numpy.emath", "numpy.emath": "numpy.emath", "numpy.lib._scimath_impl": "numpy.emath",
    "numpy.linalg": "numpy.linalg",
}


def ext_member(I, mod, name):
    V = _iv()
    full = mod + "." + name
    if mod == "numpy" or mod == "numpy.core" or mod == "numpy.lib":
        if name in ("pi",):
            return NP.PI
        if name == "e":
            return T.fn("exp", T.ONE)
        if name in ("inf", "infty", "Inf", "Infinity", "PINF"):
            return num(float("inf"))
        if name in ("nan", "NaN", "NAN"):
            return num(float("nan"))
        if name == "newaxis":
            return T.NONE
        if name == "__version__":
            return mk("ext", "numpy.__version__")
    if mod in ("math", "cmath") and name in ("pi", "inf", "nan", "e"):
        return {"pi": NP.PI, "inf": num(float("inf")), "nan": num(float("nan")), "e": T.fn("exp", T.ONE)}[name]
    if mod == "scipy.constants" and name in NP.SC:
        return NP.SC[name]
    if full in ("typing.Any",):
        return V.ExtV("object")
    if mod in ("builtins",):
        return I.builtins.get(name, V.ExtV(name))
    if full == "sys.float_info":
        return mk("ext", "sys.float_info")
    m = I.load(full) if full in I.overlay else None
    if m is not None:
        return m
    if full in ("os.sep", "os.path.sep"):
        return const("/")
    if full in ("os.linesep",):
        return const("\n")
    return V.ExtV(full)


def ext_decorator(I, name, v):
    base = name.split(".")[-1]
    if base in ("dataclass", "wraps", "abstractmethod", "njit", "jit", "final", "runtime_checkable", "total_ordering"):
        return v
    return v


# ------------------------------------------------------------------ context managers
def enter(I, cm):
    V = _iv()
    if isinstance(cm, V.PhiV):
        return I.dist(cm, lambda x: enter(I, x))
    if isinstance(cm, V.Ref) and I.rec(cm).kind == "inst":
        f = I.class_attr(I.rec(cm).meta, "__enter__") if isinstance(I.rec(cm).meta, V.ClassV) else None
        if f is not None:
            return I.call(V.BoundV(f, cm), [], {})
        if isinstance(I.rec(cm).meta, V.ClassV) and not any(isinstance(b, V.ExtV) and b.name not in ("object", "abc.ABC") for b in I.rec(cm).meta.mro):
            I.raise_("AttributeError", "__enter__")
    return cm


def exit_cm(I, cm):
    V = _iv()
    if isinstance(cm, V.Ref) and I.rec(cm).kind == "inst":
        f = I.class_attr(I.rec(cm).meta, "__exit__") if isinstance(I.rec(cm).meta, V.ClassV) else None
        if f is not None:
            I.call(V.BoundV(f, cm), [T.NONE, T.NONE, T.NONE], {})


# ------------------------------------------------------------------ generic elements
def elem_of(I, it):
    V = _iv()
    if isinstance(it, ArrV) and it.ndim:
        v = mk("sym", I.fresh("ix"), "int")
        try:
            x = A.index(it, (v,))
            return x.elems[0] if x.ndim == 0 else x
        except (Unsupported, ShapeError, IndexError):
            pass
    if isinstance(it, V.Ref) and I.rec(it).kind == "arr":
        return elem_of(I, I.deref(it))
    t = it if isinstance(it, Term) else I.embed(it)
    if t.op == "ext" and t.args[0] == "zip":
        return V.TupV([elem_of(I, x) for x in t.args[1:]])
    if t.op == "ext" and t.args[0] == "enumerate":
        return V.TupV([mk("elemindex", t.args[1]), elem_of(I, t.args[1])])
    return mk("elem", t)


def rep_of(I, it):
    """the generic item of an iterable of unknown length"""
    V = _iv()
    a = I.deref(it) if isinstance(it, V.Ref) and I.rec(it).kind == "arr" else it
    if isinstance(a, ArrV) and a.ndim:
        v = mk("sym", I.fresh("ix"), "int")
        try:
            x = A.index(a, (v,))
            return V.RepV(x.elems[0] if x.ndim == 0 else x, I.embed(it), (v, a.shape[0]))
        except (Unsupported, ShapeError, IndexError):
            pass
    return V.RepV(elem_of(I, it), I.embed(it))


def item_of(I, v, i):
    V = _iv()
    if isinstance(v, (V.TupV, V.IterV)) or isinstance(v, V.Ref) and I.rec(v).kind == "list":
        items = list(I.rec(v).data) if isinstance(v, V.Ref) else v.items[I.iter_pos(v):] if isinstance(v, V.IterV) else list(v.items)
        return MO.opt_index(I, items, i, "unpack")
    if isinstance(v, ArrV):
        return I.subscript(v, num(i))
    t = I.embed(v)
    if t.op == "elem" and t.args[0].op == "meth" and t.args[0].args[1] is const("items"):
        pass
    return mk("item", t, num(i))


def dict_update(I, ref, src, effect=False):
    V = _iv()
    if isinstance(src, V.PhiV):
        return I.branch(src.c, lambda: dict_update(I, ref, src.a, effect), lambda: dict_update(I, ref, src.b, effect), value=False)
    pairs = None
    if isinstance(src, V.Ref) and I.rec(src).kind == "dict":
        pairs = list(I.rec(src).data.values())
    elif src is T.NONE and not effect:
        I.raise_("TypeError", "'NoneType' object is not a mapping")
    else:
        its = I.iterate(src, True)
        if its is not None:
            pairs = []
            for x in its:
                if isinstance(x, V.TupV) and len(x.items) == 2:
                    pairs.append((x.items[0], x.items[1]))
                else:
                    pairs = None
                    break
    r = I.rec(ref)
    d = dict(r.data)
    if pairs is None:
        e = mk("elem", I.embed(src))
        k = mk("item", e, T.ZERO)
        d[I.hkey(k)] = (k, V.RepV(mk("item", e, T.ONE), I.embed(src)))
    else:
        for k, v in pairs:
            hk = I.hkey(k)
            if isinstance(v, V.OptV) and hk in d:
                old = d[hk][1]
                if not isinstance(old, (V.OptV, V.RepV)):
                    v = I.merge_val(v.c, v.v, old)
            d[hk] = (k, v)
    I.setrec(ref, d, "update", src)


def star_kwargs(I, d, kwargs):
    V = _iv()
    if isinstance(d, V.Ref) and I.rec(d).kind == "dict":
        for k, v in I.rec(d).data.values():
            if not (isinstance(k, Term) and k.op == "k" and isinstance(k.args[0], str)):
                raise V.Undecided("** with unknown keys")
            if isinstance(v, V.OptV):
                raise V.Undecided("** with conditional keys")
            kwargs[k.args[0]] = v
        return
    if isinstance(d, V.PhiV):
        da, db = {}, {}
        star_kwargs(I, d.a, da)
        star_kwargs(I, d.b, db)
        if set(da) == set(db):
            for k in da:
                kwargs[k] = I.merge_val(d.c, da[k], db[k])
            return
        raise V.Undecided("** with conditional keys")
    raise V.Undecided("** of unknown mapping at %s" % I.where())


def concat_str(I, parts):
    out = []
    for p in parts:
        if isinstance(p, Term) and p.op == "k" and isinstance(p.args[0], str):
            p = p.args[0]
        if isinstance(p, Term) and p.op == "fmt" and MO.is_str(p.args[0]) and p.args[1] is T.NONE:
            p = p.args[0]
            if p.op == "k":
                p = p.args[0]
        if isinstance(p, Term) and p.op == "concat":
            sub = list(p.args)
        else:
            sub = [p]
        for q in sub:
            if isinstance(q, Term) and q.op == "k" and isinstance(q.args[0], str):
                q = q.args[0]
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != "":
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1:
        return const(out[0]) if isinstance(out[0], str) else (out[0] if MO.is_str(out[0]) else mk("concat", out[0]))
    return mk("concat", *[const(x) if isinstance(x, str) else x for x in out])


# ------------------------------------------------------------------ opaque references
def opq_operand(I, v):
    return I.embed(v)


def opq_array(I, v):
    return A.scalar(I.embed(v))


def opq_attr(I, o, name, default):
    V = _iv()
    r = I.rec(o)
    if isinstance(r.data, dict) and name in r.data:
        return r.data[name]
    return V.BMeth(o, name) if name.startswith("do_") else mk("attr", I.embed(o), const(name))


def opq_setattr(I, o, name, v):
    r = I.rec(o)
    d = dict(r.data) if isinstance(r.data, dict) else {}
    d[name] = v
    I.setrec(o, d, name, v, kind="attr")


def opq_subscript(I, o, k):
    return mk("item", I.embed(o), I.embed(k))


def opq_setitem(I, o, k, v):
    I.opaque_effect("setitem", o, v)


def opq_method(I, o, name, args, kwargs):
    I.note_may_raise()
    return mk("meth", I.embed(o), const(name), *[I.embed(a) for a in args])


def call_opq(I, f, args, kwargs):
    return call_opaque(I, f, args, kwargs)


def call_opaque(I, f, args, kwargs):
    V = _iv()
    I.note_may_raise()
    t = I.embed(f)
    I.calls_opaque.add(T.show(t, 3))
    ar = [I.embed(a) for a in args] + MM.kwterms(I, kwargs)
    if t.op == "attr":
        return mk("meth", t.args[0], t.args[1], *ar)
    if t.op == "sym" and t.args[1] == "func" and not kwargs:
        # unknown pure scalar function, applied elementwise
        arrs = [I.num_operand(a) for a in args]
        return I.lift(lambda *xs: mk("fn", "call:" + t.args[0], *xs), *arrs)
    return mk("call", t, *ar)


# ------------------------------------------------------------------ operators
REFL = {"Add": "__radd__", "Sub": "__rsub__", "Mult": "__rmul__", "Div": "__rtruediv__", "Pow": "__rpow__", "MatMult": "__rmatmul__",
        "Mod": "__rmod__", "FloorDiv": "__rfloordiv__", "BitAnd": "__rand__", "BitOr": "__ror__", "BitXor": "__rxor__"}
NOTIMPL = mk("k", NotImplemented)


def inst_cls(I, v):
    V = _iv()
    if isinstance(v, V.Ref):
        r = I.rec(v)
        if r.kind == "inst" and isinstance(r.meta, V.ClassV):
            return r.meta
    return None


def try_dunder(I, obj, name, args):
    V = _iv()
    c = inst_cls(I, obj)
    f = I.class_attr(c, name) if c is not None else None
    if f is None:
        return NOTIMPL
    return I.call(V.BoundV(f, obj), args, {})


def opname(v, I):
    V = _iv()
    if isinstance(v, V.Ref):
        r = I.rec(v)
        return r.meta.name if r.kind == "inst" and hasattr(r.meta, "name") else r.kind
    return type(v).__name__


SET_OPS = {"BitAnd": "intersection", "BitOr": "union", "Sub": "difference", "BitXor": "symmetric_difference"}


def as_set(I, v):
    """the set of a set, a dict's keys() or its items(), or None"""
    V = _iv()
    if isinstance(v, V.Ref) and I.rec(v).kind in ("set", "frozenset"):
        return v
    if isinstance(v, V.IterV) and v.view in ("keys", "items"):
        if any(isinstance(x, (V.OptV, V.RepV)) for x in v.items):
            raise V.Undecided("set operation on conditional keys")
        return I.alloc("set", {I.hkey(x): x for x in v.items})
    return None


def binop_special(I, op, a, b):
    V = _iv()
    ca, cb = inst_cls(I, a), inst_cls(I, b)
    if (ca is not None or cb is not None) and not (op == "Mod" and isinstance(a, Term) and MO.is_str(a)):
        return inst_binop(I, op, a, b, ca, cb)
    if op in SET_OPS:
        x, y = as_set(I, a), as_set(I, b)
        if x is not None and (y is not None or isinstance(a, V.IterV) and I.iterate(b, True) is not None):
            return MM.set_method(I, x, I.rec(x), SET_OPS[op], [b if y is None else y], {})
    ka = I.rec(a).kind if isinstance(a, V.Ref) else None
    kb = I.rec(b).kind if isinstance(b, V.Ref) else None
    if op == "Add":
        if ka == "list" and kb == "list":
            return I.new_list(I.rec(a).data + I.rec(b).data)
        if isinstance(a, V.TupV) and isinstance(b, V.TupV):
            return V.TupV(a.items + b.items)
        if isinstance(a, Term) and isinstance(b, Term) and (MO.is_str(a) or MO.is_str(b)):
            if MO.is_str(a) and MO.is_str(b):
                return concat_str(I, [a, b])
            other = b if MO.is_str(a) else a
            if MO.is_numeric(other) or other is T.NONE:
                I.raise_("TypeError", "can only concatenate str to str")
            return concat_str(I, [a, b])
        if ka == "list" and (kb not in ("list", "arr", "opq") and not isinstance(b, (ArrV,)) and (not isinstance(b, Term) or MO.is_numeric(b) or T.is_const(b))):
            I.raise_("TypeError", "can only concatenate list to list")
        if kb == "list" and ka is None and not isinstance(a, ArrV) and (not isinstance(a, Term) or MO.is_numeric(a) or T.is_const(a)):
            I.raise_("TypeError", "unsupported operand for +: list")
    if op == "Mult":
        for x, y, kx in ((a, b, ka), (b, a, kb)):
            if (kx == "list" or isinstance(x, V.TupV)) and isinstance(y, Term):
                items = list(x.items) if isinstance(x, V.TupV) else list(I.rec(x).data)
                if T.is_num(y) and y.args[0].denominator == 1 and y.args[0] <= I.UNROLL:
                    out = items * max(0, int(y.args[0]))
                elif MO.is_numeric(y) or not T.is_const(y):
                    out = [V.RepV(z, y) for z in items]
                    if len(items) > 1:
                        out = [V.RepV(V.TupV(items), y)]
                        raise V.Undecided("symbolic repetition of a sequence")
                else:
                    I.raise_("TypeError", "can't multiply sequence")
                return V.TupV(out) if isinstance(x, V.TupV) else I.new_list(out)
            if isinstance(x, Term) and x.op == "k" and isinstance(x.args[0], str) and isinstance(y, Term) and T.is_num(y):
                return const(x.args[0] * int(y.args[0]))
    if op == "Mod" and isinstance(a, Term) and MO.is_str(a):
        if a.op == "k":
            from . import models_call as MC
            bv = b.items if isinstance(b, V.TupV) else [b]
            try:
                if kb == "dict":
                    vals = MC.pyval(I, b)
                else:
                    vals = tuple(MC.pyval(I, MC.to_str(I, x) if isinstance(x, V.Ref) and "%s" in a.args[0] else x) for x in bv)
            except ValueError:
                vals = None
            if vals is not None:
                try:
                    return const(a.args[0] % vals)
                except (TypeError, ValueError) as e:
                    I.raise_(type(e).__name__, str(e))
        return mk("strmeth", const("%"), a, I.embed(b))
    if op == "BitOr":
        if ka == "dict" and kb == "dict":
            n = I.alloc("dict", dict(I.rec(a).data))
            dict_update(I, n, b)
            return n
        if isinstance(a, (V.ClassV, V.ExtV, V.TupV)) and isinstance(b, (V.ClassV, V.ExtV)) or isinstance(a, (V.ClassV, V.ExtV)) and b is T.NONE:
            return V.TupV((a.items if isinstance(a, V.TupV) else (a,)) + (b,))
    for x in (a, b):
        if x is T.NONE or isinstance(x, (V.FuncV, V.BoundV, V.ModV, V.ClassV)):
            I.raise_("TypeError", "unsupported operand type(s) for %s" % op)
        if isinstance(x, V.Ref) and I.rec(x).kind in ("dict", "set"):
            I.raise_("TypeError", "unsupported operand type(s) for %s" % op)
        if isinstance(x, Term) and MO.is_str(x):
            y = b if x is a else a
            if isinstance(y, (Term,)) and (MO.is_numeric(y) or MO.is_str(y)) or isinstance(y, ArrV):
                I.raise_("TypeError", "unsupported operand type(s) for %s" % op)
    if isinstance(a, Term) and isinstance(b, Term) and (T.is_num(b) and b.args[0] == 0) and op in ("Div", "FloorDiv", "Mod") and T.is_num(a):
        I.raise_("ZeroDivisionError", "division by zero")
    if ka == "list" and isinstance(b, ArrV) or kb == "list" and isinstance(a, ArrV) or ka == "list" and kb == "arr" or ka == "arr" and kb == "list" or isinstance(a, V.TupV) and (isinstance(b, ArrV) or kb == "arr") or isinstance(b, V.TupV) and (isinstance(a, ArrV) or ka == "arr"):
        try:
            return I.binop(op, NP.to_arr(I, a), NP.to_arr(I, b))
        except NP.Bad:
            return None
    if op in ("Sub", "Div", "Pow", "FloorDiv", "Mod", "MatMult", "Add"):
        for x, kx, y in ((a, ka, b), (b, kb, a)):
            if (kx == "list" or isinstance(x, V.TupV)) and isinstance(y, Term) and (T.is_num(y) or y.op == "sym" and MO.is_numeric(y)):
                I.raise_("TypeError", "unsupported operand type(s) for %s: 'list' and number" % op)
    return None


def inst_binop(I, op, a, b, ca, cb):
    V = _iv()
    order = [(a, V.DUNDER[op], b), (b, REFL.get(op), a)]
    if ca is not None and cb is not None and ca is not cb and ca in cb.mro and I.class_attr(cb, REFL.get(op, "")) is not I.class_attr(ca, REFL.get(op, "")):
        order.reverse()
    if ca is not None and ca is cb:
        order = order[:1]
    # numpy arrays on the left broadcast over objects: not modelled
    if ca is None and isinstance(I.deref(a), ArrV) and I.class_attr(cb, "__array_ufunc__") is None and I.class_attr(cb, "__array__") is None:
        pass
    return _try_ops(I, op, a, b, order, 0)


def _try_ops(I, op, a, b, order, i):
    V = _iv()
    if i == len(order):
        ext = []
        for x in (a, b):
            c = inst_cls(I, x)
            if c is not None:
                ext += [m for m in c.mro if isinstance(m, V.ExtV) and m.name not in ("object", "abc.ABC", "ABC", "enum.Enum")]
        if ext:
            return mk("ext", "binop:" + op, I.embed(a), I.embed(b))
        I.raise_("TypeError", "unsupported operand type(s) for %s: %s and %s" % (op, opname(a, I), opname(b, I)))
    obj, name, other = order[i]
    if inst_cls(I, obj) is None or name is None:
        return _try_ops(I, op, a, b, order, i + 1)
    r = try_dunder(I, obj, name, [other])
    return _notimpl(I, r, lambda: _try_ops(I, op, a, b, order, i + 1))


def _notimpl(I, r, nxt):
    V = _iv()
    if r is NOTIMPL:
        return nxt()
    if isinstance(r, V.PhiV):
        return I.branch(r.c, lambda: _notimpl(I, r.a, nxt), lambda: _notimpl(I, r.b, nxt))
    if isinstance(r, Term) and r.op == "ite" and (r.args[1] is NOTIMPL or r.args[2] is NOTIMPL):
        return I.branch(r.args[0], lambda: _notimpl(I, r.args[1], nxt), lambda: _notimpl(I, r.args[2], nxt))
    return r


CMP = {"Lt": ("__lt__", "__gt__"), "Gt": ("__gt__", "__lt__"), "LtE": ("__le__", "__ge__"), "GtE": ("__ge__", "__le__")}


def cmp_special(I, op, a, b):
    V = _iv()
    ca, cb = inst_cls(I, a), inst_cls(I, b)
    if ca is not None or cb is not None:
        n1, n2 = CMP[op]
        order = [(a, n1, b), (b, n2, a)]
        for obj, n, other in order:
            if inst_cls(I, obj) is not None and I.class_attr(inst_cls(I, obj), n) is not None:
                r = try_dunder(I, obj, n, [other])
                if r is not NOTIMPL:
                    return r
        c = ca or cb
        if any(isinstance(m, V.ExtV) and m.name not in ("object", "abc.ABC", "ABC") for m in c.mro):
            return mk("fn", "truth", mk("ext", "cmp:" + op, I.embed(a), I.embed(b)))
        I.raise_("TypeError", "'%s' not supported" % op)
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op == "k" and b.op == "k" and isinstance(a.args[0], str) and isinstance(b.args[0], str):
            x, y = a.args[0], b.args[0]
            return const({"Lt": x < y, "Gt": x > y, "LtE": x <= y, "GtE": x >= y}[op])
        for x, y in ((a, b), (b, a)):
            if x is T.NONE or (MO.is_str(x) and (MO.is_numeric(y))):
                I.raise_("TypeError", "'%s' not supported between these types" % op)
        if MO.is_str(a) or MO.is_str(b):
            return mk("fn", "truth", mk("ext", "cmp:" + op, a, b))
        if a.op in ("ext", "meth", "attr", "item", "elem") and T.isbool(b) or b.op in ("ext",) and b.args[0].startswith("packaging"):
            return mk("fn", "truth", mk("ext", "cmp:" + op, a, b))
    if isinstance(a, V.TupV) and isinstance(b, V.TupV):
        if all(isinstance(x, Term) and T.is_const(x) for x in a.items + b.items):
            x, y = tuple(T.cval(z) for z in a.items), tuple(T.cval(z) for z in b.items)
            return const({"Lt": x < y, "Gt": x > y, "LtE": x <= y, "GtE": x >= y}[op])
        return mk("fn", "truth", mk("ext", "cmp:" + op, I.embed(a), I.embed(b)))
    if isinstance(a, V.IterV) or isinstance(b, V.IterV):
        x, y = as_set(I, a), as_set(I, b)
        if x is not None and y is not None:
            a, b = x, y
    ka = I.rec(a).kind if isinstance(a, V.Ref) else None
    kb = I.rec(b).kind if isinstance(b, V.Ref) else None
    if ka in ("set", "frozenset") and kb in ("set", "frozenset"):
        da, db = I.rec(a).data, I.rec(b).data
        sub = all(k in db for k in da)
        sup = all(k in da for k in db)
        return const({"LtE": sub, "GtE": sup, "Lt": sub and not sup, "Gt": sup and not sub}[op])
    for x in (a, b):
        if isinstance(x, V.Ref) and I.rec(x).kind in ("dict",) or isinstance(x, (V.FuncV, V.ClassV)):
            I.raise_("TypeError", "comparison not supported")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, V.Ref) and I.rec(x).kind == "list" or isinstance(x, V.TupV):
            if isinstance(I.deref(y), ArrV):
                try:
                    xa = NP.to_arr(I, x)
                except NP.Bad:
                    return mk("fn", "truth", mk("ext", "cmp:" + op, I.embed(a), I.embed(b)))
                return I.compare(op, xa, b) if x is a else I.compare(op, a, xa)
            if isinstance(y, Term) and MO.is_numeric(y):
                I.raise_("TypeError", "comparison of sequence with number")
            return mk("fn", "truth", mk("ext", "cmp:" + op, I.embed(a), I.embed(b)))
    return None


def is_(I, a, b):
    V = _iv()
    if a is b:
        return T.TRUE
    if isinstance(a, Term) and isinstance(b, Term):
        if T.is_const(a) and T.is_const(b):
            if a.op == "n" and b.op == "n":
                return const(a is b)
            return const(a is b)
        for x, y in ((a, b), (b, a)):
            if x is T.NONE or x is T.NA or (x.op == "k" and isinstance(x.args[0], bool)) or x is NOTIMPL:
                if MO.is_numeric(y) or MO.is_str(y) or y.op in ("tuple", "arr", "obj"):
                    if y.op == "sym" and y.args[1] == "bool" or T.isbool(y):
                        return T.eq(x, y) if x is not T.NONE and x is not T.NA else T.FALSE
                    return T.FALSE
                if y.op == "ite":
                    return T.ite(y.args[0], is_(I, y.args[1], x), is_(I, y.args[2], x))
                return T.eq(y, x)
        return T.eq(a, b)
    if isinstance(a, V.Ref) and isinstance(b, V.Ref):
        if a.oid == b.oid:
            return T.TRUE
        ra, rb = I.rec(a), I.rec(b)
        if ra.kind == "opq" and rb.kind == "opq" and isinstance(ra.meta, Term) and isinstance(rb.meta, Term):
            return T.eq(ra.meta, rb.meta)
        return T.FALSE
    if isinstance(a, V.ExtV) and isinstance(b, V.ExtV):
        return const(norm_ext(a.name) == norm_ext(b.name))
    if type(a) is type(b) and not isinstance(a, (Term,)):
        if isinstance(a, V.BoundV):
            return T.FALSE
        if isinstance(a, V.PyFn):
            return const(a.name == b.name)
        return T.FALSE
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Term) and not T.is_const(x) and not MO.is_numeric(x) and not isinstance(y, Term):
            return T.eq(x, I.embed(y))
    return T.FALSE


def norm_ext(n):
    n = n.split("builtins.")[-1]
    return {"numpy.core.multiarray.ndarray": "numpy.ndarray", "ABC": "abc.ABC", "IOError": "OSError"}.get(n, n)


def eq_(I, a, b):
    V = _iv()
    if isinstance(a, V.PhiV):
        return I.dist(a, lambda x: eq_(I, x, b))
    if isinstance(b, V.PhiV):
        return I.dist(b, lambda x: eq_(I, a, x))
    if isinstance(a, V.IterV) or isinstance(b, V.IterV):
        x, y = as_set(I, a), as_set(I, b)
        if x is not None and y is not None:
            a, b = x, y
    ca, cb = inst_cls(I, a), inst_cls(I, b)
    if ca is not None or cb is not None:
        for obj, other in ((a, b), (b, a)):
            c = inst_cls(I, obj)
            if c is not None:
                f = I.class_attr(c, "__eq__")
                if f is not None:
                    r = I.call(V.BoundV(f, obj), [other], {})
                    if r is not NOTIMPL:
                        return r
                elif c.flags.get("dataclass") and inst_cls(I, other) is c:
                    da, db = I.rec(obj).data, I.rec(other).data
                    return T.land(*[I.truth(eq_(I, da[k], db[k])) for k in da if k in db])
        if isinstance(a, V.Ref) and isinstance(b, V.Ref) and a.oid == b.oid:
            return T.TRUE
        return T.FALSE
    xa, xb = I.deref(a), I.deref(b)
    if isinstance(xa, ArrV) or isinstance(xb, ArrV):
        for p, q in ((xa, xb), (xb, xa)):
            if isinstance(p, ArrV) and isinstance(q, Term) and (q is T.NONE or MO.is_str(q)):
                if q is T.NONE:
                    return T.FALSE
        try:
            return I.lift(T.eq, I.num_operand(a) if isinstance(xa, (ArrV, Term)) else NP.to_arr(I, a), I.num_operand(b) if isinstance(xb, (ArrV, Term)) else NP.to_arr(I, b))
        except NP.Bad:
            return mk("fn", "truth", mk("ext", "eq", I.embed(a), I.embed(b)))
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op == "k" and isinstance(a.args[0], bool) and T.is_num(b):
            a = num(int(a.args[0]))
        if b.op == "k" and isinstance(b.args[0], bool) and T.is_num(a):
            b = num(int(b.args[0]))
        if (MO.is_str(a) or a is T.NONE) and MO.is_numeric(b) or (MO.is_str(b) or b is T.NONE) and MO.is_numeric(a):
            return T.FALSE
        if (a is T.NONE and MO.is_str(b)) or (b is T.NONE and MO.is_str(a)):
            return T.FALSE
        return T.eq(a, b)
    if isinstance(a, V.TupV) and isinstance(b, V.TupV):
        if len(a.items) != len(b.items):
            return T.FALSE
        return T.land(*[I.truth(eq_(I, x, y)) for x, y in zip(a.items, b.items)]) if a.items else T.TRUE
    if isinstance(a, V.Ref) and isinstance(b, V.Ref):
        ra, rb = I.rec(a), I.rec(b)
        if a.oid == b.oid:
            return T.TRUE
        if ra.kind == rb.kind == "list":
            if any(isinstance(x, (V.OptV, V.RepV)) for x in ra.data + rb.data):
                return mk("fn", "truth", mk("ext", "eq", I.embed(a), I.embed(b)))
            if len(ra.data) != len(rb.data):
                return T.FALSE
            return T.land(*[I.truth(eq_(I, x, y)) for x, y in zip(ra.data, rb.data)]) if ra.data else T.TRUE
        if ra.kind == rb.kind == "dict":
            if set(ra.data) != set(rb.data):
                if all(I.known_key(x) for x in list(ra.data) + list(rb.data)):
                    return T.FALSE
                return mk("fn", "truth", mk("ext", "eq", I.embed(a), I.embed(b)))
            return T.land(*[I.truth(eq_(I, ra.data[k][1], rb.data[k][1])) for k in ra.data]) if ra.data else T.TRUE
        if ra.kind in ("set", "frozenset") and rb.kind in ("set", "frozenset"):
            return const(set(ra.data) == set(rb.data))
        return T.FALSE
    if isinstance(a, V.BoundV) and isinstance(b, V.BoundV):
        return const(a.func is b.func and a.self == b.self)
    if isinstance(a, V.SliceV) and isinstance(b, V.SliceV):
        return T.land(*[eq_(I, getattr(a, n), getattr(b, n)) for n in ("lo", "hi", "step")])
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Term) and not isinstance(y, Term):
            if T.is_const(x) or MO.is_numeric(x) or MO.is_str(x):
                return T.FALSE
            return mk("fn", "truth", mk("ext", "eq", x, I.embed(y)))
    return is_(I, a, b)


def contains(I, a, b):
    """a in b"""
    V = _iv()
    if isinstance(b, V.PhiV):
        return I.dist(b, lambda x: contains(I, a, x))
    if isinstance(b, V.Ref):
        r = I.rec(b)
        if r.kind == "inst" and isinstance(r.meta, V.ClassV):
            f = I.class_attr(r.meta, "__contains__")
            if f is not None:
                return I.truth(I.call(V.BoundV(f, b), [a], {}))
            if I.class_attr(r.meta, "__iter__") is None:
                if any(isinstance(m, V.ExtV) and m.name not in ("object", "abc.ABC", "ABC") for m in r.meta.mro):
                    return mk("fn", "contains", I.embed(b), I.embed(a))
                I.raise_("TypeError", "argument is not iterable")
        if r.kind in ("dict", "set", "frozenset"):
            hk = I.hkey(a)
            if hk in r.data:
                v = r.data[hk][1] if r.kind == "dict" else r.data[hk]
                return v.c if isinstance(v, V.OptV) else T.TRUE
            if I.known_key(hk) and all(I.known_key(x) for x in r.data):
                return T.FALSE
        if r.kind == "arr":
            b = I.deref(b)
    if isinstance(b, ArrV):
        if all(A.isint(d) for d in b.shape):
            return T.lor(*[T.eq(I.embed(a), e) for e in b.elems])
        return mk("fn", "any", I.embed(I.compare("Eq", b, a)))
    if isinstance(b, Term):
        if isinstance(a, Term) and a.op == "k" and b.op == "k" and isinstance(a.args[0], str) and isinstance(b.args[0], str):
            return const(a.args[0] in b.args[0])
        if b is T.NONE or MO.is_numeric(b):
            I.raise_("TypeError", "argument is not iterable")
        return mk("fn", "contains", b, I.embed(a))
    if isinstance(b, (V.FuncV, V.BoundV)):
        I.raise_("TypeError", "argument is not iterable")
    items = I.iterate(b, True)
    if items is None:
        return mk("fn", "contains", I.embed(b), I.embed(a))
    if len(items) > 4 and isinstance(a, Term) and a.op == "sym" and a.args[1] in ("int", "posint") and all(isinstance(x, Term) and T.is_num(x) for x in items):
        vals = sorted({x.args[0] for x in items})
        if all(v == int(v) for v in vals) and vals[-1] - vals[0] == len(vals) - 1:
            return T.land(I.compare("LtE", num(vals[0]), a), I.compare("LtE", a, num(vals[-1])))      # a run of integers
    cs = []
    for x in items:
        g = T.TRUE
        if isinstance(x, V.OptV):
            g, x = x.c, x.v
        if isinstance(x, V.RepV):
            cs.append(mk("fn", "contains", I.embed(b), I.embed(a)))
            continue
        c = T.lor(is_(I, a, x) if not isinstance(x, Term) else T.FALSE, I.truth(eq_(I, a, x)))
        cs.append(T.land(g, c))
    return T.lor(*cs) if cs else T.FALSE


def iterate_special(I, v):
    V = _iv()
    if isinstance(v, V.ExtV):
        return None
    if isinstance(v, V.ClassV):
        return None
    if isinstance(v, Term):
        if v.op in ("tuple", "list") and not any(x.op in ("opt",) for x in v.args):
            return list(v.args)
        if v.op == "ite":
            a, b = I.iterate(v.args[1], True), I.iterate(v.args[2], True)
            if a is not None and b is not None:
                return I.iterate(V.PhiV(v.args[0], V.TupV(a), V.TupV(b)), True)
        if v is T.NONE or (v.op == "k" and not isinstance(v.args[0], (str, bytes))) or MO.is_numeric(v):
            I.raise_("TypeError", "object is not iterable")
        return None
    if isinstance(v, V.Ref):
        r = I.rec(v)
        if r.kind == "inst" and isinstance(r.meta, V.ClassV):
            if I.class_attr(r.meta, "__getitem__") is not None:
                return None
            if not any(isinstance(m, V.ExtV) and m.name not in ("object", "abc.ABC", "ABC") for m in r.meta.mro):
                I.raise_("TypeError", "'%s' object is not iterable" % r.meta.name)
    if isinstance(v, ArrV) and v.ndim == 0:
        I.raise_("TypeError", "iteration over a 0-d array")
    if isinstance(v, (V.FuncV, V.BoundV, V.ModV)):
        I.raise_("TypeError", "object is not iterable")
    return None


def length(I, v):
    V = _iv()
    if isinstance(v, V.PhiV):
        return I.dist(v, lambda x: length(I, x))
    c = inst_cls(I, v)
    if c is not None:
        f = I.class_attr(c, "__len__")
        if f is not None:
            return I.call(V.BoundV(f, v), [], {})
        if any(isinstance(m, V.ExtV) and m.name not in ("object", "abc.ABC", "ABC") for m in c.mro):
            return mk("ext", "len", I.embed(v))
        I.raise_("TypeError", "object of type '%s' has no len()" % c.name)
    d = I.deref(v)
    if isinstance(d, ArrV):
        if d.ndim == 0:
            I.raise_("TypeError", "len() of unsized object")
        return A.dimterm(d.shape[0])
    items = None
    if isinstance(v, V.TupV):
        items = v.items
    elif isinstance(v, V.IterV):
        I.raise_("TypeError", "object of type 'generator' has no len()") if not v.view else None
        items = v.items
    elif isinstance(v, V.Ref):
        r = I.rec(v)
        if r.kind == "list":
            items = r.data
        elif r.kind in ("set", "frozenset"):
            items = list(r.data.values())
        elif r.kind == "dict":
            items = [x[1] for x in r.data.values()]
    elif isinstance(v, Term):
        if v.op == "k" and isinstance(v.args[0], (str, bytes)):
            return num(len(v.args[0]))
        if v is T.NONE or MO.is_numeric(v):
            I.raise_("TypeError", "object has no len()")
        if v.op in ("tuple", "list"):
            items = v.args
    if items is None:
        return mk("ext", "len", I.embed(v))
    n = T.ZERO
    k = 0
    for x in items:
        if isinstance(x, V.OptV):
            n = T.add(n, T.ite(x.c, T.ONE, T.ZERO))
        elif isinstance(x, V.RepV):
            n = T.add(n, mk("ext", "len", x.n))
        else:
            k += 1
    return T.add(n, num(k))


from .models_call import (builtin_call, call_ext, np_call, class_special, dataclass_init, ext_base_init, super_ext,  # noqa: E402
                          inst_builtin_attr, ext_inst_attr, isinst, deepcopy)
