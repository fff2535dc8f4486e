"""Calls of builtins and external functions."""
from fractions import Fraction

from . import terms as T
from .terms import Term, mk, const, num
from . import arrays as A
from .arrays import ArrV, ShapeError, Unsupported
from . import models_np as NP
from . import models_obj as MO
from . import models_meth as MM


def _iv():
    from . import interp
    return interp


# ------------------------------------------------------------------ numpy dispatch
def np_call(I, name, args, kwargs):
    V = _iv()
    for i, a in enumerate(args):
        if isinstance(a, V.PhiV):
            return I.dist(a, lambda x: np_call(I, name, list(args[:i]) + [x] + list(args[i + 1:]), kwargs))
    w = [a for a in args if wrapper(I, a)]
    if w:
        raw = [unwrap(I, a) for a in args]
        r = np_call(I, name, raw, kwargs)
        if name in NP.UNARY or name in NP.BINARY:
            if not isinstance(I.deref(unwrap(I, w[0])), ArrV):
                return r
            if isinstance(I.deref(r), ArrV) and I.deref(r).shape == I.deref(unwrap(I, w[0])).shape:
                return I.call(I.getattr(w[0], "__vf_np__"), [r], {})
            raise V.Undecided("library model: numpy.%s of a table" % name)
        if name in ("sum", "mean", "min", "max", "std", "prod", "any", "all", "round", "around", "clip", "cumsum", "amin", "amax", "median", "diff") and len(I.deref(raw[0]).shape) != 1:
            raise V.Undecided("library model: numpy.%s of a table" % name)
        return r
    # operator-overloading objects: numpy functions of instances are opaque
    try:
        r = NP.call_np(I, name, list(args), dict(kwargs))
        if isinstance(r, ArrV) and r.shape == () and name not in ("array", "asarray"):
            return r.elems[0]
        return r
    except (ShapeError, IndexError, NP.Bad, Unsupported, KeyError, AttributeError, TypeError, AssertionError) as e:
        if isinstance(e, ShapeError) and not A.shaky(*operands(I, args)):
            I.raise_("ValueError", str(e))
        if isinstance(e, IndexError) and "out of bounds" in str(e) and not A.shaky(*operands(I, args)):
            I.raise_("IndexError", str(e))
        I.note_may_raise()
        if name in WRITES:
            kwargs = dict(kwargs, out=args[0])
        outs = [kwargs.get("out")] + (list(args[2:3]) if name in NP.BINARY else list(args[1:2]) if name in NP.UNARY else [])
        for o in outs:
            for x in (o.items if isinstance(o, V.TupV) else [o]):
                if isinstance(x, V.Ref) and I.rec(x).kind == "arr":
                    w = mk("ext", "numpy." + name, *[I.embed(a) for a in args], *MM.kwterms(I, kwargs))
                    I.setrec(x, I.rec(x).data.map(lambda t: mk("stored", t, w)), "out=")
                elif isinstance(x, ArrV) and x.roots:
                    raise V.Undecided("numpy.%s writes into a view" % name)
        I.calls_opaque.add("numpy.%s (%s: %s)" % (name, type(e).__name__, str(e)[:60]))
        return mk("ext", "numpy." + name, *[I.embed(a) for a in args], *MM.kwterms(I, kwargs))


WRITES = ("copyto", "put", "place", "putmask", "put_along_axis", "fill_diagonal", "add.at", "subtract.at", "multiply.at", "divide.at", "random.shuffle")


def operands(I, args):
    V = _iv()
    out = []
    for a in args:
        a = I.deref(a)
        if isinstance(a, V.TupV) or isinstance(a, V.Ref) and I.rec(a).kind == "list":
            out += operands(I, a.items if isinstance(a, V.TupV) else I.rec(a).data)
        else:
            out.append(a)
    return out


def wrapper(I, v):
    """instance of a library model class holding an array"""
    V = _iv()
    if isinstance(v, V.Ref) and I.rec(v).kind == "inst" and isinstance(I.rec(v).meta, V.ClassV):
        return I.class_attr(I.rec(v).meta, "__vf_wrap__") is not None
    return False


def unwrap(I, v):
    V = _iv()
    if isinstance(v, V.PhiV):
        return I.dist(v, lambda x: unwrap(I, x))
    return I.call(I.getattr(v, "__array__"), [], {}) if wrapper(I, v) else v


# ------------------------------------------------------------------ types
SEQ_NAMES = {"collections.abc.Sequence", "typing.Sequence", "collections.abc.MutableSequence", "collections.abc.Iterable", "typing.Iterable",
             "collections.abc.Collection", "collections.abc.Sized", "collections.abc.Container", "typing.List", "typing.Tuple"}
NUMBERS = {"numbers.Number", "numbers.Complex"}
REALS = {"numbers.Real"}


def int_term(v):
    """arithmetic over integers only"""
    if v.op == "n":
        return v.args[1] == "int"
    if v.op == "sym":
        return v.args[1] in ("int", "posint")
    if v.op in ("add", "mul"):
        return all(int_term(a) for a in v.args)
    if v.op == "fn" and v.args[0] in ("mod", "floordiv", "abs"):
        return all(int_term(a) for a in v.args[1:])
    return False


def type_set(I, v):
    """set of external type names v is an instance of; None = unknown; 'cls' handled elsewhere"""
    V = _iv()
    if isinstance(v, V.TupV):
        s = {"tuple", "object", "collections.abc.Sequence", "collections.abc.Iterable", "typing.Sequence", "typing.Tuple", "typing.Iterable", "collections.abc.Sized", "collections.abc.Collection", "collections.abc.Hashable"}
        return s
    if isinstance(v, ArrV):
        return {"numpy.ndarray", "object", "collections.abc.Iterable", "collections.abc.Sized", "collections.abc.Collection"}
    if isinstance(v, V.SliceV):
        return {"slice", "object"}
    if isinstance(v, (V.FuncV, V.BoundV, V.PyFn, V.PartialV, V.BMeth)):
        return {"object", "collections.abc.Callable", "typing.Callable", "types.FunctionType", "function", "collections.abc.Hashable"}
    if isinstance(v, V.ClassV):
        return {"type", "object", "collections.abc.Callable", "typing.Callable", "collections.abc.Hashable"} | ({"abc.ABCMeta"})
    if isinstance(v, V.ModV):
        return {"object", "types.ModuleType"}
    if isinstance(v, V.ExtV):
        if v.name in I.builtins:
            return {"type", "object", "collections.abc.Callable", "typing.Callable"} if v.name[0].isupper() or v.name in ("int", "float", "str", "list", "dict", "tuple", "set", "complex", "bool", "object") else {"object", "collections.abc.Callable", "typing.Callable"}
        return None
    if isinstance(v, V.IterV):
        return {"object", "collections.abc.Iterable", "typing.Iterable", "collections.abc.Iterator", "types.GeneratorType"}
    if isinstance(v, V.Ref):
        r = I.rec(v)
        if r.kind == "list":
            return {"list", "object", "collections.abc.Sequence", "collections.abc.MutableSequence", "collections.abc.Iterable", "typing.Sequence", "typing.List", "typing.Iterable", "collections.abc.Sized", "collections.abc.Collection"}
        if r.kind == "dict":
            return {"dict", "object", "collections.abc.Mapping", "collections.abc.MutableMapping", "typing.Dict", "typing.Mapping", "collections.abc.Iterable", "collections.abc.Sized", "collections.abc.Collection"}
        if r.kind == "set":
            return {"set", "object", "collections.abc.Set", "collections.abc.Iterable", "collections.abc.Sized"}
        if r.kind == "frozenset":
            return {"frozenset", "object", "collections.abc.Set", "collections.abc.Iterable"}
        if r.kind == "arr":
            return {"numpy.ndarray", "object", "collections.abc.Iterable", "collections.abc.Sized", "collections.abc.Collection"}
        if r.kind == "opq":
            return r.data.get("__types__") if isinstance(r.data, dict) else None
        return None
    if isinstance(v, Term):
        if v.op == "k":
            x = v.args[0]
            if x is None:
                return {"NoneType", "object"}
            if isinstance(x, bool):
                return {"bool", "int", "object", "numbers.Number", "numbers.Complex", "numbers.Real", "numbers.Integral"}
            if isinstance(x, str):
                return {"str", "object", "collections.abc.Sequence", "collections.abc.Iterable", "typing.Sequence", "collections.abc.Sized"}
            if isinstance(x, bytes):
                return {"bytes", "object"}
            return {"object", type(x).__name__}
        if v.op == "n":
            if v.args[1] == "int":
                return {"int", "object", "numbers.Number", "numbers.Complex", "numbers.Real", "numbers.Integral"}
            return {"float", "object", "numbers.Number", "numbers.Complex", "numbers.Real"}
        if MO.is_str(v):
            return {"str", "object", "collections.abc.Sequence", "collections.abc.Iterable"}
        if T.isbool(v) and not (v.op == "fn" and v.args[0] in ("truth",)):
            return {"bool", "int", "object", "numbers.Number"}
        if MO.is_numeric(v):
            if int_term(v):
                return {"int", "object", "numbers.Number", "numbers.Complex", "numbers.Real", "numbers.Integral"}
            if v.op == "ite":
                a, b = type_set(I, v.args[1]), type_set(I, v.args[2])
                return a if a == b else None
            if T.is_real(v):
                return {"float", "object", "numbers.Number", "numbers.Complex", "numbers.Real"}
            return {"complex", "object", "numbers.Number", "numbers.Complex"}
        if v.op in ("tuple", "list", "dict", "set"):
            return {v.op, "object", "collections.abc.Iterable"}
    return None


def isinst(I, v, c):
    V = _iv()
    from . import models as M
    if isinstance(v, V.PhiV):
        return I.dist(v, lambda x: isinst(I, x, c))
    if isinstance(v, Term) and v.op == "ite" and type_set(I, v) is None:
        return I.branch(v.args[0], lambda: isinst(I, v.args[1], c), lambda: isinst(I, v.args[2], c))
    if isinstance(c, V.TupV):
        return T.lor(*[isinst(I, v, x) for x in c.items]) if c.items else T.FALSE
    if isinstance(c, Term) and c is T.NONE:
        return M.is_(I, v, T.NONE)
    if isinstance(c, V.PhiV):
        return I.dist(c, lambda x: isinst(I, v, x))
    cls = M.inst_cls(I, v)
    if isinstance(c, V.ClassV):
        if cls is not None:
            return const(c in cls.mro)
        if isinstance(v, Term) and type_set(I, v) is None:
            return mk("fn", "isinst", v, const(c.name))
        return T.FALSE
    if isinstance(c, V.ExtV):
        n = M.norm_ext(c.name)
        if n in ("type", "abc.ABCMeta") and isinstance(v, V.ClassV):
            return T.TRUE
        if isinstance(v, V.Ref) and I.rec(v).kind == "inst":
            m = I.rec(v).meta
            if n == "object":
                return T.TRUE
            mro = m.mro if isinstance(m, V.ClassV) else [m]
            for b in mro:
                if isinstance(b, V.ExtV) and (M.norm_ext(b.name) == n or V.exc_isa(M.norm_ext(b.name), n)):
                    return T.TRUE
            if n in ("collections.abc.Callable", "typing.Callable"):
                return const(isinstance(m, V.ClassV) and I.class_attr(m, "__call__") is not None)
            if n in ("collections.abc.Iterable",):
                return const(isinstance(m, V.ClassV) and I.class_attr(m, "__iter__") is not None)
            if n in ("collections.abc.Sized",):
                return const(isinstance(m, V.ClassV) and I.class_attr(m, "__len__") is not None)
            unknown = [b for b in mro if isinstance(b, V.ExtV) and M.norm_ext(b.name) not in ("object", "abc.ABC") and M.norm_ext(b.name) not in V.BUILTIN_EXC]
            if unknown and n not in ("str", "int", "float", "complex", "bool", "list", "tuple", "NoneType", "numpy.ndarray"):
                return mk("fn", "isinst", I.embed(v), const(n))
            return T.FALSE
        ts = type_set(I, v)
        if ts is None:
            return mk("fn", "isinst", I.embed(v), const(n))
        if n in ts:
            return T.TRUE
        if n.startswith("numpy.") and n != "numpy.ndarray" and "numbers.Number" in ts and isinstance(v, Term) and not T.is_const(v):
            return T.FALSE
        return T.FALSE
    if isinstance(c, (V.FuncV, V.PyFn)):
        I.raise_("TypeError", "isinstance() arg 2 must be a type")
    return mk("fn", "isinst", I.embed(v), I.embed(c))


def type_of(I, v):
    V = _iv()
    if isinstance(v, V.PhiV):
        return I.dist(v, lambda x: type_of(I, x))
    if isinstance(v, V.Ref) and I.rec(v).kind == "inst":
        return I.rec(v).meta
    if isinstance(v, (V.FuncV, V.PyFn)):
        return V.ExtV("function")
    if isinstance(v, V.BoundV):
        return V.ExtV("method")
    if isinstance(v, V.ClassV):
        return V.ExtV("type")
    ts = type_set(I, v)
    if ts is not None:
        for n in ("bool", "int", "float", "complex", "str", "bytes", "list", "dict", "tuple", "set", "frozenset", "numpy.ndarray", "slice", "NoneType"):
            if n in ts:
                return V.ExtV(n)
    return mk("ext", "type", I.embed(v))


# ------------------------------------------------------------------ builtins
def py_float(I, v):
    V = _iv()
    v = I.num_operand(v)
    if isinstance(v, ArrV):
        if len(v.elems) == 1:
            return v.elems[0]
        I.raise_("TypeError", "only length-1 arrays can be converted")
    if v.op == "n":
        return mk("n", v.args[0], "float")
    if v.op == "k":
        x = v.args[0]
        if isinstance(x, bool):
            return num(float(x))
        if isinstance(x, str):
            if x.strip() in V.NUMERALS:
                return V.NUMERALS[x.strip()]
            try:
                f = float(x)
            except ValueError:
                I.raise_("ValueError", "could not convert string to float")
            if f != f or f in (float("inf"), float("-inf")):
                return num(f)
            try:
                return mk("n", Fraction(x.strip().replace("_", "")), "float")
            except ValueError:
                return num(f)
        I.raise_("TypeError", "float() argument must be a string or a real number")
    if MO.is_numeric(v):
        if T.is_real(v):
            return v
        # complex argument -> TypeError
        if v.op == "sym" or not _maybe_real(v):
            I.raise_("TypeError", "can't convert complex to float")
        return v
    I.note_may_raise()
    if v.op in ("ext", "meth", "attr", "item", "elem", "strmeth", "call"):
        return mk("fn", "float", v)
    return mk("fn", "float", v)


def _maybe_real(v):
    return True


def py_int(I, v, *rest):
    v = I.num_operand(v)
    if isinstance(v, ArrV) and len(v.elems) == 1:
        v = v.elems[0]
    if not isinstance(v, Term):
        I.raise_("TypeError", "int() argument")
    if v.op == "n":
        if isinstance(v.args[0], float):
            I.raise_("ValueError", "cannot convert float to integer")
        q = v.args[0]
        return num(int(q))
    if v.op == "k":
        x = v.args[0]
        if isinstance(x, bool):
            return num(int(x))
        if isinstance(x, str):
            try:
                return num(int(x, *[T.cval(r) for r in rest]))
            except ValueError:
                I.raise_("ValueError", "invalid literal for int()")
        I.raise_("TypeError", "int() argument")
    if v.op == "sym" and v.args[1] in ("int", "posint"):
        return v
    if T.isbool(v):
        return T.ite(v, T.ONE, T.ZERO)
    I.note_may_raise()
    return mk("fn", "trunc", v)


def gated(I, items, f, init):
    """fold f over items with conditional presence"""
    V = _iv()
    acc = init
    for x in items:
        if isinstance(x, V.OptV):
            prev = acc
            acc = I.branch(x.c, lambda: f(prev, x.v), lambda: prev)
        elif isinstance(x, V.RepV):
            return None
        else:
            acc = f(acc, x)
    return acc


def make_class(I, args):
    V = _iv()
    name, bases, ns = args[:3]
    if not (isinstance(name, Term) and T.is_const(name) and isinstance(bases, V.TupV) and isinstance(ns, V.Ref) and I.rec(ns).kind == "dict"):
        raise V.Undecided("dynamic class creation")
    attrs = {}
    for k, (kt, v) in I.rec(ns).data.items():
        if not (isinstance(kt, Term) and T.is_const(kt)):
            raise V.Undecided("dynamic class creation")
        attrs[T.cval(kt)] = v
    bs = [b if isinstance(b, (V.ClassV, V.ExtV)) else V.ExtV("opaque.base") for b in bases.items] or [V.ExtV("object")]
    ref = I.alloc("cls", attrs)
    mod = next((b.module for b in bs if isinstance(b, V.ClassV)), I.frame.module)
    c = V.ClassV(T.cval(name), bs, ref.oid, mod, None)
    c.doc = None
    c.annotations = []
    return c


def builtin_call(I, name, args, kwargs):
    V = _iv()
    from . import models as M
    a0 = args[0] if args else None
    if name == "len":
        return M.length(I, a0)
    if name == "isinstance":
        return isinst(I, a0, args[1])
    if name == "issubclass":
        return issub(I, a0, args[1])
    if name == "type":
        if len(args) == 1:
            return type_of(I, a0)
        return make_class(I, args)
    if name == "getattr":
        nm = args[1]
        dflt = (lambda: args[2]) if len(args) > 2 else None
        return getattr_dyn(I, a0, nm, dflt)
    if name == "hasattr":
        return hasattr_(I, a0, args[1])
    if name == "setattr":
        if not (isinstance(args[1], Term) and args[1].op == "k"):
            I.opaque_effect("setattr ?", a0, args[2])
            return T.NONE
        I.setattr(a0, args[1].args[0], args[2])
        return T.NONE
    if name == "delattr":
        r = I.rec(a0)
        d = dict(r.data)
        d.pop(T.cval(args[1]), None)
        I.setrec(a0, d, "del " + T.cval(args[1]))
        return T.NONE
    if name in ("print", "input", "breakpoint"):
        return T.NONE
    if name == "callable":
        if isinstance(a0, (V.FuncV, V.BoundV, V.PyFn, V.PartialV, V.BMeth, V.ClassV)):
            return T.TRUE
        if isinstance(a0, V.PhiV):
            return I.dist(a0, lambda x: builtin_call(I, "callable", [x], {}))
        c = M.inst_cls(I, a0)
        if c is not None:
            return const(I.class_attr(c, "__call__") is not None)
        if isinstance(a0, Term):
            if a0.op == "sym" and a0.args[1] == "func":
                return T.TRUE
            if T.is_const(a0) or MO.is_numeric(a0) or MO.is_str(a0):
                return T.FALSE
            return mk("fn", "isinst", a0, const("callable"))
        if isinstance(a0, V.ExtV):
            return T.TRUE
        return T.FALSE
    if name in ("float",):
        if not args:
            return num(0.0)
        if isinstance(a0, V.PhiV):
            return I.dist(a0, lambda x: builtin_call(I, name, [x], {}))
        c = M.inst_cls(I, a0)
        if c is not None:
            f = I.class_attr(c, "__float__")
            if f is None:
                I.raise_("TypeError", "float() argument")
            return I.call(V.BoundV(f, a0), [], {})
        if isinstance(a0, (V.TupV, V.FuncV)) or isinstance(a0, V.Ref) and I.rec(a0).kind in ("list", "dict"):
            I.raise_("TypeError", "float() argument must be a string or a real number")
        return py_float(I, a0)
    if name == "int":
        if not args:
            return T.ZERO
        if isinstance(a0, V.PhiV):
            return I.dist(a0, lambda x: builtin_call(I, name, [x] + list(args[1:]), {}))
        if isinstance(a0, (V.TupV, V.FuncV)) or isinstance(a0, V.Ref) and I.rec(a0).kind in ("list", "dict", "inst"):
            I.raise_("TypeError", "int() argument must be a string or a real number")
        return py_int(I, *args)
    if name == "complex":
        vals = [I.num_operand(a) for a in args]
        if len(vals) == 1 and isinstance(vals[0], Term) and vals[0].op == "k" and isinstance(vals[0].args[0], str):
            try:
                z = complex(vals[0].args[0].replace(" ", ""))
            except ValueError:
                I.raise_("ValueError", "complex() arg is a malformed string")
            return T.add(num(Fraction(repr(z.real))), T.mul(num(Fraction(repr(z.imag))), T.I))
        if all(isinstance(v, Term) for v in vals):
            if len(vals) == 1:
                if MO.is_numeric(vals[0]):
                    return vals[0]
                return mk("fn", "complex", vals[0])
            if len(vals) == 2:
                return T.add(vals[0], T.mul(T.I, vals[1]))
        return mk("ext", "complex", *[I.embed(v) for v in args])
    if name == "bool":
        return I.truth(a0) if args else T.FALSE
    if name == "str":
        return to_str(I, a0) if args else const("")
    if name == "repr":
        return to_repr(I, a0)
    if name == "format":
        return mk("fmt", I.embed(a0), args[1] if len(args) > 1 and isinstance(args[1], Term) else T.NONE)
    if name in ("list", "tuple", "set", "frozenset"):
        items = I.iterate(a0, True) if args else []
        if items is None:
            items = [V.RepV(M.elem_of(I, a0), I.embed(a0))]
        consume(a0)
        if name == "list":
            return I.new_list(items)
        if name == "tuple":
            return V.TupV(items)
        return I.alloc(name, {I.hkey(x): x for x in items})
    if name == "dict":
        d = I.alloc("dict", {})
        n0 = len(I.effects)
        if args:
            M.dict_update(I, d, a0)
        for k, v in kwargs.items():
            MO.setitem(I, d, const(k), v)
        del I.effects[n0:]
        return d
    if name == "slice":
        p = list(args)
        if len(p) == 1:
            return V.SliceV(T.NONE, p[0], T.NONE)
        return V.SliceV(p[0], p[1], p[2] if len(p) > 2 else T.NONE)
    if name == "object":
        return I.alloc("inst", {}, V.ExtV("object"))
    if name == "range":
        vals = [I.num_operand(a) for a in args]
        if all(isinstance(v, Term) and T.is_num(v) for v in vals):
            if any(v.args[1] != "int" for v in vals):
                I.raise_("TypeError", "'float' object cannot be interpreted as an integer")
            r = range(*[int(v.args[0]) for v in vals])
            if len(r) > I.UNROLL:
                return mk("ext", "range", *vals)
            return V.IterV([num(x) for x in r], "range")
        for v in vals:
            if isinstance(v, Term) and (MO.is_str(v) or v is T.NONE):
                I.raise_("TypeError", "cannot be interpreted as an integer")
        return mk("ext", "range", *[I.embed(v) for v in vals])
    if name == "enumerate" and isinstance(a0, V.IterV) and a0.endless:
        pos = I.iter_pos(a0)
        start = args[1] if len(args) > 1 else kwargs.get("start", T.ZERO)
        I.iter_move(a0, pos, None)
        return V.IterV([V.TupV([T.add(start, num(i)), x]) for i, x in enumerate(a0.items[pos:])], endless=True)
    if name == "enumerate":
        items = I.iterate(a0, True)
        start = args[1] if len(args) > 1 else kwargs.get("start", T.ZERO)
        if items is None or any(isinstance(x, (V.OptV, V.RepV)) for x in items):
            if items is not None and not any(isinstance(x, V.RepV) for x in items):
                out, n = [], start
                for x in items:
                    if isinstance(x, V.OptV):
                        out.append(V.OptV(x.c, V.TupV([n, x.v])))
                        n = T.add(n, T.ite(x.c, T.ONE, T.ZERO))
                    else:
                        out.append(V.TupV([n, x]))
                        n = T.add(n, T.ONE)
                return V.IterV(out)
            return mk("ext", "enumerate", I.embed(a0))
        consume(a0)
        return V.IterV([V.TupV([T.add(start, num(i)), x]) for i, x in enumerate(items)])
    if name == "zip":
        its = [a for a in args if isinstance(a, V.IterV) and not a.view]
        if len({id(a) for a in its}) < len(its):
            raise V.Undecided("zip over the same iterator twice")
        at = {id(a): I.iter_pos(a) for a in its}
        endless = [a for a in its if a.endless]
        if endless and len(endless) < len(args):
            cols = {id(a): I.iterate(a, True) for a in args if a not in endless}
            if any(c is None for c in cols.values()):
                raise V.Undecided("endless iterator beside one of unknown length")
            n = min(len(c) for c in cols.values())
            for a in endless:
                cols[id(a)] = a.items[at[id(a)]:at[id(a)] + n]
                if len(cols[id(a)]) < n:
                    raise V.Undecided("too many items of an endless iterator")
                I.iter_move(a, at[id(a)], None)
            cols = [cols[id(a)] for a in args]
        elif endless:
            n = min(len(a.items) - at[id(a)] for a in endless)
            for a in endless:
                I.iter_move(a, at[id(a)], None)
            return V.IterV([V.TupV([a.items[at[id(a)] + k] for a in args]) for k in range(n)], endless=True)
        else:
            cols = [I.iterate(a, True) for a in args]
        if its and len({len(c) for c in cols if c is not None}) > 1:
            for a in its:
                I.iter_move(a, at[id(a)], None)
        if any(c is None for c in cols):
            return mk("ext", "zip", *[I.embed(a) for a in args])
        if any(isinstance(x, V.OptV) for c in cols for x in c):
            if len({len(c) for c in cols}) == 1 and all(len({getattr(x, "c", None) for x in row}) == 1 for row in zip(*cols)):
                return V.IterV([V.OptV(row[0].c, V.TupV([x.v for x in row])) if isinstance(row[0], V.OptV) else V.TupV(row) for row in zip(*cols)])
            raise V.Undecided("zip over conditional sequences")
        if any(isinstance(x, V.RepV) for c in cols for x in c):
            if all(len(c) == 1 for c in cols):
                return V.IterV([V.RepV(V.TupV([x.v if isinstance(x, V.RepV) else x for x in row]), row[0].n if isinstance(row[0], V.RepV) else row[1].n) for row in zip(*cols)])
            raise V.Undecided("zip over sequences of unknown length")
        for a in args:
            consume(a)
        return V.IterV([V.TupV(row) for row in zip(*cols)])
    if name == "map":
        cols = [I.iterate(a, True) for a in args[1:]]
        if any(c is None for c in cols):
            e = [M.elem_of(I, a) for a in args[1:]]
            return V.IterV([V.RepV(I.call(a0, e, {}), I.embed(args[1]))])
        for a in args[1:]:
            consume(a)
        out = []
        for row in zip(*cols):
            if len(row) == 1 and isinstance(row[0], V.OptV):
                x = row[0]
                v = I.branch(x.c, lambda: I.call(a0, [x.v], {}), lambda: T.NONE)
                out.append(V.OptV(x.c, v.a if isinstance(v, V.PhiV) else v))
            elif len(row) == 1 and isinstance(row[0], V.RepV):
                out.append(V.RepV(I.call(a0, [row[0].v], {}), row[0].n))
            else:
                out.append(I.call(a0, list(row), {}))
        return V.IterV(out)
    if name == "filter":
        items = I.iterate(args[1], True)
        if items is None:
            items = [V.RepV(M.elem_of(I, args[1]), I.embed(args[1]))]
        out = []
        for x in items:
            g, xv = (x.c, x.v) if isinstance(x, V.OptV) else (T.TRUE, x.v if isinstance(x, V.RepV) else x)
            c = I.truth(xv) if a0 is T.NONE else I.truth(I.call(a0, [xv], {}))
            c = T.land(g, c)
            if isinstance(x, V.RepV):
                if c is not T.FALSE:
                    out.append(x)
            elif c is T.TRUE:
                out.append(xv)
            elif c is not T.FALSE:
                out.append(V.OptV(c, xv))
        return V.IterV(out)
    if name == "reversed":
        c = M.inst_cls(I, a0)
        if c is not None and I.class_attr(c, "__reversed__") is not None:
            return I.call(V.BoundV(I.class_attr(c, "__reversed__"), a0), [], {})
        items = I.iterate(a0)
        return V.IterV(items[::-1])
    if name == "iter":
        if isinstance(a0, V.IterV) and not a0.view:
            return a0
        items = I.iterate(a0, True)
        if items is None:
            return mk("ext", "iter", I.embed(a0))
        return V.IterV(items)
    if name == "next":
        if isinstance(a0, V.IterV):
            pos = I.iter_pos(a0)
            items = a0.items[pos:]
            missing = (lambda: args[1]) if len(args) > 1 else (lambda: I.raise_("StopIteration", ""))
            if not items:
                return missing()
            if isinstance(items[0], V.OptV):
                def go(i):
                    if i == len(items):
                        return missing()
                    x = items[i]
                    if isinstance(x, V.OptV):
                        return I.branch(x.c, lambda: x.v, lambda: go(i + 1))
                    return x
                r = go(0)
                I.iter_move(a0, pos, None)
                return r
            if isinstance(items[0], V.RepV):
                return items[0].v
            I.iter_move(a0, pos, pos + 1)
            return items[0]
        c = M.inst_cls(I, a0)
        if c is not None and I.class_attr(c, "__next__") is not None:
            return I.call(V.BoundV(I.class_attr(c, "__next__"), a0), [], {})
        if isinstance(a0, V.Ref) or isinstance(a0, V.TupV):
            I.raise_("TypeError", "object is not an iterator")
        return mk("ext", "next", I.embed(a0))
    if name == "sum":
        start = args[1] if len(args) > 1 else kwargs.get("start", T.ZERO)
        items = I.iterate(a0, True)
        if items is None:
            return mk("ext", "sum", I.embed(a0), I.embed(start))
        consume(a0)
        r = gated(I, items, lambda p, x: I.binop("Add", p, x), start)
        return r if r is not None else mk("ext", "sum", I.embed(V.TupV([x.v if isinstance(x, V.RepV) else x for x in items])))
    if name in ("min", "max"):
        key = kwargs.get("key")
        items = I.iterate(a0, True) if len(args) == 1 else list(args)
        if items is None or any(isinstance(x, (V.OptV, V.RepV)) for x in items):
            return mk("ext", name, I.embed(a0))
        if not items:
            if "default" in kwargs:
                return kwargs["default"]
            I.raise_("ValueError", "%s() arg is an empty sequence" % name)
        acc = items[0]
        for x in items[1:]:
            p, q = (acc, x) if key is None else (I.call(key, [acc], {}), I.call(key, [x], {}))
            c = I.truth(I.compare("Lt" if name == "max" else "Gt", p, q))
            acc = I.merge_val(c, x, acc) if not T.is_const(c) else (x if c is T.TRUE else acc)
        return acc
    if name in ("any", "all"):
        items = I.iterate(a0, True)
        if items is None:
            return mk("fn", name, I.embed(a0))
        cs = []
        for x in items:
            g, xv = (x.c, x.v) if isinstance(x, V.OptV) else (T.TRUE, x)
            if isinstance(xv, V.RepV):
                cs.append(mk("fn", name, I.embed(xv.v)))
                continue
            t = I.truth(xv)
            cs.append(T.land(g, t) if name == "any" else T.lor(T.lnot(g), t))
        return (T.lor(*cs) if name == "any" else T.land(*cs)) if cs else const(name == "all")
    if name == "sorted":
        items = I.iterate(a0, True)
        if items is None or any(isinstance(x, (V.OptV, V.RepV)) for x in items):
            return I.new_list([V.RepV(M.elem_of(I, a0), I.embed(a0))])
        key = kwargs.get("key")
        rev = kwargs.get("reverse", T.FALSE)
        keys = [x if key in (None, T.NONE) else I.call(key, [x], {}) for x in items]
        if all(const_key(k) is not None for k in keys) and T.is_const(rev):
            order = sorted(range(len(items)), key=lambda i: const_key(keys[i]), reverse=bool(T.cval(rev)))
            return I.new_list([items[i] for i in order])
        if len(items) < 2:
            return I.new_list(items)
        if all(isinstance(x, Term) for x in items) and len(items) == 2 and key is None:
            c = T.lt(items[1], items[0])
            return I.new_list([T.ite(c, items[1], items[0]), T.ite(c, items[0], items[1])])
        t = mk("ext", "sorted", *[I.embed(k) for k in keys], *[I.embed(x) for x in items])
        return I.new_list([mk("item", t, num(i)) for i in range(len(items))])
    if name == "abs":
        c = M.inst_cls(I, a0)
        if c is not None and I.class_attr(c, "__abs__") is not None:
            return I.call(V.BoundV(I.class_attr(c, "__abs__"), a0), [], {})
        return I.lift(lambda x: T.fn("abs", x), I.num_operand(a0))
    if name == "round":
        v = I.num_operand(a0)
        if isinstance(v, Term) and T.is_num(v) and len(args) == 1:
            return num(round(v.args[0]))
        return I.lift(lambda x: mk("fn", "round", x, *[I.embed(a) for a in args[1:]]), v)
    if name == "pow":
        return I.binop("Pow", a0, args[1])
    if name == "divmod":
        return V.TupV([I.binop("FloorDiv", a0, args[1]), I.binop("Mod", a0, args[1])])
    if name == "id":
        if isinstance(a0, V.PhiV):
            return I.dist(a0, lambda x: I.call(V.ExtV("id"), [x], {}))
        if isinstance(a0, V.Ref):
            return mk("n", Fraction(0x7f0000000000 + 16 * a0.oid), "int")
        return mk("ext", name, I.embed(a0))
    if name in ("id", "hash"):
        return mk("ext", name, I.embed(a0))
    if name == "vars":
        return I.getattr(a0, "__dict__")
    if name == "dir":
        if isinstance(a0, V.Ref):
            return inst_dir(I, a0)
        if isinstance(a0, V.ModV):
            return I.new_list([const(n) for n in sorted(I.st.heap[a0.oid].data)])
        return mk("ext", "dir", I.embed(a0))
    if name == "globals":
        env = I.module_env(I.frame.env)
        return I.alloc("dict", {("k", k): (const(k), v) for k, v in I.st.heap[env].data.items()}, ("globals", env))
    if name == "locals":
        return I.new_dict([(const(k), v) for k, v in I.st.heap[I.frame.env].data.items()])
    if name in ("chr", "ord") and T.is_const(a0):
        return const({"chr": chr, "ord": ord}[name](T.cval(a0)))
    if name == "super":
        if len(args) == 2:
            return V.SuperV(args[0], args[1])
    if name == "bytes" and T.is_const(a0):
        return mk("ext", "bytes", a0)
    if name == "open":
        io = I.load("vf_io")
        if io is not None and args and isinstance(args[0], (Term, V.Ref)) and (T.is_const(args[0]) if isinstance(args[0], Term) else True):
            return I.call(I.getattr(io, "open_"), args, kwargs)
        I.note_may_raise()
        return mk("ext", "open", *[I.embed(a) for a in args], *MM.kwterms(I, kwargs))
    return None


def consume(it):
    V = _iv()
    return None


def const_key(k):
    V = _iv()
    if isinstance(k, Term) and T.is_const(k):
        return T.cval(k) if T.cval(k) is not None else None
    if isinstance(k, Term) and k.op == "n":
        return k.args[0]
    if isinstance(k, V.TupV):
        ks = [const_key(x) for x in k.items]
        return None if None in ks else tuple(ks)
    return None


def pyval(I, v, depth=0):
    """Python value of a known constant, tuple, list or dict; ValueError when not known"""
    V = _iv()
    if isinstance(v, Term) and T.is_const(v):
        c = T.cval(v)
        return c if isinstance(c, (int, str, bytes, bool, complex, float, type(None))) else float(c)
    if isinstance(v, V.TupV) and not v.names:
        return tuple(pyval(I, x) for x in v.items)
    if isinstance(v, V.Ref) and depth < 5:
        r = I.rec(v)
        if r.kind == "list":
            return [pyval(I, x, depth + 1) for x in r.data]
        if r.kind == "dict":
            return {pyval(I, k, depth + 1): pyval(I, x, depth + 1) for k, x in r.data.values()}
    raise ValueError


def to_repr(I, v):
    V = _iv()
    from . import models as M
    try:
        return const(repr(pyval(I, v)))
    except (ValueError, TypeError, OverflowError):
        pass
    if isinstance(v, V.PhiV):
        return I.dist(v, lambda x: to_repr(I, x))
    c = M.inst_cls(I, v)
    f = I.class_attr(c, "__repr__") if c is not None else None
    if f is not None:
        return I.call(V.BoundV(f, v), [], {})
    return mk("strmeth", const("repr"), I.embed(v))


def to_str(I, v):
    V = _iv()
    from . import models as M
    try:
        return const(str(pyval(I, v)))
    except (ValueError, TypeError, OverflowError):
        pass
    if isinstance(v, V.PhiV):
        return I.dist(v, lambda x: to_str(I, x))
    if isinstance(v, Term):
        if v.op == "k":
            return const(str(v.args[0]))
        if v.op == "n" and v.args[1] == "int":
            return const(str(int(v.args[0])))
        if MO.is_str(v):
            return v
        return mk("fmt", v, T.NONE)
    c = M.inst_cls(I, v)
    if c is not None:
        f = I.class_attr(c, "__str__") or I.class_attr(c, "__repr__")
        if f is not None:
            return I.call(V.BoundV(f, v), [], {})
    return mk("fmt", I.embed(v), T.NONE)


def issub(I, c, d):
    V = _iv()
    from . import models as M
    if isinstance(d, V.TupV):
        return T.lor(*[issub(I, c, x) for x in d.items])
    if isinstance(c, V.ClassV):
        if isinstance(d, V.ClassV):
            return const(d in c.mro)
        if isinstance(d, V.ExtV):
            if d.name == "object":
                return T.TRUE
            return const(any(isinstance(b, V.ExtV) and (M.norm_ext(b.name) == M.norm_ext(d.name) or V.exc_isa(M.norm_ext(b.name), M.norm_ext(d.name))) for b in c.mro))
    if isinstance(c, V.ExtV):
        if isinstance(d, V.ClassV):
            if c.name in I.builtins or c.name in V.BUILTIN_EXC:
                if c.name in FUNCS:
                    I.raise_("TypeError", "issubclass() arg 1 must be a class")
                return T.FALSE
            return mk("fn", "isinst", I.embed(c), const(d.name))
        if isinstance(d, V.ExtV):
            return const(c.name == d.name or V.exc_isa(c.name, d.name))
    if isinstance(c, (V.FuncV, V.ModV, V.BoundV, V.TupV, ArrV, V.PyFn)) or isinstance(c, V.Ref) and I.rec(c).kind != "opq" or isinstance(c, Term) and (T.is_const(c) or MO.is_numeric(c) or MO.is_str(c)):
        I.raise_("TypeError", "issubclass() arg 1 must be a class")
    return mk("fn", "isinst", I.embed(c), I.embed(d))


FUNCS = {"len", "print", "sum"}


def getattr_dyn(I, o, nm, dflt):
    V = _iv()
    if isinstance(nm, V.PhiV):
        return I.dist(nm, lambda x: getattr_dyn(I, o, x, dflt))
    if isinstance(nm, Term) and nm.op == "k" and isinstance(nm.args[0], str):
        return I.getattr(o, nm.args[0], dflt)
    if isinstance(nm, Term) and nm.op == "ite":
        return I.branch(nm.args[0], lambda: getattr_dyn(I, o, nm.args[1], dflt), lambda: getattr_dyn(I, o, nm.args[2], dflt))
    if isinstance(nm, Term) and (T.is_const(nm) or MO.is_numeric(nm)):
        I.raise_("TypeError", "attribute name must be string")
    I.note_may_raise()
    return mk("attr", I.embed(o), I.embed(nm))


def hasattr_(I, o, nm):
    V = _iv()
    miss = mk("k", ("missing-attr",))
    r = getattr_dyn(I, o, nm, lambda: miss)

    def test(v):
        if v is miss:
            return T.FALSE
        if isinstance(v, V.PhiV):
            return T.ite(v.c, test(v.a), test(v.b))
        if isinstance(v, Term) and v.op == "ite":
            return T.ite(v.args[0], test(v.args[1]), test(v.args[2]))
        return T.TRUE
    return test(r)


def inst_dir(I, o):
    V = _iv()
    from . import models as M
    r = I.rec(o)
    if r.kind != "inst":
        return mk("ext", "dir", I.embed(o))
    c = r.meta
    f = I.class_attr(c, "__dir__") if isinstance(c, V.ClassV) else None
    if f is not None:
        x = I.call(V.BoundV(f, o), [], {})
        return builtin_call(I, "sorted", [x], {})
    return I.new_list([const(n) for n in sorted(raw_dir(I, o))])


OBJ_DIR = [n for n in dir(object)] + ["__dict__", "__module__", "__weakref__"]


def raw_dir(I, o):
    V = _iv()
    r = I.rec(o)
    names = set(OBJ_DIR) | {k for k, v in r.data.items() if v is not V.UNBOUND}
    if isinstance(r.meta, V.ClassV):
        for b in r.meta.mro:
            if isinstance(b, V.ClassV):
                names |= set(I.st.heap[b.oid].data)
    return names


# ------------------------------------------------------------------ copy
ATOMIC = "atomic"


def deepcopy(I, v, memo=None):
    V = _iv()
    memo = {} if memo is None else memo
    if isinstance(v, V.PhiV):
        return I.dist(v, lambda x: deepcopy(I, x, memo))
    if isinstance(v, V.OptV):
        return V.OptV(v.c, deepcopy(I, v.v, memo))
    if isinstance(v, V.RepV):
        return V.RepV(deepcopy(I, v.v, memo), v.n)
    if isinstance(v, V.TupV):
        return V.TupV([deepcopy(I, x, memo) for x in v.items], v.names, v.tname)
    if isinstance(v, ArrV):
        return ArrV(v.shape, v.elems)
    if isinstance(v, V.BoundV):
        return V.BoundV(v.func, deepcopy(I, v.self, memo))
    if isinstance(v, V.PartialV):
        return V.PartialV(v.func, [deepcopy(I, x, memo) for x in v.args], {k: deepcopy(I, x, memo) for k, x in v.kwargs.items()})
    if isinstance(v, V.IterV):
        return V.IterV([deepcopy(I, x, memo) for x in v.items[I.iter_pos(v):]])
    if isinstance(v, (V.FuncV, V.ClassV)) and memo.get("pickle") and not importable(I, v):
        I.raise_("PicklingError", "Can't pickle %s: attribute lookup failed" % getattr(v, "qual", v.name))
    if isinstance(v, V.ModV):
        I.raise_("TypeError", "cannot pickle 'module' object")
    if not isinstance(v, V.Ref):
        return v
    if v.oid in memo:
        return memo[v.oid]
    r = I.rec(v)
    if memo.get("pickle") and r.kind == "inst" and isinstance(r.meta, V.ClassV) and not importable(I, r.meta):
        I.raise_("PicklingError", "Can't pickle %s: attribute lookup failed" % r.meta.name)
    if r.kind == "arr":
        n = I.new_arr(r.data)
        memo[v.oid] = n
        return n
    if r.kind == "list":
        n = I.new_list([])
        memo[v.oid] = n
        items = [deepcopy(I, x, memo) for x in r.data]
        I.st.heap[n.oid] = V.Rec("list", tuple(items), r.meta)
        return n
    if r.kind == "dict":
        n = I.alloc("dict", {})
        memo[v.oid] = n
        d = {}
        for k, x in r.data.values():
            kk = deepcopy(I, k, memo)
            d[I.hkey(kk)] = (kk, deepcopy(I, x, memo))
        I.st.heap[n.oid] = V.Rec("dict", d, None)
        return n
    if r.kind in ("set", "frozenset"):
        items = [deepcopy(I, x, memo) for x in r.data.values()]
        n = I.alloc(r.kind, {I.hkey(x): x for x in items})
        memo[v.oid] = n
        return n
    if r.kind == "inst":
        return copy_inst(I, v, r, memo, True)
    return v


def importable(I, v):
    """functions and classes are pickled by reference: the module has to provide them under their name"""
    V = _iv()
    if v.module is None:
        return True
    rec = I.st.heap.get(v.module.oid)
    if rec is None or not isinstance(rec.data, dict):
        return True
    parts = getattr(v, "qual", v.name).split(".")
    cur = rec.data.get(parts[0])
    for p in parts[1:]:
        if not isinstance(cur, V.ClassV):
            return False
        cur = I.class_attr(cur, p)
    return cur is v


def copy_inst(I, v, r, memo, deep):
    V = _iv()
    cls = r.meta
    if not isinstance(cls, V.ClassV):
        return v
    hook = "__deepcopy__" if deep else "__copy__"
    miss = mk("k", ("missing-attr",))
    if memo.get("pickle"):
        f = miss
    elif deep:
        f = I.getattr(v, hook, lambda: miss)
    else:
        f = I.class_attr(cls, hook)
        f = V.BoundV(f, v) if f is not None else miss
    if f is not miss:
        md = I.alloc("dict", {})
        return I.call(f, [md] if deep else [], {})
    red = I.class_attr(cls, "__reduce_ex__") or I.class_attr(cls, "__reduce__")
    if red is not None:
        I.note_may_raise()
        I.undecided_notes.append("custom __reduce__ of %s" % cls.name)
        raise V.Undecided("custom __reduce__")
    gs = I.class_attr(cls, "__getstate__")
    if gs is not None:
        state = I.call(V.BoundV(gs, v), [], {})
    else:
        state = None
    new = I.alloc("inst", {}, cls)
    memo[v.oid] = new
    if state is None:
        state = I.new_dict([(const(k), x) for k, x in r.data.items() if x is not V.UNBOUND])
    if deep:
        state = deepcopy(I, state, memo)
    ss = I.getattr(new, "__setstate__", lambda: miss)
    if ss is not miss:
        I.call(ss, [state], {})
    elif isinstance(state, V.Ref) and I.rec(state).kind == "dict":
        I.st.heap[new.oid] = V.Rec("inst", {T.cval(k): x for k, x in I.rec(state).data.values()}, cls)
    return new


def shallow(I, v):
    V = _iv()
    if isinstance(v, V.PhiV):
        return I.dist(v, lambda x: shallow(I, x))
    if isinstance(v, V.Ref):
        r = I.rec(v)
        if r.kind == "arr":
            return I.new_arr(r.data)
        if r.kind in ("list", "dict", "set"):
            return I.alloc(r.kind, r.data if r.kind == "list" else dict(r.data))
        if r.kind == "inst":
            return copy_inst(I, v, r, {}, False)
    return v


# ------------------------------------------------------------------ classes
def class_special(I, c, args, kwargs):
    V = _iv()
    if c.flags.get("enum"):
        return None
    return None


def dc_fields(I, c):
    V = _iv()
    out = {}
    for b in reversed(c.mro):
        if isinstance(b, V.ClassV) and b.flags.get("dataclass"):
            for n, has in b.annotations:
                out.pop(n, None) if False else None
                d = I.st.heap[b.oid].data.get(n) if has else None
                out[n] = (d, has)
    return out


def dataclass_init(I, c, obj, args, kwargs):
    V = _iv()
    fields = dc_fields(I, c)
    kw = dict(kwargs)
    names = list(fields)
    if len(args) > len(names):
        I.raise_("TypeError", "__init__() takes %d arguments" % len(names))
    saved = getattr(I, "_dc_init", False)
    I._dc_init = True
    try:
        for i, n in enumerate(names):
            d, has = fields[n]
            if i < len(args):
                v = args[i]
            elif n in kw:
                v = kw.pop(n)
            elif has:
                v = d
                if isinstance(v, V.TupV) and v.tname == "field":
                    if v.items[0] is not T.NONE:
                        v = I.call(v.items[0], [], {})
                    else:
                        v = v.items[1]
            else:
                I.raise_("TypeError", "missing required argument '%s'" % n)
            I.raw_setattr(obj, n, v)
        if kw:
            I.raise_("TypeError", "unexpected keyword argument")
        f = I.class_attr(c, "__post_init__")
        if f is not None:
            I.call(V.BoundV(f, obj), [], {})
    finally:
        I._dc_init = saved


def ext_base_init(I, obj, base, args, kwargs):
    V = _iv()
    if base.name in V.BUILTIN_EXC or base.name.split(".")[-1].endswith(("Error", "Exception")):
        I.raw_setattr(obj, "args", V.TupV(args))
        return T.NONE
    I.note_may_raise()
    I.raw_setattr(obj, "__extargs__", V.TupV(args))
    return T.NONE


def super_ext(I, o, cls, name):
    V = _iv()
    inst = o.obj
    mro = cls.mro if isinstance(cls, V.ClassV) else []
    rest = mro[mro.index(o.cls) + 1:] if o.cls in mro else []
    ext = [b for b in rest if isinstance(b, V.ExtV) and b.name not in ("object", "abc.ABC", "ABC")]
    if name == "__init__":
        if ext:
            return V.PyFn("super.__init__", lambda I, a, k: ext_base_init(I, inst, ext[0], a, k))

        def init(I, a, k):
            if a or k:
                I.raise_("TypeError", "object.__init__() takes exactly one argument")
            return T.NONE
        return V.PyFn("object.__init__", init)
    if name == "__setattr__":
        return V.PyFn(name, lambda I, a, k: (I.raw_setattr(inst, T.cval(a[0]), a[1]), T.NONE)[1])
    if name == "__getattribute__":
        return V.PyFn(name, lambda I, a, k: I.inst_getattr(inst, I.rec(inst), T.cval(a[0]), None, False))
    if name == "__new__":
        return V.PyFn(name, lambda I, a, k: I.alloc("inst", {}, a[0]))
    if name in ("__init_subclass__", "__del__"):
        return V.PyFn(name, lambda I, a, k: T.NONE)
    if name == "__dir__":
        return V.PyFn(name, lambda I, a, k: I.new_list([const(n) for n in sorted(raw_dir(I, inst))]))
    if name in ("__repr__", "__str__"):
        return V.PyFn(name, lambda I, a, k: mk("strmeth", const(name), I.embed(inst)))
    if name == "__eq__":
        return V.PyFn(name, lambda I, a, k: NOTIMPL)
    if name == "__class__":
        return cls
    if ext:
        def meth(I, a, k):
            I.note_may_raise()
            I.effects.append(V.Effect("extmeth", inst.oid if isinstance(inst, V.Ref) else None, name, None, I.loc, I.st.pc, tuple(I.call_stack)))
            return mk("meth", I.embed(inst), const(name), *[I.embed(x) for x in a], *MM.kwterms(I, k))
        return V.PyFn("super." + name, meth)
    I.raise_("AttributeError", "'super' object has no attribute '%s'" % name)


NOTIMPL = mk("k", NotImplemented)


def inst_builtin_attr(I, o, cls, name):
    V = _iv()
    if name == "__dir__":
        return V.PyFn(name, lambda I, a, k: I.new_list([const(n) for n in sorted(raw_dir(I, o))]))
    if name == "__getattribute__":
        return V.PyFn(name, lambda I, a, k: I.inst_getattr(o, I.rec(o), T.cval(a[0]), None, False))
    if name == "__setattr__":
        return V.PyFn(name, lambda I, a, k: (I.raw_setattr(o, T.cval(a[0]), a[1]), T.NONE)[1])
    if name == "__doc__":
        return const(cls.doc) if isinstance(cls, V.ClassV) else T.NONE
    if name == "__module__":
        return const(cls.module.name) if isinstance(cls, V.ClassV) else None
    if name in ("__repr__", "__str__"):
        return V.PyFn(name, lambda I, a, k: mk("strmeth", const(name), I.embed(o)))
    if name == "__hash__":
        return V.PyFn(name, lambda I, a, k: mk("ext", "hash", I.embed(o)))
    if name in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
        return V.PyFn(name, lambda I, a, k: NOTIMPL)
    if name in ("__init__", "__init_subclass__"):
        return V.PyFn(name, lambda I, a, k: T.NONE)
    if name in ("__reduce_ex__", "__reduce__", "__getstate__", "__sizeof__", "__format__", "__delattr__", "__subclasshook__", "__new__"):
        return V.PyFn(name, lambda I, a, k: mk("meth", I.embed(o), const(name)))
    return None


def ext_inst_attr(I, o, base, name, default):
    V = _iv()
    if base.name in V.BUILTIN_EXC or base.name.split(".")[-1].endswith(("Error", "Exception")):
        if name == "args":
            return I.rec(o).data.get("args", V.TupV([]))
        if name in ("with_traceback", "add_note", "__str__", "__repr__"):
            return V.BMeth(o, name)
        if name in ("__cause__", "__context__", "__traceback__"):
            return T.NONE
        return I.missing(o, name, default)
    if default is not None:
        return default()
    return V.BMeth(o, name)


# ------------------------------------------------------------------ external calls
OPERATOR = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "mod": "Mod", "floordiv": "FloorDiv", "matmul": "MatMult",
            "and_": "BitAnd", "or_": "BitOr"}
OPCMP = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is", "is_not": "IsNot"}
MATH1 = {"sqrt", "sin", "cos", "tan", "exp", "log", "log10", "log2", "asin", "acos", "atan", "sinh", "cosh", "tanh", "radians", "degrees", "fabs", "floor", "ceil", "isnan", "isfinite", "arctan", "arcsin", "arccos"}
PURE_SPECIAL = {"dawsn", "digamma", "gamma", "erf", "erfc", "wofz", "psi", "erfi"}


INTERPOLATORS = {
    "interp1d": dict(x=0, y=0, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value="nan", assume_sorted=False),
    "CubicSpline": dict(x=0, y=0, axis=0, bc_type="not-a-knot", extrapolate=None),
    "PchipInterpolator": dict(x=0, y=0, axis=0, extrapolate=None),
    "make_interp_spline": dict(x=0, y=0, k=3, t=None, bc_type=None, axis=0, check_finite=True),
}
BUILTIN_KINDS = ("dict", "list", "set", "str")


def call_ext(I, name, args, kwargs):
    V = _iv()
    from . import models as M
    name = name.split("builtins.")[-1] if name.startswith("builtins.") else name
    if any(isinstance(a, V.RepV) for a in args):
        I.note_may_raise()
        return mk("ext", name, *[I.embed(a.v if isinstance(a, V.RepV) else a) for a in args], *MM.kwterms(I, kwargs))
    args = [a.v if isinstance(a, V.OptV) else a for a in args]
    if name in V.BUILTIN_EXC:
        return I.alloc("inst", {"args": V.TupV(args)}, V.ExtV(name))
    if name in I.builtins and "." not in name:
        r = builtin_call(I, name, args, kwargs)
        if r is not None:
            return r
    if name.startswith("object."):
        return object_method(I, name[7:], args, kwargs)
    if "." not in name and name not in I.builtins and not name.startswith("numpy"):
        pass
    parts = name.split(".")
    top = parts[0]
    handled, value = setting_call(I, name, args, kwargs)
    if handled:
        return value
    if top == "numpy":
        return np_ext(I, name, parts, args, kwargs)
    if top in BUILTIN_KINDS and len(parts) == 2 and args and not parts[1].startswith("from"):
        o = args[0]
        if isinstance(o, V.Ref) and I.rec(o).kind == top or top == "str" and isinstance(o, Term) and MO.is_str(o):
            return I.call(V.BMeth(o, parts[1]), list(args[1:]), kwargs)
    if top in ("math", "cmath") and len(parts) == 2:
        nm = parts[1]
        if nm in MATH1:
            return np_call(I, nm, args, {})
        if nm in ("atan2", "hypot", "pow"):
            return np_call(I, {"atan2": "arctan2", "hypot": "hypot", "pow": "power"}[nm], args, {})
        if nm == "prod":
            r = gated(I, I.iterate(args[0]), lambda p, x: I.binop("Mult", p, x), T.ONE)
            return r
        if nm == "isclose":
            return np_call(I, "isclose", args, kwargs)
        if nm == "inf":
            return num(float("inf"))
    if top == "copy":
        if parts[-1] == "deepcopy":
            return deepcopy(I, args[0])
        if parts[-1] == "copy":
            return shallow(I, args[0])
    if top == "pickle":
        if parts[-1] == "dumps":
            return V.TupV([const("pickled"), deepcopy(I, args[0], {"pickle": True})])
        if parts[-1] == "loads" and isinstance(args[0], V.TupV):
            return deepcopy(I, args[0].items[1], {"pickle": True})
    if top == "functools":
        if parts[-1] == "partial":
            return V.PartialV(args[0], args[1:], dict(kwargs))
        if parts[-1] == "reduce":
            items = list(I.iterate(args[1]))
            if any(isinstance(x, (V.OptV, V.RepV)) for x in items):
                if len(args) > 2:
                    r = gated(I, items, lambda p, x: I.call(args[0], [p, x], {}), args[2])
                    if r is not None:
                        return r
                raise V.Undecided("reduce over conditional sequence")
            if len(args) > 2:
                items.insert(0, args[2])
            if not items:
                I.raise_("TypeError", "reduce() of empty iterable with no initial value")
            acc = items[0]
            for x in items[1:]:
                acc = I.call(args[0], [acc, x], {})
            return acc
        if parts[-1] in ("wraps", "lru_cache", "cache", "total_ordering", "cached_property", "update_wrapper"):
            if parts[-1] == "lru_cache" or parts[-1] == "wraps":
                return V.PyFn("deco", lambda I, a, k: a[0])
            return args[0]
    if top == "operator":
        nm = parts[-1]
        if nm in OPERATOR:
            return I.binop(OPERATOR[nm], args[0], args[1])
        if nm in OPCMP:
            return I.compare(OPCMP[nm], args[0], args[1])
        if nm == "neg":
            return I.unary("USub", args[0])
        if nm == "pos":
            return args[0]
        if nm == "getitem":
            return I.subscript(args[0], args[1])
        if nm in ("iadd", "iconcat"):
            return I.aug("Add", args[0], args[1])
        if nm == "concat":
            return I.binop("Add", args[0], args[1])
        if nm in ("isub", "imul", "itruediv", "ipow", "ior", "iand", "ixor", "imatmul"):
            return I.aug({"isub": "Sub", "imul": "Mult", "itruediv": "Div", "ipow": "Pow", "ior": "BitOr", "iand": "BitAnd", "ixor": "BitXor", "imatmul": "MatMult"}[nm], args[0], args[1])
        if nm == "attrgetter" and len(args) == 1:
            return V.PyFn("attrgetter", lambda I, a, k: I.getattr(a[0], T.cval(args[0])))
        if nm == "itemgetter" and len(args) == 1:
            return V.PyFn("itemgetter", lambda I, a, k: I.subscript(a[0], args[0]))
    if top == "itertools":
        nm = parts[-1]
        if nm == "chain":
            out = []
            for a in args:
                out += I.iterate(a)
            return V.IterV(out)
        if name == "itertools.chain.from_iterable":
            out = []
            for a in I.iterate(args[0]):
                out += I.iterate(a)
            return V.IterV(out)
        if nm == "cycle" and len(args) == 1:
            it = I.iterate(args[0], True)
            if it is None or any(isinstance(x, (V.OptV, V.RepV)) for x in it):
                raise V.Undecided("cycle over a sequence of unknown length")
            return V.IterV(it * (1024 // len(it) + 1), endless=True) if it else V.IterV([])
        if nm == "count":
            start = args[0] if args else kwargs.get("start", T.ZERO)
            step = args[1] if len(args) > 1 else kwargs.get("step", T.ONE)
            return V.IterV([I.binop("Add", start, I.binop("Mult", step, num(i))) for i in range(1024)], endless=True)
        if nm == "repeat" and len(args) == 1 and not kwargs:
            return V.IterV([args[0]] * 1024, endless=True)
        if nm == "islice" and len(args) in (2, 3, 4) and isinstance(args[0], V.IterV) and args[0].endless and all(x is T.NONE or T.is_num(x) for x in args[1:]):
            b = [None if x is T.NONE else int(x.args[0]) for x in args[1:]]
            lo, hi, st = (0, b[0], 1) if len(b) == 1 else (b[0] or 0, b[1], (b[2] if len(b) > 2 else 1) or 1)
            pos = I.iter_pos(args[0])
            if hi is None or pos + hi > len(args[0].items):
                raise V.Undecided("items of an endless iterator")
            I.iter_move(args[0], pos, pos + hi)
            return V.IterV(args[0].items[pos:][lo:hi:st])
        if nm == "islice" and len(args) in (2, 3, 4) and all(x is T.NONE or T.is_num(x) for x in args[1:]):
            b = [None if x is T.NONE else int(x.args[0]) for x in args[1:]]
            lo, hi, st = (0, b[0], 1) if len(b) == 1 else (b[0] or 0, b[1], (b[2] if len(b) > 2 else 1) or 1)
            it = args[0]
            pos = I.iter_pos(it) if isinstance(it, V.IterV) and not it.view else None
            items = I.iterate(it, True)
            if items is None or any(isinstance(x, (V.OptV, V.RepV)) for x in items):
                raise V.Undecided("islice over a sequence of unknown length")
            if pos is not None and hi is not None:
                I.iter_move(it, pos, min(pos + max(hi, 0), pos + len(items)))
            return V.IterV(items[lo:hi:st])
        if nm == "zip_longest" and len({id(a) for a in args}) == len(args):
            cols = [I.iterate(a, True) for a in args]
            if any(c is None or any(isinstance(x, (V.OptV, V.RepV)) for x in c) for c in cols):
                raise V.Undecided("zip_longest over sequences of unknown length")
            fill = kwargs.get("fillvalue", T.NONE)
            n = max([len(c) for c in cols] or [0])
            return V.IterV([V.TupV([c[i] if i < len(c) else fill for c in cols]) for i in range(n)])
        if nm == "starmap" and len(args) == 2:
            return V.IterV([I.call(args[0], I.iterate(x), {}) for x in I.iterate(args[1])])
        if nm in ("combinations", "permutations", "combinations_with_replacement") and len(args) == 2 and T.is_num(args[1]):
            import itertools
            return V.IterV([V.TupV(p) for p in getattr(itertools, nm)(I.iterate(args[0]), int(args[1].args[0]))])
        if nm == "repeat" and len(args) == 2 and T.is_num(args[1]):
            return V.IterV([args[0]] * int(args[1].args[0]))
        if nm == "accumulate" and len(args) == 1 and not kwargs:
            out, acc = [], None
            for x in I.iterate(args[0]):
                acc = x if acc is None else I.binop("Add", acc, x)
                out.append(acc)
            return V.IterV(out)
        if nm == "pairwise":
            it = I.iterate(args[0])
            return V.IterV([V.TupV(p) for p in zip(it, it[1:])])
        if nm == "product" and not kwargs:
            import itertools
            return V.IterV([V.TupV(p) for p in itertools.product(*[I.iterate(a) for a in args])])
    if top == "collections":
        nm = parts[-1]
        if nm == "namedtuple":
            fields = args[1]
            if isinstance(fields, Term):
                names = T.cval(fields).replace(",", " ").split()
            else:
                names = [T.cval(x) for x in I.iterate(fields)]
            tn = T.cval(args[0])

            def build(I, a, k):
                vals = list(a) + [k[n] for n in names[len(a):] if n in k]
                if len(vals) != len(names):
                    I.raise_("TypeError", "%s missing arguments" % tn)
                return V.TupV(vals, tuple(names), tn)
            return V.PyFn("namedtuple:" + tn, build)
        if nm == "OrderedDict":
            return builtin_call(I, "dict", args, kwargs)
    if top == "dataclasses":
        if parts[-1] == "field":
            return V.TupV([kwargs.get("default_factory", T.NONE), kwargs.get("default", V.UNBOUND)], ("f", "d"), "field")
        if parts[-1] == "replace":
            r = I.rec(args[0])
            kw = {n: r.data[n] for n in dc_fields(I, r.meta) if n in r.data}
            kw.update(kwargs)
            return I.call(r.meta, [], kw)
        if parts[-1] == "asdict":
            r = I.rec(args[0])
            return I.new_dict([(const(n), deepcopy(I, r.data[n])) for n in dc_fields(I, r.meta)])
    if top == "warnings" or top == "logging":
        if parts[-1] in ("warn", "filterwarnings", "simplefilter", "warning", "info", "debug", "error"):
            if parts[-1] in ("filterwarnings", "simplefilter"):
                I.effects.append(V.Effect("extglobal", None, name, None, I.loc, I.st.pc, tuple(I.call_stack)))
            return T.NONE
        return mk("ext", name, *[I.embed(a) for a in args], *MM.kwterms(I, kwargs))
    if top == "typing":
        if parts[-1] == "cast":
            return args[1]
        return V.ExtV(name)
    if name in ("scipy.linalg.expm",):
        return np_call(I, "expm", args, {})
    if name in ("torch.matrix_exp", "torch.linalg.matrix_exp"):
        t = args[0]
        return np_call(I, "expm", [t], {})
    if name in ("torch.from_numpy", "torch.as_tensor", "torch.tensor"):
        return args[0]
    if top == "scipy":
        if name == "scipy.constants.value" and T.is_const(args[0]):
            if args[0].args[0] in NP.SCVAL:
                return NP.SCVAL[args[0].args[0]]
            return mk("sym", "const:" + args[0].args[0], "pos")
        if name.startswith("scipy.special.") and parts[-1] in PURE_SPECIAL and len(args) == 1:
            nm = "digamma" if parts[-1] == "psi" else parts[-1]
            return I.lift(lambda x: mk("fn", nm, x), I.num_operand(args[0]))
        if parts[1] in ("linalg",) and parts[-1] in ("inv", "solve", "det", "eig", "sqrtm", "logm"):
            return np_call(I, ("linalg." if parts[-1] in ("inv", "solve", "det", "eig") else "") + parts[-1], args, kwargs)
        if name in ("scipy.interpolate.interp1d", "scipy.interpolate.InterpolatedUnivariateSpline", "scipy.interpolate.CubicSpline",
                    "scipy.interpolate.make_interp_spline", "scipy.interpolate.PchipInterpolator", "scipy.interpolate.Akima1DInterpolator",
                    "scipy.interpolate.UnivariateSpline"):
            args = [unwrap(I, a) for a in args]
            kwargs = {k: unwrap(I, v) for k, v in kwargs.items()}
            sig = INTERPOLATORS.get(parts[-1])
            if sig and len(args) <= len(sig) and set(kwargs) <= set(list(sig)[len(args):]):
                given = dict(zip(sig, args), **kwargs)
                args = [given.pop(n) for n in ("x", "y") if n in given]
                kwargs = {k: v for k, v in sorted(given.items()) if not (isinstance(v, Term) and T.is_const(v) and T.cval(v) == sig[k])}
            t = mk("ext", parts[-1], *[I.embed(a) for a in args], *MM.kwterms(I, kwargs))
            I.note_may_raise()
            knots = {}
            if len(args) >= 2 and not parts[-1].startswith("Univariate"):
                xs, ys = NP.to_arr(I, args[0]), NP.to_arr(I, args[1])
                if isinstance(xs, ArrV) and isinstance(ys, ArrV) and xs.ndim == ys.ndim == 1 and len(xs.elems) == len(ys.elems) > 1:
                    knots = dict(zip(xs.elems, ys.elems)) if len(set(xs.elems)) == len(xs.elems) else {}
            knots = {k: v for k, v in knots.items() if isinstance(k, T.Term) and isinstance(v, T.Term)}
            knots.update({k.args[0]: v for k, v in knots.items() if T.is_num(k)})

            def at(x):
                key = x.args[0] if T.is_num(x) else x
                return knots[key] if key in knots else mk("fn", "interp", t, x)
            return V.PyFn("interp", lambda I, a, k: I.lift(at, I.num_operand(a[0])))
    if top == "os":
        r = os_call(I, parts, args, kwargs)
        if r is not None:
            return r
    if name in ("contextlib.suppress",):
        raise V.Undecided("contextlib.suppress")
    if name.startswith("warnings.catch_warnings"):
        return mk("ext", name)
    I.note_may_raise()
    I.calls_opaque.add(name)
    return mk("ext", name, *[I.embed(a) for a in args], *MM.kwterms(I, kwargs))


def os_call(I, parts, args, kwargs):
    """path arithmetic on known strings"""
    import os.path as P
    V = _iv()
    args = [I.call(I.getattr(a, "__fspath__"), [], {}) if isinstance(a, V.Ref) and I.rec(a).kind == "inst" and isinstance(I.rec(a).meta, V.ClassV)
            and I.class_attr(I.rec(a).meta, "__fspath__") is not None else a for a in args]
    if parts[1:] == ["getcwd"]:
        return const("/cwd")
    if parts[1:] == ["fspath"]:
        return args[0]
    if len(parts) != 3 or parts[1] != "path" or kwargs or not all(isinstance(a, Term) and T.is_const(a) and isinstance(T.cval(a), str) for a in args):
        return None
    a = [T.cval(x) for x in args]
    n = parts[2]
    if n in ("dirname", "basename", "normpath", "isabs", "join", "splitext", "split", "expanduser", "expandvars"):
        r = getattr(P, n)(*a)
    elif n in ("abspath", "realpath"):
        r = P.normpath(P.join("/cwd", a[0]))
    elif n in ("exists", "isfile"):
        return I.call(I.getattr(I.load("vf_io"), n), args, {})
    else:
        return None
    return V.TupV([const(x) for x in r]) if isinstance(r, tuple) else const(r)


# process-wide settings: function -> (key, number of leading arguments that belong to the key)
SETTERS = {"pandas.set_option": ("pandas.option", 1), "pandas.reset_option": ("pandas.option", 1), "numpy.set_printoptions": ("numpy.printoptions", 0), "os.chdir": ("os.cwd", 0), "locale.setlocale": ("locale", 1),
           "numpy.random.seed": ("numpy.random.state", 0), "random.seed": ("random.state", 0), "sys.setrecursionlimit": ("sys.recursionlimit", 0), "numpy.seterrcall": ("numpy.errcall", 0),
           "numpy.setbufsize": ("numpy.bufsize", 0), "logging.disable": ("logging.disable", 0), "logging.basicConfig": ("logging.root", 0), "os.putenv": ("os.environ", 1), "os.unsetenv": ("os.environ", 1),
           "os.umask": ("os.umask", 0), "signal.signal": ("signal", 1), "sys.settrace": ("sys.trace", 0), "sys.setprofile": ("sys.profile", 0), "torch.set_default_dtype": ("torch.default_dtype", 0),
           "torch.set_num_threads": ("torch.num_threads", 0), "torch.set_grad_enabled": ("torch.grad_enabled", 0), "torch.set_default_device": ("torch.default_device", 0), "torch.manual_seed": ("torch.seed", 0),
           "torch.use_deterministic_algorithms": ("torch.deterministic", 0), "gc.disable": ("gc", 0), "gc.enable": ("gc", 0), "socket.setdefaulttimeout": ("socket.timeout", 0), "atexit.register": ("atexit", 0),
           "pint.set_application_registry": ("pint.registry", 0), "numpy.set_string_function": ("numpy.string_function", 0), "h5py.get_config": ("h5py.config", 0)}
GETTERS = {"pandas.get_option": ("pandas.option", 1), "numpy.get_printoptions": ("numpy.printoptions", 0), "os.getcwd": ("os.cwd", 0), "locale.getlocale": ("locale", 1), "sys.getrecursionlimit": ("sys.recursionlimit", 0),
           "numpy.geterrcall": ("numpy.errcall", 0), "numpy.getbufsize": ("numpy.bufsize", 0), "torch.get_default_dtype": ("torch.default_dtype", 0), "torch.get_num_threads": ("torch.num_threads", 0),
           "torch.is_grad_enabled": ("torch.grad_enabled", 0), "socket.getdefaulttimeout": ("socket.timeout", 0)}
del SETTERS["h5py.get_config"]


def setting_initial(key):
    return mk("ext", "initial setting", const(key))


def get_setting(I, key):
    d = I.st.heap[I.ext_state.oid].data
    k = I.hkey(const(key))
    return d[k][1] if k in d else setting_initial(key)


def put_setting(I, key, v):
    """process-wide setting `key` becomes v (recorded per path; the initial value erases the record)"""
    V = _iv()
    r = I.st.heap[I.ext_state.oid]
    d = dict(r.data)
    k = I.hkey(const(key))
    d[k] = (const(key), v)
    if v is setting_initial(key):
        del d[k]
    I.st.heap[I.ext_state.oid] = V.Rec("dict", d, r.meta)


def setting_call(I, name, args, kwargs):
    """(handled, value) of a call that reads or writes a process-wide setting"""
    V = _iv()
    if name in GETTERS:
        key, n = GETTERS[name]
        key += "".join("[%s]" % T.show(I.embed(a), 3) for a in args[:n])
        if key == "os.cwd" and I.hkey(const(key)) not in I.st.heap[I.ext_state.oid].data:
            return True, const("/cwd")
        return True, get_setting(I, key)
    if name in SETTERS:
        key, n = SETTERS[name]
        key += "".join("[%s]" % T.show(I.embed(a), 3) for a in args[:n])
        old = get_setting(I, key)
        rest = args[n:]
        if name == "pandas.reset_option":
            new = mk("ext", "default setting", const(key))
        elif name == "locale.setlocale" and (not rest or rest[0] is T.NONE):
            return True, old
        elif name == "os.chdir" and rest and rest[0] is const("/cwd"):
            new = setting_initial(key)
        elif len(rest) == 1 and not kwargs and isinstance(rest[0], Term):
            new = rest[0]
        elif not rest and list(kwargs) == ["**"]:
            new = I.embed(kwargs["**"])
        else:
            new = mk("ext", name, *[I.embed(a) for a in rest], *MM.kwterms(I, kwargs))
        put_setting(I, key, new)
        return True, old if name not in ("os.chdir", "pandas.set_option", "numpy.set_printoptions") else T.NONE
    return False, None


NP_SUB = {"emath", "lib.scimath", "lib._scimath_impl"}


def seterr(I, args, kwargs):
    V = _iv()
    r = I.st.heap[I.np_err]
    old = I.alloc("dict", dict(r.data), None)
    names = ("divide", "over", "under", "invalid")
    d = dict(r.data)
    kw = dict(kwargs)
    al = args[0] if args else kw.pop("all", T.NONE)
    for n in names:
        v = kw.pop(n, T.NONE)
        if v is T.NONE:
            v = al
        if v is not T.NONE:
            k = I.hkey(const(n))
            d[k] = (const(n), v)
    I.st.heap[I.np_err] = V.Rec("dict", d, None)
    I.effects.append(V.Effect("extglobal", I.np_err, "numpy.seterr", V.TupV(args), I.loc, I.st.pc, tuple(I.call_stack)))
    return old


def np_ext(I, name, parts, args, kwargs):
    V = _iv()
    sub = ".".join(parts[1:])
    if sub == "errstate" and "vf_np" in I.modules:
        return I.call(I.st.heap[I.modules["vf_np"].oid].data["errstate"], args, kwargs)
    if sub == "seterr":
        return seterr(I, args, kwargs)
    if sub == "geterr":
        r = I.st.heap[I.np_err]
        return I.alloc("dict", dict(r.data), None)
    for p in ("emath.", "lib.scimath.", "lib._scimath_impl."):
        if sub.startswith(p):
            nm = sub[len(p):]
            if nm in NP.SCIMATH and len(args) == 1:
                return I.lift(NP.SCIMATH[nm], I.num_operand(args[0]))
            if nm == "power":
                return I.lift(NP.sci_pow, I.num_operand(args[0]), I.num_operand(args[1]))
            return np_call(I, nm, args, kwargs)
    if sub in ("ndarray", "dtype", "random.default_rng") or sub.startswith("random."):
        I.note_may_raise()
        return mk("ext", name, *[I.embed(a) for a in args], *MM.kwterms(I, kwargs))
    return np_call(I, sub, args, kwargs)


def object_method(I, name, args, kwargs):
    V = _iv()
    if name == "__setattr__":
        I.raw_setattr(args[0], T.cval(args[1]), args[2])
        return T.NONE
    if name == "__getattribute__":
        return I.inst_getattr(args[0], I.rec(args[0]), T.cval(args[1]), None, False)
    if name == "__new__":
        return I.alloc("inst", {}, args[0])
    if name == "__init__":
        return T.NONE
    if name == "__dir__":
        return I.new_list([const(n) for n in sorted(raw_dir(I, args[0]))])
    if name in ("__eq__",):
        return NOTIMPL
    return mk("ext", "object." + name, *[I.embed(a) for a in args])
