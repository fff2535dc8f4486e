"""Methods of lists, dicts, sets, strings, arrays."""
import string
from . import terms as T
from .terms import Term, mk, const, num
from . import arrays as A
from .arrays import ArrV, ShapeError, Unsupported
from . import models_np as NP
from . import models_obj as MO


def _iv():
    from . import interp
    return interp


def call_bmeth(I, f, args, kwargs):
    V = _iv()
    o, name = f.obj, f.name
    if isinstance(o, V.Ref):
        r = I.rec(o)
        if r.kind == "list":
            return list_method(I, o, r, name, args, kwargs)
        if r.kind == "dict":
            return dict_method(I, o, r, name, args, kwargs)
        if r.kind in ("set", "frozenset"):
            return set_method(I, o, r, name, args, kwargs)
        if r.kind == "arr":
            return arr_method(I, o, I.deref(o), name, args, kwargs)
        if r.kind == "opq":
            return I.models.opq_method(I, o, name, args, kwargs)
        if r.kind == "inst":
            return inst_method(I, o, r, name, args, kwargs)
    if isinstance(o, ArrV):
        return arr_method(I, o, o, name, args, kwargs)
    if isinstance(o, V.TupV):
        if name == "index":
            return list_index(I, list(o.items), args[0])
        if name == "count":
            return T.add(*[T.ite(I.truth(I.models.eq_(I, x, args[0])), T.ONE, T.ZERO) for x in o.items]) if o.items else T.ZERO
        if name == "_replace":
            d = dict(zip(o.names, o.items))
            d.update(kwargs)
            return V.TupV([d[n] for n in o.names], o.names, o.tname)
        if name == "_asdict":
            return I.new_dict([(const(n), v) for n, v in zip(o.names, o.items)])
        if name == "__len__":
            return num(len(o.items))
        if name == "__iter__":
            return V.IterV(o.items)
    if isinstance(o, V.IterV):
        if name in ("isdisjoint", "__len__", "__contains__") and o.view:
            return I.models.length(I, o) if name == "__len__" else I.models.contains(I, args[0], o) if name == "__contains__" else set_method(I, *(lambda x: (x, I.rec(x)))(I.models.as_set(I, o)), name, args, kwargs)
        if name == "__iter__" and o.view:
            return V.IterV(o.items)
        if name == "__next__":
            return I.models.builtin_call(I, "next", [o] + list(args), {})
        return o
    if isinstance(o, Term):
        if MO.is_str(o) or (o.op == "k" and isinstance(o.args[0], (str, bytes))):
            return str_method(I, o, name, args, kwargs)
        if MO.is_numeric(o) and name in MO.ARR_METHODS:
            r = arr_method(I, A.scalar(o), A.scalar(o), name, args, kwargs)
            return r.elems[0] if isinstance(r, ArrV) and r.shape == () else r
        I.note_may_raise()
        return mk("meth", o, const(name), *[I.embed(a) for a in args], *kwterms(I, kwargs))
    I.note_may_raise()
    return mk("meth", I.embed(o), const(name), *[I.embed(a) for a in args], *kwterms(I, kwargs))


def kwterms(I, kwargs):
    return [mk("kw", const(k), I.embed(v)) for k, v in sorted(kwargs.items())]


def inst_method(I, o, r, name, args, kwargs):
    V = _iv()
    if name in ("with_traceback", "add_note"):
        return o
    if name in ("__str__", "__repr__"):
        return mk("strmeth", const("str"), I.embed(o))
    I.note_may_raise()
    return mk("meth", I.embed(o), const(name), *[I.embed(a) for a in args], *kwterms(I, kwargs))


def list_index(I, items, v):
    V = _iv()

    def go(i):
        if i == len(items):
            I.raise_("ValueError", "not in list")
        x = items[i]
        c = I.truth(I.models.eq_(I, x.v if isinstance(x, (V.OptV, V.RepV)) else x, v))
        return I.branch(c, lambda: num(i), lambda: go(i + 1))
    return go(0)


def list_method(I, o, r, name, args, kwargs):
    V = _iv()
    items = list(r.data)
    if name == "append":
        v = args[0]
        if isinstance(v, V.OptV):
            v = v.v
        I.setrec(o, tuple(items) + (v,), "append", v)
        return T.NONE
    if name == "extend":
        it = I.iterate(args[0], True)
        if it is None:
            it = [V.RepV(I.models.elem_of(I, args[0]), I.embed(args[0]))]
        I.setrec(o, tuple(items) + tuple(it), "extend", args[0])
        return T.NONE
    if name == "insert":
        k = args[0]
        if not T.is_num(k):
            raise V.Undecided("list.insert at unknown index")
        items.insert(int(k.args[0]), args[1])
        I.setrec(o, tuple(items), "insert", args[1])
        return T.NONE
    if name == "pop":
        k = args[0] if args else num(-1)
        if not T.is_num(k):
            raise V.Undecided("list.pop at unknown index")
        i = int(k.args[0])
        if not items:
            I.raise_("IndexError", "pop from empty list")
        if not -len(items) <= i < len(items):
            I.raise_("IndexError", "pop index out of range")
        part = items[:i + 1] if i >= 0 else items[i:]
        if any(isinstance(x, (V.OptV, V.RepV)) for x in part):
            # conditional presence: decide one by one
            if any(isinstance(x, V.RepV) for x in items):
                raise V.Undecided("pop from list of unknown length")
            v = MO.opt_index(I, items, i, "pop")
            new = []
            seq = items if i >= 0 else items[::-1]
            n = i if i >= 0 else -i - 1
            if n != 0:
                raise V.Undecided("pop from conditional list")
            gone = T.FALSE  # already removed
            for x in seq:
                c = x.c if isinstance(x, V.OptV) else T.TRUE
                keep = T.land(c, gone)
                xv = x.v if isinstance(x, V.OptV) else x
                gone = T.lor(gone, c)
                if keep is T.TRUE:
                    new.append(xv)
                elif keep is not T.FALSE:
                    new.append(V.OptV(keep, xv))
            if i < 0:
                new = new[::-1]
            I.setrec(o, tuple(new), "pop")
            return v
        v = items.pop(i)
        I.setrec(o, tuple(items), "pop")
        return v
    if name == "remove":
        def go(i):
            if i == len(items):
                I.raise_("ValueError", "not in list")
            x = items[i]
            if isinstance(x, (V.OptV, V.RepV)):
                raise V.Undecided("remove from conditional list")

            def hit():
                I.setrec(o, tuple(items[:i] + items[i + 1:]), "remove")
            I.branch(I.truth(I.models.eq_(I, x, args[0])), hit, lambda: go(i + 1), value=False)
        go(0)
        return T.NONE
    if name == "clear":
        I.setrec(o, (), "clear")
        return T.NONE
    if name == "reverse":
        I.setrec(o, tuple(items[::-1]), "reverse")
        return T.NONE
    if name == "copy" or name == "__copy__":
        return I.new_list(items)
    if name == "index":
        return list_index(I, items, args[0])
    if name == "count":
        ts = []
        for x in items:
            c = T.TRUE
            if isinstance(x, V.OptV):
                c, x = x.c, x.v
            if isinstance(x, V.RepV):
                return mk("ext", "count", I.embed(o), I.embed(args[0]))
            ts.append(T.ite(T.land(c, I.truth(I.models.eq_(I, x, args[0]))), T.ONE, T.ZERO))
        return T.add(*ts) if ts else T.ZERO
    if name == "sort":
        s = I.models.builtin_call(I, "sorted", [I.new_list(items)], kwargs)
        I.setrec(o, I.rec(s).data, "sort")
        return T.NONE
    if name == "__len__":
        return I.models.length(I, o)
    if name == "__getitem__":
        return I.subscript(o, args[0])
    if name == "__contains__":
        return I.models.contains(I, args[0], o)
    if name == "__iter__":
        return V.IterV(items)
    raise V.Undecided("list." + name)


def optval(I, v, missing):
    V = _iv()
    if isinstance(v, V.OptV):
        return I.branch(v.c, lambda: v.v, missing)
    if isinstance(v, V.RepV):
        return v.v
    return v


def dict_method(I, o, r, name, args, kwargs):
    V = _iv()
    d = r.data

    def wrapv(v, x):
        if isinstance(v, V.OptV):
            return V.OptV(v.c, x)
        if isinstance(v, V.RepV):
            return V.RepV(x, v.n)
        return x
    raw = lambda v: v.v if isinstance(v, (V.OptV, V.RepV)) else v
    if name == "get":
        dv = args[1] if len(args) > 1 else kwargs.get("default", T.NONE)
        return MO.dict_get(I, d, args[0], lambda: dv)
    if name == "keys":
        return V.IterV([wrapv(v, k) for k, v in d.values()], "keys")
    if name == "values":
        return V.IterV([v for k, v in d.values()], "values")
    if name == "items":
        return V.IterV([wrapv(v, V.TupV([k, raw(v)])) for k, v in d.values()], "items")
    if name == "pop":
        hk = I.hkey(args[0])
        has_default = len(args) > 1
        if hk not in d:
            if not I.known_key(hk) or not all(I.known_key(x) for x in d):
                if d:
                    raise V.Undecided("dict.pop with unknown key")
            if has_default:
                return args[1]
            I.raise_("KeyError", "key")
        v = d[hk][1]
        res = MO.dict_get(I, d, args[0], (lambda: args[1]) if has_default else (lambda: I.raise_("KeyError", "key")))
        nd = {k: x for k, x in d.items() if k != hk}
        I.setrec(o, nd, "pop")
        return res
    if name == "setdefault":
        hk = I.hkey(args[0])
        dv = args[1] if len(args) > 1 else T.NONE
        if hk in d and not isinstance(d[hk][1], V.OptV):
            return d[hk][1]
        if hk in d:
            v = optval(I, d[hk][1], lambda: dv)
        else:
            v = dv
        nd = dict(d)
        nd[hk] = (args[0], v)
        I.setrec(o, nd, "setdefault")
        return v
    if name == "update":
        if args:
            I.models.dict_update(I, o, args[0], effect=True)
        for k, v in kwargs.items():
            MO.setitem(I, o, const(k), v)
        return T.NONE
    if name == "copy" or name == "__copy__":
        return I.alloc("dict", dict(d))
    if name == "clear":
        I.setrec(o, {}, "clear")
        return T.NONE
    if name == "popitem":
        if not d:
            I.raise_("KeyError", "dictionary is empty")
        hk, (k, v) = list(d.items())[-1]
        nd = dict(d)
        nd.pop(hk)
        I.setrec(o, nd, "popitem")
        return V.TupV([k, v])
    if name in ("__getitem__",):
        return MO.subscript(I, o, args[0])
    if name in ("__contains__",):
        return I.models.contains(I, args[0], o)
    if name == "__len__":
        return I.models.length(I, o)
    if name == "__setitem__":
        return MO.setitem(I, o, args[0], args[1]) or T.NONE
    if name == "__iter__":
        return V.IterV(I.iterate(o))
    raise V.Undecided("dict." + name)


def set_method(I, o, r, name, args, kwargs):
    V = _iv()
    d = dict(r.data)
    if name == "add":
        d[I.hkey(args[0])] = args[0]
        I.setrec(o, d, "add", args[0])
        return T.NONE
    if name in ("discard", "remove"):
        d.pop(I.hkey(args[0]), None)
        I.setrec(o, d, name, args[0])
        return T.NONE
    if name == "update":
        for a in args:
            for x in I.iterate(a):
                d[I.hkey(x)] = x
        I.setrec(o, d, name)
        return T.NONE
    if name == "copy":
        return I.alloc("set", d)
    other = {}
    for a in args:
        for x in I.iterate(a):
            other[I.hkey(x)] = x
    if not all(I.known_key(k) for k in list(d) + list(other)) and set(d) != set(other) and d and other:
        raise V.Undecided("set operation on keys that may be equal")
    if any(isinstance(x, (V.OptV, V.RepV)) for x in list(d.values()) + list(other.values())) and name != "union":
        raise V.Undecided("set operation on conditional elements")
    if name == "union":
        d.update(other)
        return I.alloc("set", d)
    if name == "isdisjoint":
        return const(not any(k in other for k in d))
    if name == "symmetric_difference":
        return I.alloc("set", {**{k: v for k, v in d.items() if k not in other}, **{k: v for k, v in other.items() if k not in d}})
    if name == "intersection":
        return I.alloc("set", {k: v for k, v in d.items() if k in other})
    if name == "difference":
        return I.alloc("set", {k: v for k, v in d.items() if k not in other})
    if name == "issubset":
        return const(all(k in other for k in d))
    if name == "issuperset":
        return const(all(k in d for k in other))
    raise V.Undecided("set." + name)


def str_method(I, o, name, args, kwargs):
    V = _iv()
    consts = T.is_const(o) and all(isinstance(a, Term) and T.is_const(a) for a in args) and all(
        isinstance(a, Term) and T.is_const(a) for a in kwargs.values())
    if name == "join" and o.op == "k":
        items = I.iterate(args[0], True)
        if items is not None and not any(isinstance(x, (V.OptV, V.RepV)) for x in items):
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(o.args[0])
                parts.append(x.args[0] if isinstance(x, Term) and x.op == "k" and isinstance(x.args[0], str) else I.embed(x))
            return I.models.concat_str(I, parts)
        return mk("strmeth", const("join"), o, I.embed(args[0]))
    if name == "format" and o.op == "k" and isinstance(o.args[0], str):
        r = str_format(I, o.args[0], args, kwargs)
        if r is not None:
            return r
        consts = False
    if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], V.TupV):
        return T.lor(*[I.truth(str_method(I, o, name, [x], {})) for x in args[0].items])
    if consts:
        try:
            v = getattr(o.args[0], name)(*[T.cval(a) for a in args], **{k: T.cval(a) for k, a in kwargs.items()})
        except (ValueError, IndexError, KeyError, TypeError) as e:
            I.raise_(type(e).__name__, str(e))
        return from_py(I, v)
    r = mk("strmeth", const(name), o, *[I.embed(a) for a in args], *kwterms(I, kwargs))
    if name in ("startswith", "endswith", "isdigit", "isalpha", "islower", "isupper", "isnumeric", "isidentifier", "isspace"):
        return mk("fn", "truth", r)
    return r


def str_format(I, template, args, kwargs):
    """str.format, field by field; None when a field is not a plain position or name"""
    try:
        fields = list(string.Formatter().parse(template))
    except ValueError as e:
        I.raise_("ValueError", str(e))
    parts, auto = [], 0
    for text, field, spec, conv in fields:
        parts.append(text)
        if field is None:
            continue
        if "{" in spec:
            return None
        if field == "":
            field, auto = str(auto), auto + 1
        if field.isdigit():
            if int(field) >= len(args):
                I.raise_("IndexError", "Replacement index %s out of range for positional args tuple" % field)
            x = args[int(field)]
        elif field.isidentifier():
            if field not in kwargs:
                I.raise_("KeyError", field)
            x = kwargs[field]
        else:
            return None
        parts.append(I.fmt_piece(x, const(spec) if spec else None, ord(conv) if conv else -1))
    return I.models.concat_str(I, parts)


def from_py(I, v):
    V = _iv()
    if isinstance(v, list):
        return I.new_list([from_py(I, x) for x in v])
    if isinstance(v, tuple):
        return V.TupV([from_py(I, x) for x in v])
    if isinstance(v, dict):
        return I.new_dict([(from_py(I, k), from_py(I, x)) for k, x in v.items()])
    return const(v)


def arr_method(I, o, a, name, args, kwargs):
    V = _iv()
    if name in ("copy", "__copy__", "__deepcopy__"):
        return I.new_arr(a)
    if name in ("numpy", "detach", "cpu"):
        return o
    if name == "flatten":
        return NP.call_np(I, "ravel", [a], {})
    if name == "astype":
        ty = args[0] if args else kwargs.get("dtype")
        return NP.fresh(I, a, ty)
    if name == "tolist":
        return tolist(I, a)
    if name == "item":
        if len(a.elems) == 1 and not args:
            return a.elems[0]
        return MO.subscript(I, a, args[0] if args else num(0))
    if name == "fill":
        if isinstance(o, V.Ref):
            v = NP.to_arr(I, args[0])
            I.setrec(o, A.broadcast_to(v, a.shape), "fill")
        return T.NONE
    if name in MO.INPLACE_ARR:
        if isinstance(o, V.Ref):
            I.setrec(o, ArrV(a.shape, [mk("meth", e, const(name), *[I.embed(x) for x in args]) for e in a.elems]), name)
        elif a.roots:
            for oid in a.roots:
                rr = V.Ref(oid)
                c = I.rec(rr).data
                I.setrec(rr, c.map(lambda x: mk("stored", x, const(name))), name)
        return T.NONE
    if name in ("setflags", "tobytes", "__array__"):
        return o
    if name == "__len__":
        return I.models.length(I, o)
    if name == "__getitem__":
        return I.subscript(o, args[0])
    if name == "__iter__":
        return V.IterV(I.iterate(a))
    if name == "__setitem__":
        MO.setitem(I, o, args[0], args[1])
        return T.NONE
    if name == "transpose" and args and not isinstance(args[0], V.TupV) and len(args) > 1:
        args = [V.TupV(args)]
    if name == "reshape" and len(args) > 1:
        args = [V.TupV(args)]
    nm = {"min": "amin", "max": "amax"}.get(name, name)
    return I.models.np_call(I, nm, [o] + list(args), kwargs)


def type_name(ty):
    V = _iv()
    if isinstance(ty, V.ExtV):
        return ty.name.split(".")[-1]
    if isinstance(ty, Term) and ty.op == "k":
        return str(ty.args[0])
    return "?"


def astype(I, a, ty):
    n = type_name(ty)
    if n.startswith("int") or n.startswith("uint"):
        f = lambda x: x if x.op == "n" and x.args[1] == "int" or x.op == "sym" and x.args[1] in ("int", "posint") else mk("fn", "trunc", x)
    elif n.startswith("float") or n in ("double",):
        f = lambda x: T.fn("re", x) if not T.isbool(x) else T.ite(x, T.ONE, T.ZERO)
    elif n.startswith("complex"):
        f = lambda x: x
    elif n.startswith("bool"):
        f = NP._b
    else:
        f = lambda x: x
    return ArrV(a.shape, [f(x) for x in a.elems])


def tolist(I, a):
    V = _iv()
    if a.ndim == 0:
        return a.elems[0]
    if not A.isint(a.shape[0]):
        return mk("meth", I.embed(a), const("tolist"))
    out = []
    for i in range(a.shape[0]):
        x = A.index(a, (i,))
        out.append(x.elems[0] if x.ndim == 0 else tolist(I, x))
    return I.new_list(out)
