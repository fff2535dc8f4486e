"""Models of attributes, subscripts and methods of builtin objects and arrays."""
from fractions import Fraction

from . import terms as T
from .terms import Term, mk, const, num
from . import arrays as A
from .arrays import ArrV, ShapeError, Unsupported, Sl, NEWAXIS, ELLIPSIS
from . import models_np as NP

STR_METHODS = {m for m in dir(str) if not m.startswith("_")}
LIST_METHODS = {m for m in dir(list) if not m.startswith("_")}
DICT_METHODS = {m for m in dir(dict) if not m.startswith("_")}
SET_METHODS = {m for m in dir(set) if not m.startswith("_")}
TUPLE_METHODS = {"count", "index"}
ARR_METHODS = {
    "copy", "reshape", "transpose", "conj", "conjugate", "astype", "sum", "mean", "squeeze", "flatten", "ravel", "tolist", "item",
    "min", "max", "all", "any", "dot", "repeat", "swapaxes", "prod", "cumsum", "fill", "diagonal", "trace", "round", "std", "var",
    "argmin", "argmax", "argsort", "sort", "take", "nonzero", "clip", "setflags", "view", "resize", "put", "tobytes", "__array__", "ptp",
    "numpy", "detach", "cpu", "searchsorted", "partition", "itemset", "byteswap", "compress", "__len__", "__iter__", "__getitem__", "__setitem__", "__copy__", "__deepcopy__"}
INPLACE_ARR = {"fill", "sort", "resize", "put", "partition", "itemset"}
NUM_KINDS = ("real", "pos", "nonneg", "int", "posint", "complex", "bool")


def _iv():
    from . import interp
    return interp


SHAPELESS = {}


def shapeless(t):
    """the term contains the result of an unmodelled call, which may be an array"""
    if t.op in ("n", "I", "k", "sym", "var"):
        return False
    r = SHAPELESS.get(t)
    if r is None:
        r = t.op == "ext" and t.args[0].startswith(("numpy.", "scipy.", "matmul")) or t.op in ("meth", "loopout", "elem", "item")
        r = r or t.op in ("add", "mul", "pow", "fn", "ite", "not", "and", "lt", "eq") and any(isinstance(x, Term) and shapeless(x) for x in t.args)
        SHAPELESS[t] = r
    return r


def is_numeric(t):
    if t.op in ("n", "I", "idx"):
        return True
    if t.op in ("add", "mul", "pow", "lt", "eq", "not", "and"):
        return not shapeless(t)
    if t.op == "sym":
        return t.args[1] in NUM_KINDS
    if t.op == "fn":
        return t.args[0] not in ("truth", "isinst", "hasattr", "contains") and not shapeless(t)
    if t.op == "ite":
        return is_numeric(t.args[1]) and is_numeric(t.args[2])
    return False


def is_str(t):
    return (t.op == "k" and isinstance(t.args[0], str)) or (t.op == "sym" and t.args[1] == "str") or t.op in ("concat", "fmt", "strmeth")


# ------------------------------------------------------------------ attributes
def getattr_special(I, o, name, default):
    V = _iv()
    if isinstance(o, V.Ref):
        r = I.rec(o)
        if r.kind == "arr":
            return arr_attr(I, o, I.deref(o), name, default)
        if r.kind == "list":
            if name in LIST_METHODS or name in ("__len__", "__iter__", "__getitem__", "__contains__"):
                return V.BMeth(o, name)
            if name == "__class__":
                return V.ExtV("list")
            return I.missing(o, name, default)
        if r.kind == "dict":
            if name in DICT_METHODS or name in ("__len__", "__iter__", "__getitem__", "__contains__", "__setitem__"):
                return V.BMeth(o, name)
            if name == "__class__":
                return V.ExtV("dict")
            return I.missing(o, name, default)
        if r.kind in ("set", "frozenset"):
            if name in SET_METHODS:
                return V.BMeth(o, name)
            return I.missing(o, name, default)
        if r.kind == "opq":
            return I.models.opq_attr(I, o, name, default)
    if isinstance(o, ArrV):
        return arr_attr(I, o, o, name, default)
    if isinstance(o, V.TupV):
        if o.names and name in o.names:
            return o.items[o.names.index(name)]
        if o.names and name == "_fields":
            return V.TupV([const(n) for n in o.names])
        if name in TUPLE_METHODS or name in ("_replace", "_asdict", "__len__", "__iter__"):
            return V.BMeth(o, name)
        return I.missing(o, name, default)
    if isinstance(o, V.ExtV):
        k = I.hkey(const(o.name + "." + name))
        changed = I.st.heap[I.ext_state.oid].data
        if k in changed:
            return changed[k][1]
        return I.models.ext_member(I, o.name, name)
    if isinstance(o, (V.FuncV, V.BoundV)):
        f = o.func if isinstance(o, V.BoundV) else o
        if isinstance(o, V.BoundV) and name == "__self__":
            return o.self
        if isinstance(o, V.BoundV) and name == "__func__":
            return o.func
        if isinstance(f, V.FuncV):
            if name in f.attrs:
                return f.attrs[name]
            if name == "__name__":
                return const(f.name)
            if name == "__qualname__":
                return const(f.qual)
            if name == "__doc__":
                import ast
                return const(ast.get_docstring(f.node, clean=False)) if not isinstance(f.node, ast.Lambda) else T.NONE
            if name == "__module__":
                return const(f.module.name)
            if name == "__wrapped__":
                return f
            if name in ("cache_clear", "cache_info"):
                def clear(I, a, k):
                    if name == "cache_clear" and "$memo" in f.attrs:
                        I.st.heap[f.attrs["$memo"]] = V.Rec("dict", {}, None)
                    return T.NONE
                return V.PyFn(name, clear)
        if name in ("__call__",):
            return o
        return I.missing(o, name, default)
    if isinstance(o, V.PropV):
        return getattr_prop(I, o, name)
    if isinstance(o, V.PartialV):
        if name == "func":
            return o.func
        if name == "args":
            return V.TupV(o.args)
        return I.missing(o, name, default)
    if isinstance(o, V.IterV):
        return V.BMeth(o, name)
    if isinstance(o, V.SliceV):
        return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
    if isinstance(o, Term):
        return term_attr(I, o, name, default)
    return I.missing(o, name, default)


def getattr_prop(I, o, name):
    V = _iv()
    if name == "setter":
        return V.PyFn("setter", lambda I, a, k: V.PropV(o.fget, a[0], o.fdel))
    if name == "fget":
        return o.fget
    if name == "__doc__":
        return getattr_special(I, o.fget, "__doc__", None)
    return T.NONE


def arr_attr(I, o, a, name, default):
    V = _iv()
    if name == "shape":
        return V.TupV([A.dimterm(d) for d in a.shape])
    if name == "ndim":
        return num(a.ndim)
    if name == "size":
        return T.mul(*[A.dimterm(d) for d in a.shape]) if a.shape else T.ONE
    if name == "T":
        r = A.transpose(a, tuple(range(a.ndim))[::-1])
        r.roots = a.roots
        return r
    if name in ("real", "imag"):
        r = a.map(lambda x: T.fn("re" if name == "real" else "im", x))
        r.roots = a.roots
        r.meta = (name, o) if isinstance(o, V.Ref) else None
        return r
    if name == "dtype":
        return mk("attr", mk("dtypeof", I.embed(a)), "dtype")
    if name == "flat":
        return A.reshape(a, (-1,))
    if name in ARR_METHODS:
        return V.BMeth(o, name)
    if name == "values":  # pandas-like access on arrays standing for columns
        return I.missing(o, name, default)
    return I.missing(o, name, default)


def term_attr(I, o, name, default):
    V = _iv()
    if o.op == "k":
        v = o.args[0]
        if v is None:
            if name == "__class__":
                return V.ExtV("NoneType")
            return I.missing(o, name, default)
        if isinstance(v, (str, bytes)):
            if name in STR_METHODS or hasattr(v, name):
                return V.BMeth(o, name)
            return I.missing(o, name, default)
    if is_str(o):
        if name in STR_METHODS:
            return V.BMeth(o, name)
        return I.missing(o, name, default)
    if o.op == "ite" and not is_numeric(o):
        return I.branch(o.args[0], lambda: I.getattr(o.args[1], name, default), lambda: I.getattr(o.args[2], name, default))
    if is_numeric(o) or o.op == "ext" and o.args[0] == "num":
        if name in ("real", "imag"):
            return T.fn("re" if name == "real" else "im", o)
        if name == "shape":
            return V.TupV([])
        if name == "ndim":
            return T.ZERO
        if name == "size":
            return T.ONE
        if name == "T":
            return o
        if name == "dtype":
            return mk("attr", mk("dtypeof", o), "dtype")
        if name in ARR_METHODS or name in ("is_integer", "hex", "bit_length"):
            return V.BMeth(o, name)
        return I.missing(o, name, default)
    if default is not None and o.op not in ("module",):
        g = mk("fn", "hasattr", o, const(name))
        return I.branch(g, lambda: mk("attr", o, const(name)), default)
    return mk("attr", o, const(name))


def setattr_special(I, o, name, v):
    V = _iv()
    if isinstance(o, V.Ref) and I.rec(o).kind == "arr":
        if name in ("real", "imag"):
            a = I.rec(o).data
            x = NP.to_arr(I, v)
            if name == "real":
                new = I.lift(lambda p, q: T.add(q, T.mul(T.I, T.fn("im", p))), a, x)
            else:
                new = I.lift(lambda p, q: T.add(T.fn("re", p), T.mul(T.I, q)), a, x)
            I.setrec(o, A.broadcast_to(new, a.shape), name)
            return
        if name == "shape":
            a = I.rec(o).data
            I.setrec(o, A.reshape(a, NP.shape_arg(I, v)), name)
            return
    if isinstance(o, V.Ref) and I.rec(o).kind == "opq":
        return I.models.opq_setattr(I, o, name, v)
    if isinstance(o, V.ExtV):
        I.effects.append(V.Effect("extattr", None, o.name + "." + name, v, I.loc, I.st.pc, tuple(I.call_stack)))
        __import__("sa.models_call", fromlist=["x"]).put_setting(I, o.name + "." + name, v if isinstance(v, Term) else I.embed(v))
        return
    if isinstance(o, Term) and T.is_const(o) or isinstance(o, (V.TupV, ArrV)):
        I.raise_("AttributeError", "cannot set attribute %s" % name)
    I.opaque_effect("setattr " + name, o, v)


# ------------------------------------------------------------------ subscripts
def arr_key(I, k):
    V = _iv()
    ks = k.items if isinstance(k, V.TupV) else [k]
    out = []
    ds = [I.deref(x) for x in ks]
    nz = [x.meta for x in ds if isinstance(x, ArrV) and isinstance(x.meta, tuple) and x.meta and x.meta[0] == "nz"]
    if nz:
        m = nz[0][1]
        if len(nz) == len(ds) == m.ndim and all(t[1] is m and t[2] == i for i, t in enumerate(nz)):
            return (m,)
        raise NP.Bad("partial nonzero index")
    for x in ds:
        if isinstance(x, V.SliceV):
            g = lambda t: None if t is T.NONE else t
            for t in (x.lo, x.hi, x.step):
                if not isinstance(t, Term):
                    raise NP.Bad("slice bound")
            out.append(Sl(g(x.lo), g(x.hi), g(x.step)))
        elif x is T.NONE:
            out.append(NEWAXIS)
        elif isinstance(x, V.ExtV) and x.name == "numpy.newaxis":
            out.append(NEWAXIS)
        elif isinstance(x, Term) and x.op == "k" and x.args[0] is Ellipsis:
            out.append(ELLIPSIS)
        elif isinstance(x, V.ExtV) and x.name == "Ellipsis":
            out.append(ELLIPSIS)
        elif isinstance(x, Term) and x.op == "ext" and isinstance(x.args[0], str) and (x.args[0].startswith("numpy.") and x.args[0][6:] not in ("argmin", "argmax", "searchsorted", "nanargmin", "nanargmax") or x.args[0] == "range"):
            raise NP.Bad("index of unknown shape")
        elif isinstance(x, Term):
            if x.op == "k" and isinstance(x.args[0], str):
                raise IndexError("only integers, slices are valid indices")
            if x.op == "n" and x.args[0].denominator != 1 if x.op == "n" and isinstance(x.args[0], Fraction) else False:
                raise IndexError("only integers are valid indices")
            out.append(x)
        elif isinstance(x, ArrV):
            if x.ndim == 0:
                out.append(x.elems[0])
            elif x.ndim == 1 and A.isint(x.shape[0]) and all(T.is_num(e) for e in x.elems):
                out.append([int(e.args[0]) for e in x.elems])
            else:
                out.append(x)
        elif isinstance(x, V.Ref) and I.rec(x).kind == "list":
            a = NP.to_arr(I, x)
            if a.ndim == 1 and all(T.is_num(e) for e in a.elems):
                out.append([int(e.args[0]) for e in a.elems])
            else:
                out.append(a)
        else:
            raise NP.Bad("index %r" % (x,))
    return tuple(out)


def const_slice(n, k):
    f = lambda t: None if t is T.NONE else int(t.args[0])
    if all(t is T.NONE or T.is_num(t) for t in (k.lo, k.hi, k.step)):
        return slice(f(k.lo), f(k.hi), f(k.step))
    return None


def pick(I, items, k, what):
    """items[k] for symbolic integer k"""
    V = _iv()
    if any(isinstance(x, (V.OptV, V.RepV)) for x in items) or len(items) > 12:
        return mk("item", I.embed(V.TupV(items)), k)

    def go(i):
        if i == len(items):
            I.raise_("IndexError", "%s index out of range" % what)
        return I.branch(T.lor(T.eq(k, num(i)), T.eq(k, num(i - len(items)))), lambda: items[i], lambda: go(i + 1))
    return go(0)


def seq_subscript(I, items, k, what):
    V = _iv()
    items = list(items)
    opt = any(isinstance(x, (V.OptV, V.RepV)) for x in items)
    if isinstance(k, V.SliceV):
        s = const_slice(len(items), k)
        if s is None:
            return None
        if opt:
            # leading definite part may still be sliced exactly
            if s.step in (None, 1) and (s.start or 0) >= 0 and s.stop is None and not any(
                    isinstance(x, (V.OptV, V.RepV)) for x in items[:(s.start or 0)]):
                return items[s]
            if s.step in (None, 1) and (s.start or 0) >= 0 and s.stop is not None and s.stop >= 0 and not any(
                    isinstance(x, (V.OptV, V.RepV)) for x in items[:s.stop]):
                return items[s]
            if s.step == -1 and s.start is None and s.stop is None:
                return items[::-1]
            return None
        return items[s]
    if isinstance(k, ArrV) and k.shape == ():
        k = k.elems[0]
    if isinstance(k, Term):
        if k.op == "k" and isinstance(k.args[0], bool):
            k = num(int(k.args[0]))
        if k.op == "k":
            I.raise_("TypeError", "%s indices must be integers" % what)
        if T.is_num(k):
            if k.args[0].denominator != 1:
                I.raise_("TypeError", "%s indices must be integers" % what)
            i = int(k.args[0])
            if not opt:
                if not -len(items) <= i < len(items):
                    I.raise_("IndexError", "%s index out of range" % what)
                return items[i]
            if i >= 0:
                head = items[:i + 1]
                if len(head) == i + 1 and not any(isinstance(x, (V.OptV, V.RepV)) for x in head):
                    return items[i]
                return opt_index(I, items, i, what)
            tail = items[i:]
            if len(tail) == -i and not any(isinstance(x, (V.OptV, V.RepV)) for x in tail):
                return items[i]
            return opt_index(I, items, i, what)
        return pick(I, items, k, what)
    if isinstance(k, (V.TupV,)):
        I.raise_("TypeError", "%s indices must be integers" % what)
    return mk("item", I.embed(V.TupV(items)), I.embed(k))


def opt_index(I, items, i, what):
    """index into a list whose items are conditionally present"""
    V = _iv()
    if any(isinstance(x, V.RepV) for x in items):
        return mk("item", I.embed(V.TupV([x.v if isinstance(x, V.RepV) else x for x in items])), num(i))
    seq = items if i >= 0 else items[::-1]
    n = i if i >= 0 else -i - 1

    def go(j, n):
        if j == len(seq):
            I.raise_("IndexError", "%s index out of range" % what)
        x = seq[j]
        if isinstance(x, V.OptV):
            return I.branch(x.c, (lambda: x.v) if n == 0 else (lambda: go(j + 1, n - 1)), lambda: go(j + 1, n))
        return x if n == 0 else go(j + 1, n - 1)
    return go(0, n)


def dict_get(I, d, k, missing):
    """missing: thunk when key absent"""
    V = _iv()
    hk = I.hkey(k)
    if hk in d:
        v = d[hk][1]
        if isinstance(v, V.OptV):
            return I.branch(v.c, lambda: v.v, missing)
        if isinstance(v, V.RepV):
            return v.v
        return v
    if I.known_key(hk) and all(I.known_key(x) for x in d):
        return missing()
    if not d:
        return missing()
    # gated lookup over candidate keys
    cands = list(d.items())

    def go(i):
        if i == len(cands):
            return missing()
        key, val = cands[i][1]
        if isinstance(val, V.OptV):
            return I.branch(T.land(val.c, I.truth(I.models.eq_(I, k, key))), lambda: val.v, lambda: go(i + 1))
        if isinstance(val, V.RepV):
            return I.branch(I.truth(I.models.eq_(I, k, key)), lambda: val.v, lambda: go(i + 1))
        return I.branch(I.truth(I.models.eq_(I, k, key)), lambda: val, lambda: go(i + 1))
    return go(0)


def subscript(I, o, k):
    V = _iv()
    if isinstance(o, V.Ref):
        r = I.rec(o)
        if r.kind == "list":
            x = seq_subscript(I, r.data, k, "list")
            if isinstance(k, V.SliceV):
                return I.new_list(x) if x is not None else mk("item", I.embed(o), I.embed(k))
            return x
        if r.kind == "dict":
            return dict_get(I, r.data, k, lambda: I.raise_("KeyError", "key"))
        if r.kind == "inst":
            f = I.class_attr(r.meta, "__getitem__") if isinstance(r.meta, V.ClassV) else None
            if f is not None:
                return I.call(V.BoundV(f, o), [k], {})
            if isinstance(r.meta, V.ClassV) and any(isinstance(b, V.ExtV) and b.name not in ("object", "abc.ABC", "ABC") for b in r.meta.mro):
                return mk("item", I.embed(o), I.embed(k))
            I.raise_("TypeError", "object is not subscriptable")
        if r.kind == "opq":
            return I.models.opq_subscript(I, o, k)
        if r.kind == "arr":
            o = I.deref(o)
        elif r.kind in ("set", "frozenset"):
            I.raise_("TypeError", "'set' object is not subscriptable")
    if isinstance(o, ArrV):
        try:
            kk = arr_key(I, k)
            r = A.index(o, kk)
        except IndexError as e:
            I.raise_("IndexError", str(e))
        except ShapeError as e:
            I.raise_("IndexError", str(e))
        except (Unsupported, NP.Bad):
            return mk("item", I.embed(o), I.embed(k))
        if r.ndim == 0:
            return r.elems[0] if r.elems[0] is not None else mk("item", I.embed(o), I.embed(k))
        if not any(isinstance(x, (ArrV, list)) for x in kk):
            r.roots = o.roots
        if r.roots:
            base = o.meta[1] if isinstance(o.meta, tuple) and o.meta and o.meta[0] == "view" else o
            r.meta = ("view", base, (o.meta[2] if base is not o else ()) + (kk,))
        return r
    if isinstance(o, V.TupV):
        x = seq_subscript(I, o.items, k, "tuple")
        if isinstance(k, V.SliceV):
            return V.TupV(x) if x is not None else mk("item", I.embed(o), I.embed(k))
        return x
    if isinstance(o, V.IterV):
        I.raise_("TypeError", "iterator is not subscriptable")
    if isinstance(o, (V.ClassV,)):
        f = I.class_attr(o, "__class_getitem__")
        if f is not None:
            return I.call(V.BoundV(f.f if isinstance(f, V.ClassMethV) else f, o), [k], {})
        if o.flags.get("enum"):
            return I.getattr(o, T.cval(k))
        return o
    if isinstance(o, V.ExtV):
        if o.name in ("numpy.r_", "numpy.c_", "numpy.s_"):
            return np_special_index(I, o.name, k)
        if o.name == "scipy.constants.physical_constants":
            nm = T.cval(k) if isinstance(k, Term) and T.is_const(k) else None
            if nm in NP.SCVAL:
                return V.TupV([NP.SCVAL[nm], const("unit"), mk("ext", "uncertainty", const(nm))])
        if o.name.split(".")[0] in ("typing", "list", "dict", "tuple", "set", "collections", "numpy", "type", "Type", "Callable", "Union", "Optional", "List", "Tuple", "Dict"):
            return o
        return mk("item", I.embed(o), I.embed(k))
    if isinstance(o, Term):
        if o.op == "k" and isinstance(o.args[0], str):
            s = o.args[0]
            if isinstance(k, V.SliceV):
                sl = const_slice(len(s), k)
                if sl is not None:
                    return const(s[sl])
            elif isinstance(k, Term) and T.is_num(k):
                i = int(k.args[0])
                if -len(s) <= i < len(s):
                    return const(s[i])
                I.raise_("IndexError", "string index out of range")
            return mk("item", o, I.embed(k))
        if o is T.NONE:
            I.raise_("TypeError", "'NoneType' object is not subscriptable")
        if is_numeric(o):
            if isinstance(k, V.TupV) and all(x is T.NONE or (isinstance(x, Term) and x.op == "k" and x.args[0] is Ellipsis) for x in k.items) or k is T.NONE:
                return A.index(A.scalar(o), arr_key(I, k))
            if isinstance(k, Term) and k.op == "k" and k.args[0] is Ellipsis or isinstance(k, V.TupV) and not k.items:
                return o
            I.raise_("TypeError", "number is not subscriptable")
        if o.op == "ite":
            return I.branch(o.args[0], lambda: I.subscript(o.args[1], k), lambda: I.subscript(o.args[2], k))
        if o.op in ("tuple",) and isinstance(k, Term) and T.is_num(k):
            i = int(k.args[0])
            if -len(o.args) <= i < len(o.args):
                return o.args[i]
        I.note_may_raise()
        return mk("item", o, I.embed(k))
    if isinstance(o, (V.FuncV, V.BoundV, V.ModV)):
        I.raise_("TypeError", "object is not subscriptable")
    return mk("item", I.embed(o), I.embed(k))


def np_special_index(I, name, k):
    V = _iv()
    if name == "numpy.s_":
        return k
    items = k.items if isinstance(k, V.TupV) else [k]
    try:
        arrs = []
        for x in items:
            if isinstance(x, V.SliceV):
                raise NP.Bad("r_ slice")
            a = NP.to_arr(I, x)
            arrs.append(A.index(a, (NEWAXIS,)) if a.ndim == 0 else a)
        if name == "numpy.c_":
            arrs = [A.index(a, (Sl(), NEWAXIS)) if a.ndim == 1 else a for a in arrs]
            return A.concatenate(arrs, 1)
        return A.concatenate(arrs, 0)
    except (NP.Bad, Unsupported, ShapeError):
        return mk("ext", name, *[I.embed(x) for x in items])


def write_back(I, base, keys, new):
    """store `new` for the view base[k1][k2].. -> new content of base"""
    if len(keys) == 1:
        return A.store(base, keys[0], new)
    inner = A.index(base, keys[0])
    return A.store(base, keys[0], write_back(I, inner, keys[1:], new))


def setitem(I, o, k, v):
    V = _iv()
    if isinstance(o, V.Ref):
        r = I.rec(o)
        if r.kind == "list":
            items = list(r.data)
            if isinstance(k, V.SliceV):
                s = const_slice(len(items), k)
                if s is None or any(isinstance(x, (V.OptV, V.RepV)) for x in items):
                    raise V.Undecided("slice assignment")
                items[s] = I.iterate(v)
                I.setrec(o, tuple(items), "[:]=", v)
                return None
            if isinstance(k, Term) and T.is_num(k):
                i = int(k.args[0])
                if not -len(items) <= i < len(items):
                    I.raise_("IndexError", "list assignment index out of range")
                items[i] = v
                I.setrec(o, tuple(items), "[%d]" % i, v)
                return None
            items = [I.merge_val(T.eq(I.embed(k), num(i)), v, x) for i, x in enumerate(items)]
            I.setrec(o, tuple(items), "[?]", v)
            return None
        if r.kind == "dict":
            if isinstance(r.meta, tuple) and r.meta and r.meta[0] == "instdict":
                I.raw_setattr(V.Ref(r.meta[1]), T.cval(k), v)
            if isinstance(r.meta, tuple) and r.meta and r.meta[0] == "globals":
                I.effects.append(V.Effect("global", r.meta[1], T.show(I.embed(k)), v, I.loc, I.st.pc, tuple(I.call_stack)))
            d = dict(r.data)
            hk = I.hkey(k)
            if not I.known_key(hk):
                for q, (kk, vv) in list(d.items()):
                    if q != hk:
                        e = I.truth(I.models.eq_(I, k, kk))
                        if e is not T.FALSE and not isinstance(vv, (V.OptV, V.RepV)):
                            d[q] = (kk, I.merge_val(e, v, vv))
            if hk in d:
                d[hk] = (d[hk][0], v)
            else:
                d[hk] = (k, v)
            I.setrec(o, d, "[%s]" % T.show(I.embed(k), 3), v)
            return None
        if r.kind == "inst":
            f = I.class_attr(r.meta, "__setitem__") if isinstance(r.meta, V.ClassV) else None
            if f is not None:
                I.call(V.BoundV(f, o), [k, v], {})
                return None
            I.opaque_effect("setitem", o, v)
            return None
        if r.kind == "opq":
            I.models.opq_setitem(I, o, k, v)
            return None
        if r.kind == "arr":
            a = r.data
            try:
                new = A.store(a, arr_key(I, k), NP.cast_for(I, r, NP.to_arr(I, v)))
            except (IndexError, ShapeError) as e:
                I.raise_("ValueError" if isinstance(e, ShapeError) else "IndexError", str(e))
            except (Unsupported, NP.Bad) as e:
                new = a.map(lambda x: mk("stored", x, I.embed(k), I.embed(v)))
            I.setrec(o, ArrV(new.shape, new.elems), "[%s]" % T.show(I.embed(k), 2), v)
            return None
    if isinstance(o, ArrV):
        roots = o.roots
        meta = o.meta
        try:
            kk = arr_key(I, k)
            val = NP.to_arr(I, v)
            new = A.store(o, kk, val)
        except (IndexError, ShapeError) as e:
            I.raise_("ValueError" if isinstance(e, ShapeError) else "IndexError", str(e))
        except (Unsupported, NP.Bad):
            new = o.map(lambda x: mk("stored", x, I.embed(k), I.embed(v)))
            kk = None
        # write-through to the arrays this value is a view of
        for oid in roots:
            rr = V.Ref(oid)
            if oid not in I.st.heap:
                continue
            content = I.rec(rr).data
            done = False
            if kk is not None and isinstance(meta, tuple) and meta and meta[0] == "view" and meta[1].roots == frozenset([oid]) and meta[1].shape == content.shape:
                try:
                    c2 = write_back(I, content, list(meta[2]) + [kk], NP.cast_for(I, I.rec(rr), val))
                    I.setrec(rr, ArrV(c2.shape, c2.elems), "view", v)
                    done = True
                except (Unsupported, ShapeError, IndexError):
                    pass
            if not done:
                c2 = content.map(lambda x: mk("stored", x, I.embed(o), I.embed(k), I.embed(v)))
                I.setrec(rr, ArrV(c2.shape, c2.elems), "view", v)
        return ArrV(new.shape, new.elems, roots, meta)
    if isinstance(o, V.ExtV):
        __import__("sa.models_call", fromlist=["x"]).put_setting(I, "%s[%s]" % (o.name, T.show(I.embed(k), 3)), I.embed(v))
        I.opaque_effect("setitem", o, v)
        return None
    if isinstance(o, V.TupV) or (isinstance(o, Term) and (T.is_const(o) or is_numeric(o))):
        I.raise_("TypeError", "object does not support item assignment")
    I.opaque_effect("setitem", o, v)
    return None


def delitem(I, o, k):
    V = _iv()
    if isinstance(o, V.Ref):
        r = I.rec(o)
        if r.kind == "dict":
            hk = I.hkey(k)
            if hk in r.data:
                d = dict(r.data)
                v = d.pop(hk)
                if isinstance(v[1], V.OptV):
                    I.raise_if(T.lnot(v[1].c), "KeyError", "key")
                I.setrec(o, d, "del[]")
                return
            if I.known_key(hk) and all(I.known_key(x) for x in r.data):
                I.raise_("KeyError", "key")
            raise V.Undecided("del with unknown key")
        if r.kind == "list":
            items = list(r.data)
            if isinstance(k, V.SliceV):
                s = const_slice(len(items), k)
                if s is None:
                    raise V.Undecided("del slice")
                del items[s]
            elif isinstance(k, Term) and T.is_num(k):
                i = int(k.args[0])
                if not -len(items) <= i < len(items):
                    I.raise_("IndexError", "list assignment index out of range")
                if any(isinstance(x, (V.OptV, V.RepV)) for x in items[: i + 1 if i >= 0 else None]):
                    raise V.Undecided("del on conditional list")
                del items[i]
            else:
                raise V.Undecided("del with unknown index")
            I.setrec(o, tuple(items), "del[]")
            return
        if r.kind == "inst":
            f = I.class_attr(r.meta, "__delitem__") if isinstance(r.meta, V.ClassV) else None
            if f is not None:
                I.call(V.BoundV(f, o), [k], {})
                return
    I.opaque_effect("delitem", o)
