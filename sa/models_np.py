"""Models of numpy / scipy functions used by the analysed program."""
from fractions import Fraction

from . import terms as T
from .terms import Term, mk, const, num
from . import arrays as A
from .arrays import ArrV, ShapeError, Unsupported, Sl, NEWAXIS, ELLIPSIS

PI = T.sym("const:pi", "pos")
H = T.sym("const:h", "pos")
HBAR = T.div(H, T.mul(num(2), PI))
C = T.sym("const:c", "pos")
E = T.sym("const:e", "pos")
EPS0 = T.sym("const:eps0", "pos")
ME = T.sym("const:m_e", "pos")
KB = T.sym("const:k_B", "pos")
H_EV = T.div(H, E)

SC = {
    "pi": PI, "h": H, "Planck": H, "hbar": HBAR, "c": C, "speed_of_light": C, "e": E, "elementary_charge": E,
    "epsilon_0": EPS0, "m_e": ME, "electron_mass": ME, "k": KB, "Boltzmann": KB, "eV": E, "electron_volt": E,
    "nano": num(Fraction(1, 10**9)), "micro": num(Fraction(1, 10**6)), "milli": num(Fraction(1, 1000)),
    "angstrom": num(Fraction(1, 10**10)), "degree": T.div(PI, num(180)), "micron": num(Fraction(1, 10**6)),
    "centi": num(Fraction(1, 100)), "kilo": num(1000), "giga": num(10**9),
}
SCVAL = {
    "Planck constant in eV/Hz": H_EV, "Planck constant": H, "speed of light in vacuum": C,
    "elementary charge": E, "vacuum electric permittivity": EPS0, "electric constant": EPS0, "electron mass": ME,
    "reduced Planck constant": HBAR, "reduced Planck constant in eV s": T.div(HBAR, E), "Planck constant over 2 pi in eV s": T.div(HBAR, E),
}
D2R = T.div(PI, num(180))
R2D = T.div(num(180), PI)


class Bad(Exception):
    """numpy call outside the modelled part -> opaque"""


BIG = 64  # longer constant grids are kept as one symbolic axis of known length


def realdomain(name):
    """numpy (not scimath) function of a real argument yields nan outside the real domain"""
    def f(x):
        if T.is_real(x) and not T.is_nonneg(x) and not T.is_num(x) and name in ("sqrt", "log", "log10", "log2"):
            return mk("fn", "r" + name, x)
        if T.is_real(x) and name in ("arcsin", "arccos") and not T.is_num(x):
            return mk("fn", "r" + name, x)
        if name == "log2":
            return T.div(T.fn("log", x), T.fn("log", num(2)))
        if name == "log10":
            return T.div(T.fn("log", x), T.fn("log", num(10)))
        return T.fn(name, x)
    return f


def u(name):
    return lambda x: T.fn(name, x)


def np_pow(a, b):
    """numpy power: negative real base with fractional exponent -> nan"""
    return T.power(a, b)


def mod(a, b):
    from .interp import mod as m
    return m(a, b)


def sci_pow(a, b):
    return T.power(a, b)


UNARY = {
    "sin": u("sin"), "cos": u("cos"), "tan": u("tan"), "exp": u("exp"), "arctan": u("arctan"), "sinh": u("sinh"),
    "cosh": u("cosh"), "tanh": u("tanh"), "log": realdomain("log"), "log10": realdomain("log10"), "log2": realdomain("log2"),
    "sqrt": realdomain("sqrt"), "arcsin": realdomain("arcsin"), "arccos": realdomain("arccos"),
    "abs": u("abs"), "absolute": u("abs"), "fabs": u("abs"), "conj": u("conj"), "conjugate": u("conj"), "real": u("re"), "imag": u("im"),
    "deg2rad": lambda x: T.mul(x, D2R), "radians": lambda x: T.mul(x, D2R),
    "rad2deg": lambda x: T.mul(x, R2D), "degrees": lambda x: T.mul(x, R2D),
    "square": lambda x: T.power(x, num(2)), "sign": u("sign"), "floor": u("floor"), "negative": T.neg, "positive": lambda x: x,
    "reciprocal": lambda x: T.div(T.ONE, x), "logical_not": lambda x: T.lnot(_b(x)), "invert": lambda x: T.lnot(x) if T.isbool(x) else mk("fn", "invert", x),
    "bitwise_not": lambda x: T.lnot(x) if T.isbool(x) else mk("fn", "invert", x),
    "isnan": u("isnan"), "isfinite": u("isfinite"), "expm1": lambda x: T.sub(T.fn("exp", x), T.ONE),
    "asin": realdomain("arcsin"), "acos": realdomain("arccos"), "atan": u("arctan"), "ceil": lambda x: T.neg(T.fn("floor", T.neg(x))),
    "real_if_close": lambda x: x, "nan_to_num": u("nan_to_num"), "iscomplex": lambda x: T.lnot(T.eq(T.fn("im", x), T.ZERO)),
    "isreal": lambda x: T.eq(T.fn("im", x), T.ZERO), "log1p": lambda x: T.fn("log", T.add(x, T.ONE)),
}
SCIMATH = {"sqrt": u("sqrt"), "arcsin": u("arcsin"), "arccos": u("arccos"), "log": u("log"),
           "log10": lambda x: T.div(T.fn("log", x), T.fn("log", num(10)))}


def _b(x):
    if T.isbool(x):
        return x
    if x.op == "n":
        return T.TRUE if x.args[0] != 0 else T.FALSE
    return T.lnot(T.eq(x, T.ZERO))


def _masked(a, b, f):
    """numpy's logical functions on nullable booleans (a missing operand makes the result missing)"""
    return T.NA if a is T.NA or b is T.NA else f(_b(a), _b(b))


BINARY = {
    "add": T.add, "subtract": T.sub, "multiply": T.mul, "divide": T.div, "true_divide": T.div, "power": T.power, "pow": T.power,
    "float_power": T.power,
    "mod": mod, "remainder": mod, "arctan2": lambda a, b: mk("fn", "arctan2", a, b), "heaviside": lambda a, b: heaviside(a, b),
    "maximum": lambda a, b: T.ite(T.lt(a, b), b, a), "minimum": lambda a, b: T.ite(T.lt(b, a), b, a),
    "fmax": lambda a, b: T.ite(T.lt(a, b), b, a), "fmin": lambda a, b: T.ite(T.lt(b, a), b, a),
    "equal": T.eq, "not_equal": lambda a, b: T.lnot(T.eq(a, b)), "less": T.lt, "less_equal": T.le,
    "greater": lambda a, b: T.lt(b, a), "greater_equal": lambda a, b: T.le(b, a),
    "logical_and": lambda a, b: _masked(a, b, T.land), "logical_or": lambda a, b: _masked(a, b, T.lor),
    "logical_xor": lambda a, b: T.lnot(T.eq(_b(a), _b(b))), "hypot": lambda a, b: T.fn("sqrt", T.add(T.power(a, num(2)), T.power(b, num(2)))),
    "bitwise_and": lambda a, b: T.land(a, b) if T.isbool(a) and T.isbool(b) else mk("fn", "BitAnd", a, b),
    "bitwise_or": lambda a, b: T.lor(a, b) if T.isbool(a) and T.isbool(b) else mk("fn", "BitOr", a, b),
    "floor_divide": lambda a, b: mk("fn", "floordiv", a, b), "fmod": lambda a, b: mk("fn", "fmod", a, b),
}


def heaviside(a, b):
    if T.is_num(a):
        return T.ite(T.lt(a, T.ZERO), T.ZERO, T.ite(T.eq(a, T.ZERO), b, T.ONE))
    return T.ite(T.lt(a, T.ZERO), T.ZERO, T.ite(T.eq(a, T.ZERO), b, T.ONE))


# ------------------------------------------------------------------ conversion
def to_arr(I, v):
    """value -> ArrV (numpy semantics of np.asarray)"""
    from .interp import TupV, Ref, PhiV, IterV, OptV, RepV
    from .models_obj import shapeless
    v = I.deref(v)
    if isinstance(v, ArrV):
        return v
    if isinstance(v, Term):
        if v.op == "ext" and v.args[0] == "range" and len(v.args) == 2:
            return ArrV((v.args[1],), (T.var(1),))
        return A.scalar(v)
    if isinstance(v, (TupV, Ref)):
        items = None
        if isinstance(v, TupV):
            items = list(v.items)
        else:
            r = I.rec(v)
            if r.kind == "list":
                items = list(r.data)
            elif r.kind == "opq":
                return I.models.opq_array(I, v)
            elif r.kind == "inst":
                from . import models_call as MC
                if MC.wrapper(I, v):
                    return to_arr(I, MC.unwrap(I, v))
        if items is None:
            raise Bad("array of %s" % v)
        if len(items) == 1 and isinstance(items[0], RepV) and items[0].ix:
            ix, n = items[0].ix
            x = to_arr(I, items[0].v)
            if x.ndim == 0 and any(maybe_array(e) or shapeless(e) for e in x.elems):
                raise Bad("array of values of unknown shape")
            k = T.var(x.ndim + 1)
            return ArrV((n,) + tuple(x.shape), [T.rewrite(e, lambda u: k if u is ix else None) for e in x.elems])
        if any(isinstance(x, (OptV, RepV)) for x in items):
            raise Bad("array of unknown length")
        if not items:
            return ArrV((0,), ())
        arrs = [to_arr(I, x) for x in items]
        opq = [a for a in arrs if a.ndim == 0]
        if any(shapeless(x) and x.op not in ("elem", "item") for a in opq for x in a.elems):
            raise Bad("array of values of unknown shape")
        if opq and len(opq) != len(arrs):
            # opaque scalars of unknown shape may be arrays
            shp = max((a.shape for a in arrs), key=len)
            arrs = [A.broadcast_to(a, shp) if a.ndim == 0 and maybe_array(a.elems[0]) else a for a in arrs]
        return A.stack(arrs, 0)
    if isinstance(v, PhiV):
        a, b = to_arr(I, v.a), to_arr(I, v.b)
        if a.shape == b.shape:
            return ArrV(a.shape, [T.ite(v.c, x, y) for x, y in zip(a.elems, b.elems)])
    raise Bad("array of %r" % (v,))


def maybe_array(t):
    return t.op in ("ext", "attr", "item", "elem", "loopout", "phi", "meth")


def shape_arg(I, v):
    from .interp import TupV, Ref
    v = I.deref(v)
    if isinstance(v, Term):
        items = [v]
    elif isinstance(v, TupV):
        items = v.items
    elif isinstance(v, ArrV):
        items = v.elems
    else:
        items = I.iterate(v)
    out = []
    for x in items:
        x = I.deref(x)
        if isinstance(x, ArrV) and x.ndim == 0:
            x = x.elems[0]
        if not isinstance(x, Term):
            raise Bad("shape")
        out.append((int(x.args[0]) if x.args[0] <= BIG else T.num(int(x.args[0]))) if T.is_num(x) else x)
    return tuple(out)


def dims_value(shape):
    from .interp import TupV
    return TupV([A.dimterm(d) for d in shape])


def wrap(I, a):
    """result of a numpy function: 0-d -> scalar term"""
    if isinstance(a, ArrV) and a.shape == () :
        return a.elems[0]
    return a


def fresh(I, a, dtype=None):
    """a new array; an explicit real element type casts the elements and everything stored later"""
    if dtype is None or dtype is T.NONE:
        return I.new_arr(a)
    from . import models_meth
    r = I.new_arr(models_meth.astype(I, a, dtype))
    n = models_meth.type_name(dtype)
    if n.startswith(("float", "double", "int", "uint", "bool")):
        rec = I.st.heap[r.oid]
        I.st.heap[r.oid] = type(rec)(rec.kind, rec.data, ("dt", n))
    return r


FLOAT = mk("k", "float")


def cast_for(I, rec, val):
    """val as stored in the array record rec"""
    if isinstance(rec.meta, tuple) and rec.meta and rec.meta[0] == "dt":
        from . import models_meth
        return models_meth.astype(I, val, mk("k", rec.meta[1]))
    return val


def dtype_of(I, v):
    from .interp import Ref
    if isinstance(v, Ref):
        m = I.rec(v).meta
        if isinstance(m, tuple) and m and m[0] == "dt":
            return mk("k", m[1])
    return None


def axes_arg(I, v):
    if v is None or v is T.NONE:
        return None
    if isinstance(v, Term):
        if not T.is_num(v):
            raise Bad("axis")
        return [int(v.args[0])]
    return [int(x.args[0]) for x in I.iterate(v)]


FN = {}


def reg(*names):
    def d(f):
        for n in names:
            FN[n] = f
        return f
    return d


def cint(v, I=None):
    if isinstance(v, int):
        return v
    if isinstance(v, Term) and T.is_num(v):
        return int(v.args[0])
    raise Bad("integer expected")


class Args:
    """positional/keyword binder"""

    def __init__(self, args, kwargs, *names):
        self.d = {}
        for n, v in zip(names, args):
            self.d[n] = v
        if len(args) > len(names):
            raise Bad("too many args")
        for k, v in kwargs.items():
            if k in self.d:
                raise Bad("dup arg")
            self.d[k] = v

    def get(self, n, default=None):
        return self.d.get(n, default)


@reg("array")
def np_array(I, args, kwargs):
    p = Args(args, kwargs, "object", "dtype")
    return fresh(I, to_arr(I, p.get("object")), p.get("dtype"))


@reg("asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "asarray_chkfinite")
def np_asarray(I, args, kwargs, name="asarray"):
    from .interp import Ref
    v = args[0]
    d = I.deref(v)
    dt = args[1] if len(args) > 1 and name != "atleast_1d" else kwargs.get("dtype")
    if isinstance(d, ArrV):
        if name == "atleast_1d" and d.ndim == 0:
            return fresh(I, A.index(d, (NEWAXIS,)))
        if dt is not None and dt is not T.NONE:
            from . import models_meth
            c = models_meth.astype(I, d, dt)
            if any(x is not y for x, y in zip(c.elems, d.elems)):
                return fresh(I, d, dt)
        return v
    a = to_arr(I, v)
    if dt is not None and dt is not T.NONE:
        return fresh(I, a, dt)
    if name == "atleast_1d" and a.ndim == 0:
        a = A.index(a, (NEWAXIS,))
    return fresh(I, a)


@reg("copy")
def np_copy(I, args, kwargs):
    return fresh(I, to_arr(I, args[0]))


def filled(val):
    def f(I, args, kwargs):
        p = Args(args, kwargs, "shape", "dtype", "order")
        shape = shape_arg(I, p.get("shape"))
        n = 1
        for d in shape:
            if A.isint(d):
                n *= d
        dt = p.get("dtype")
        return fresh(I, ArrV(shape, [val] * n), FLOAT if dt is None or dt is T.NONE else dt)
    return f


FN["zeros"] = filled(T.ZERO)
FN["ones"] = filled(T.ONE)
FN["empty"] = filled(mk("fn", "uninit"))


@reg("full")
def np_full(I, args, kwargs):
    p = Args(args, kwargs, "shape", "fill_value", "dtype")
    shape = shape_arg(I, p.get("shape"))
    return fresh(I, A.broadcast_to(to_arr(I, p.get("fill_value")), shape), p.get("dtype"))


def like(val):
    def f(I, args, kwargs):
        p = Args(args, kwargs, "a", "dtype")
        a = to_arr(I, p.get("a"))
        dt = p.get("dtype")
        return fresh(I, ArrV(a.shape, [val] * len(a.elems)), dtype_of(I, p.get("a")) if dt is None or dt is T.NONE else dt)
    return f


FN["zeros_like"] = like(T.ZERO)
FN["ones_like"] = like(T.ONE)
FN["empty_like"] = like(mk("fn", "uninit"))


@reg("full_like")
def np_full_like(I, args, kwargs):
    p = Args(args, kwargs, "a", "fill_value", "dtype")
    a = to_arr(I, p.get("a"))
    dt = p.get("dtype")
    return fresh(I, A.broadcast_to(to_arr(I, p.get("fill_value")), a.shape), dtype_of(I, p.get("a")) if dt is None or dt is T.NONE else dt)


@reg("identity", "eye")
def np_eye(I, args, kwargs):
    p = Args(args, kwargs, "n", "m", "k", "dtype")
    n = cint(p.get("n"))
    if p.get("m") is not None and p.get("m") is not T.NONE:
        raise Bad("eye m")
    dt = p.get("dtype")
    return fresh(I, ArrV((n, n), [T.ONE if i == j else T.ZERO for i in range(n) for j in range(n)]), FLOAT if dt is None or dt is T.NONE else dt)


@reg("diag")
def np_diag(I, args, kwargs):
    a = to_arr(I, args[0])
    if len(args) > 1 or kwargs:
        raise Bad("diag k")
    if a.ndim == 1 and A.isint(a.shape[0]):
        n = a.shape[0]
        return fresh(I, ArrV((n, n), [a.elems[i] if i == j else T.ZERO for i in range(n) for j in range(n)]))
    if a.ndim == 2 and all(A.isint(d) for d in a.shape):
        n = min(a.shape)
        return ArrV((n,), [a.at((i, i)) for i in range(n)], a.roots)
    raise Bad("diag")


@reg("arange")
def np_arange(I, args, kwargs):
    vals = [I.deref(a) for a in args]
    if all(isinstance(v, Term) and T.is_num(v) for v in vals):
        s = [v.args[0] for v in vals]
        if len(s) == 1:
            lo, hi, st = Fraction(0), s[0], Fraction(1)
        else:
            lo, hi = s[0], s[1]
            st = s[2] if len(s) > 2 else Fraction(1)
        out = []
        x = lo
        ty = "float" if any(v.args[1] == "float" for v in vals) else "int"
        cnt = -((lo - hi) // st) if st else 0
        if cnt > BIG:
            return fresh(I, ArrV((num(int(cnt)),), (T.add(num(lo), T.mul(num(st), T.var(1))),)))
        while (x < hi if st > 0 else x > hi) and len(out) < 1000:
            out.append(mk("n", x, ty))
            x += st
        if len(out) < 1000:
            return fresh(I, ArrV((len(out),), out))
    if len(vals) == 1 and isinstance(vals[0], Term):
        return fresh(I, ArrV((vals[0],), (T.var(1),)))
    if len(vals) == 2 and isinstance(vals[0], Term) and isinstance(vals[1], Term):
        return fresh(I, ArrV((T.sub(vals[1], vals[0]),), (T.add(T.var(1), vals[0]),)))
    raise Bad("arange")


@reg("linspace")
def np_linspace(I, args, kwargs):
    p = Args(args, kwargs, "start", "stop", "num", "endpoint", "retstep", "dtype")
    if p.get("retstep") is not None:
        raise Bad("retstep")
    endp = p.get("endpoint", T.TRUE)
    a, b = I.num_operand(p.get("start")), I.num_operand(p.get("stop"))
    n = p.get("num", num(50))
    if not (isinstance(a, Term) and isinstance(b, Term)):
        raise Bad("linspace array")
    n = I.deref(n)
    nt = n
    dn = T.sub(nt, T.ONE) if endp is T.TRUE else nt
    if isinstance(n, Term) and T.is_num(n):
        k = int(n.args[0])
        if k == 1:
            return fresh(I, ArrV((1,), (a,)))
        if k > BIG:
            return fresh(I, ArrV((num(k),), (T.add(a, T.mul(T.div(T.var(1), dn), T.sub(b, a))),)))
        return fresh(I, ArrV((k,), [T.add(a, T.mul(T.div(num(i), dn), T.sub(b, a))) for i in range(k)]))
    return fresh(I, ArrV((nt,), (T.add(a, T.mul(T.div(T.var(1), dn), T.sub(b, a))),)))


@reg("shape")
def np_shape(I, args, kwargs):
    v = I.deref(args[0])
    if isinstance(v, Term) and maybe_array(v):
        return mk("attr", v, "shape")
    return dims_value(to_arr(I, v).shape)


@reg("ndim")
def np_ndim(I, args, kwargs):
    v = I.deref(args[0])
    if isinstance(v, Term) and maybe_array(v):
        return mk("attr", v, "ndim")
    return num(to_arr(I, v).ndim)


@reg("size")
def np_size(I, args, kwargs):
    a = to_arr(I, args[0])
    return T.mul(*[A.dimterm(d) for d in a.shape]) if a.shape else T.ONE


@reg("isscalar")
def np_isscalar(I, args, kwargs):
    v = I.deref(args[0])
    if isinstance(v, Term):
        return T.TRUE if not maybe_array(v) else mk("fn", "truth", mk("ext", "isscalar", v))
    return T.FALSE


@reg("tile")
def np_tile(I, args, kwargs):
    p = Args(args, kwargs, "A", "reps")
    a = to_arr(I, p.get("A"))
    reps = shape_arg(I, p.get("reps"))
    n = max(a.ndim, len(reps))
    reps = (1,) * (n - len(reps)) + reps
    a = A.index(a, (NEWAXIS,) * (n - a.ndim) + (ELLIPSIS,))
    for ax, r in enumerate(reps):
        if A.isint(r) and r == 1:
            continue
        if A.isint(a.shape[ax]) and a.shape[ax] == 1:
            shape = list(a.shape)
            shape[ax] = r
            a = A.broadcast_to(a, tuple(shape))
        elif A.isint(r) and A.isint(a.shape[ax]):
            a = A.concatenate([a] * r, ax)
        else:
            raise Bad("tile")
    return fresh(I, a)


@reg("repeat")
def np_repeat(I, args, kwargs):
    p = Args(args, kwargs, "a", "repeats", "axis")
    a = to_arr(I, p.get("a"))
    r = I.deref(p.get("repeats"))
    ax = p.get("axis")
    if not isinstance(r, Term):
        raise Bad("repeats")
    rr = int(r.args[0]) if T.is_num(r) else r
    if a.ndim == 0:
        return fresh(I, A.broadcast_to(A.index(a, (NEWAXIS,)), (rr,)))
    if ax is None:
        if a.ndim == 1:
            ax = 0
        else:
            raise Bad("repeat flatten")
    else:
        ax = cint(ax) % a.ndim
    if A.isint(a.shape[ax]) and a.shape[ax] == 1:
        shape = list(a.shape)
        shape[ax] = rr
        return fresh(I, A.broadcast_to(a, tuple(shape)))
    if A.isint(a.shape[ax]) and A.isint(rr):
        key = [Sl()] * a.ndim
        key[ax] = [i for i in range(a.shape[ax]) for _ in range(rr)]
        return fresh(I, A.index(a, tuple(key)))
    raise Bad("repeat")


@reg("broadcast_to")
def np_broadcast_to(I, args, kwargs):
    a = to_arr(I, args[0])
    return A.broadcast_to(a, shape_arg(I, args[1]))


@reg("broadcast_arrays")
def np_broadcast_arrays(I, args, kwargs):
    arrs = [to_arr(I, a) for a in args]
    s = A.broadcast([a.shape for a in arrs])
    return I.new_list([A.broadcast_to(a, s) for a in arrs])


@reg("moveaxis")
def np_moveaxis(I, args, kwargs):
    p = Args(args, kwargs, "a", "source", "destination")
    return A.moveaxis(to_arr(I, p.get("a")), axes_arg(I, p.get("source")), axes_arg(I, p.get("destination")))


@reg("rollaxis")
def np_rollaxis(I, args, kwargs):
    p = Args(args, kwargs, "a", "axis", "start")
    a = to_arr(I, p.get("a"))
    ax = cint(p.get("axis")) % a.ndim
    st = cint(p.get("start", num(0)))
    if st < 0:
        st += a.ndim
    if ax < st:
        st -= 1
    return A.moveaxis(a, [ax], [st])


@reg("transpose")
def np_transpose(I, args, kwargs):
    p = Args(args, kwargs, "a", "axes")
    a = to_arr(I, p.get("a"))
    ax = axes_arg(I, p.get("axes"))
    perm = [x % a.ndim for x in ax] if ax else list(reversed(range(a.ndim)))
    return A.transpose(a, perm)


@reg("swapaxes")
def np_swapaxes(I, args, kwargs):
    p = Args(args, kwargs, "a", "axis1", "axis2")
    a = to_arr(I, p.get("a"))
    i, j = cint(p.get("axis1")) % a.ndim, cint(p.get("axis2")) % a.ndim
    perm = list(range(a.ndim))
    perm[i], perm[j] = perm[j], perm[i]
    return A.transpose(a, perm)


@reg("reshape")
def np_reshape(I, args, kwargs):
    p = Args(args, kwargs, "a", "shape", "order")
    a = to_arr(I, p.get("a"))
    return A.reshape(a, shape_arg(I, p.get("shape", kwargs.get("newshape"))))


@reg("squeeze")
def np_squeeze(I, args, kwargs):
    p = Args(args, kwargs, "a", "axis")
    a = to_arr(I, p.get("a"))
    return wrap0(A.squeeze(a, axes_arg(I, p.get("axis"))))


def wrap0(a):
    return a


@reg("expand_dims")
def np_expand_dims(I, args, kwargs):
    p = Args(args, kwargs, "a", "axis")
    a = to_arr(I, p.get("a"))
    for ax in sorted(x % (a.ndim + 1) for x in axes_arg(I, p.get("axis"))):
        a = A.index(a, (Sl(),) * ax + (NEWAXIS, ELLIPSIS))
    return a


@reg("ravel")
def np_ravel(I, args, kwargs):
    a = to_arr(I, args[0])
    return A.reshape(a, (-1,))


@reg("stack")
def np_stack(I, args, kwargs):
    p = Args(args, kwargs, "arrays", "axis")
    arrs = [to_arr(I, x) for x in I.iterate(p.get("arrays"))]
    return fresh(I, A.stack(arrs, cint(p.get("axis", num(0)))))


def seq(I, v):
    items = I.iterate(v, allow_unknown=True)
    from .interp import OptV, RepV
    if items is None or any(isinstance(x, (OptV, RepV)) for x in items):
        raise Bad("sequence")
    return [to_arr(I, x) for x in items]


@reg("concatenate")
def np_concatenate(I, args, kwargs):
    p = Args(args, kwargs, "arrays", "axis")
    arrs = seq(I, p.get("arrays"))
    ax = p.get("axis", num(0))
    if any(a.ndim == 0 for a in arrs):
        raise ShapeError("zero-dimensional arrays cannot be concatenated")
    return fresh(I, A.concatenate(arrs, cint(ax)))


@reg("vstack", "row_stack")
def np_vstack(I, args, kwargs):
    arrs = [A.index(a, (NEWAXIS, ELLIPSIS)) if a.ndim == 1 else a for a in seq(I, args[0])]
    arrs = [A.index(a, (NEWAXIS, NEWAXIS)) if a.ndim == 0 else a for a in arrs]
    return fresh(I, A.concatenate(arrs, 0))


@reg("hstack")
def np_hstack(I, args, kwargs):
    arrs = [A.index(a, (NEWAXIS,)) if a.ndim == 0 else a for a in seq(I, args[0])]
    return fresh(I, A.concatenate(arrs, 0 if arrs[0].ndim == 1 else 1))


@reg("column_stack")
def np_column_stack(I, args, kwargs):
    arrs = [A.index(a, (Sl(), NEWAXIS)) if a.ndim == 1 else a for a in seq(I, args[0])]
    return fresh(I, A.concatenate(arrs, 1))


@reg("append")
def np_append(I, args, kwargs):
    p = Args(args, kwargs, "arr", "values", "axis")
    a, b = to_arr(I, p.get("arr")), to_arr(I, p.get("values"))
    if p.get("axis") is None and a.ndim <= 1 and b.ndim <= 1:
        a = A.index(a, (NEWAXIS,)) if a.ndim == 0 else a
        b = A.index(b, (NEWAXIS,)) if b.ndim == 0 else b
        return fresh(I, A.concatenate([a, b], 0))
    raise Bad("append")


@reg("einsum")
def np_einsum(I, args, kwargs):
    spec = args[0]
    if not (isinstance(spec, Term) and spec.op == "k"):
        raise Bad("einsum spec")
    return A.einsum(spec.args[0], [to_arr(I, x) for x in args[1:]])


@reg("matmul")
def np_matmul(I, args, kwargs):
    return wrap(I, A.matmul(to_arr(I, args[0]), to_arr(I, args[1])))


@reg("dot")
def np_dot(I, args, kwargs):
    a, b = to_arr(I, args[0]), to_arr(I, args[1])
    return wrap(I, dot(a, b))


def dot(a, b):
    if a.ndim == 0 or b.ndim == 0:
        return A.elementwise(T.mul, a, b)
    if b.ndim <= 2:
        if b.ndim == 2 and a.ndim > 2:
            return A.matmul(a, b)
        if b.ndim == 1:
            return A.matmul(a, b)
        return A.matmul(a, b)
    raise Bad("dot nd")


@reg("vdot")
def np_vdot(I, args, kwargs):
    a, b = to_arr(I, args[0]), to_arr(I, args[1])
    if a.ndim > 1 or b.ndim > 1:
        raise Bad("vdot")
    return wrap(I, dot(ArrV(a.shape, [T.fn("conj", x) for x in a.elems]), b))


@reg("fromiter")
def np_fromiter(I, args, kwargs):
    from .interp import TupV
    p = Args(args, kwargs, "iter", "dtype", "count")
    items = I.iterate(p.get("iter"), True)
    if items is None or p.get("count") is not None:
        raise Bad("fromiter")
    return fresh(I, to_arr(I, TupV(items)), p.get("dtype"))


@reg("outer")
def np_outer(I, args, kwargs):
    a, b = to_arr(I, args[0]), to_arr(I, args[1])
    if a.ndim != 1 or b.ndim != 1:
        raise Bad("outer")
    return A.elementwise(T.mul, A.index(a, (Sl(), NEWAXIS)), A.index(b, (NEWAXIS, Sl())))


@reg("cross")
def np_cross(I, args, kwargs):
    a, b = to_arr(I, args[0]), to_arr(I, args[1])
    if a.shape != (3,) or b.shape != (3,):
        raise Bad("cross")
    x, y = a.elems, b.elems
    c = lambda i, j: T.sub(T.mul(x[i], y[j]), T.mul(x[j], y[i]))
    return fresh(I, ArrV((3,), [c(1, 2), c(2, 0), c(0, 1)]))


@reg("kron")
def np_kron(I, args, kwargs):
    a, b = to_arr(I, args[0]), to_arr(I, args[1])
    if a.ndim == 2 and b.ndim == 2 and all(map(A.isint, a.shape + b.shape)):
        m, n = a.shape
        p, q = b.shape
        return ArrV((m * p, n * q), [T.mul(a.at((i // p, j // q)), b.at((i % p, j % q))) for i in range(m * p) for j in range(n * q)])
    raise Bad("kron")


@reg("linalg.inv")
def np_inv(I, args, kwargs):
    return A.inverse(to_arr(I, args[0]))


@reg("linalg.det")
def np_det(I, args, kwargs):
    a = to_arr(I, args[0])
    n = a.shape[-1]
    out = []
    for bi in A.indices(a.shape[:-2]):
        out.append(A.determinant([[a.at(list(bi) + [i, j]) for j in range(n)] for i in range(n)]))
    mp = {}
    nd = a.ndim
    for ax in range(nd - 2):
        if not A.isint(a.shape[ax]):
            mp[nd - ax] = nd - 2 - ax
    return wrap(I, A.rename(ArrV(a.shape[:-2], out), a.shape[:-2], list(A.indices(a.shape[:-2])), mp))


@reg("linalg.solve")
def np_solve(I, args, kwargs):
    a, b = to_arr(I, args[0]), to_arr(I, args[1])
    return A.matmul(A.inverse(a), b)


@reg("linalg.norm")
def np_norm(I, args, kwargs):
    a = to_arr(I, args[0])
    if len(args) > 1 or kwargs or a.ndim != 1 or not A.isint(a.shape[0]):
        raise Bad("norm")
    return T.fn("sqrt", T.add(*[T.mul(e, T.fn("conj", e)) for e in a.elems]))


@reg("polyval")
def np_polyval(I, args, kwargs):
    p = Args(args, kwargs, "p", "x")
    r = None
    x = to_arr(I, p.get("x"))
    for c in seq(I, p.get("p")):
        c = to_arr(I, c)
        if c.ndim:
            raise Bad("polyval nd")
        r = c if r is None else A.elementwise(T.add, A.elementwise(T.mul, r, x), c)
    if r is None:
        raise Bad("polyval of nothing")
    if not r.ndim and x.ndim:
        r = A.elementwise(lambda a, b: a, r, x)
    return wrap(I, r)


@reg("polynomial.polynomial.polyval")
def np_poly_polyval(I, args, kwargs):
    p = Args(args, kwargs, "x", "c", "tensor")
    return np_polyval(I, [I.new_list(list(seq(I, p.get("c")))[::-1]), p.get("x")], {})


@reg("linalg.multi_dot")
def np_multi_dot(I, args, kwargs):
    r = None
    for x in seq(I, args[0]):
        a = to_arr(I, x)
        r = a if r is None else dot(r, a)
    return wrap(I, r)


@reg("linalg.matrix_power")
def np_matrix_power(I, args, kwargs):
    a = to_arr(I, args[0])
    n = I.deref(args[1])
    if isinstance(n, Term) and T.is_num(n):
        k = int(n.args[0])
        if k < 0:
            a = A.inverse(a)
            k = -k
        r = None
        if k == 0:
            m = a.shape[-1]
            return A.broadcast_to(ArrV((m, m), [T.ONE if i == j else T.ZERO for i in range(m) for j in range(m)]), a.shape)
        r = a
        for _ in range(k - 1):
            r = A.matmul(r, a)
        return r
    m = a.shape[-1]
    if a.ndim == 2 and A.isint(m):
        return ArrV(a.shape, [mk("ext", "matpow", mk("mat", *a.elems), n, num(i), num(j)) for i in range(m) for j in range(m)])
    raise Bad("matrix_power")


def blocks(M, n):
    """connected index sets of the non-zero pattern"""
    grp = list(range(n))
    for i in range(n):
        for j in range(n):
            if i != j and not T.iszero(M[i][j]):
                x, y = grp[i], grp[j]
                grp = [x if g == y else g for g in grp]
    out = {}
    for i, g in enumerate(grp):
        out.setdefault(g, []).append(i)
    return list(out.values())


def half_trace(M, x, y):
    h = T.div(T.add(M[x][x], M[y][y]), num(2))
    d = T.div(T.sub(M[x][x], M[y][y]), num(2))
    w = T.fn("sqrt", T.add(T.mul(d, d), T.mul(M[x][y], M[y][x])))
    return h, w


def mat_opaque(name):
    """matrix function; closed form for blocks of size one and two, otherwise opaque per element"""
    def f(I, args, kwargs):
        a = to_arr(I, args[0])
        n = a.shape[-1]
        if a.ndim < 2 or not A.isint(n):
            raise Bad(name)
        scal = {"expm": lambda x: T.fn("exp", x), "sqrtm": lambda x: T.fn("sqrt", x), "logm": lambda x: T.fn("log", x)}[name]
        out = [None] * len(a.elems)
        for bi in A.indices(a.shape[:-2]):
            M = [[a.at(list(bi) + [i, j]) for j in range(n)] for i in range(n)]
            R = [[T.ZERO] * n for _ in range(n)]
            for blk in blocks(M, n):
                if len(blk) == 1:
                    R[blk[0]][blk[0]] = scal(M[blk[0]][blk[0]])
                elif len(blk) == 2 and name == "expm":
                    x, y = blk
                    h, w = half_trace(M, x, y)
                    e, c = T.fn("exp", h), T.fn("cosh", w)
                    s = T.div(T.fn("sinh", w), w)
                    for i in blk:
                        for j in blk:
                            R[i][j] = T.mul(e, T.add(T.mul(s, T.sub(M[i][j], h if i == j else T.ZERO)), c if i == j else T.ZERO))
                else:
                    m = mk("mat", *[M[i][j] for i in blk for j in blk])
                    for p, i in enumerate(blk):
                        for q, j in enumerate(blk):
                            R[i][j] = mk("ext", name, m, num(p), num(q))
            for i in range(n):
                for j in range(n):
                    out[a.offset(list(bi) + [i, j])] = R[i][j]
        return ArrV(a.shape, out)
    return f


FN["expm"] = mat_opaque("expm")
FN["logm"] = mat_opaque("logm")
FN["sqrtm"] = mat_opaque("sqrtm")


@reg("linalg.eig")
def np_eig(I, args, kwargs):
    """eigenpairs; closed form (eigenvectors of unit norm) for matrices of blocks up to size two"""
    from .interp import TupV
    a = to_arr(I, args[0])
    n = a.shape[-1]
    if not A.isint(n):
        raise Bad("eig")
    ws, vs = [], [None] * len(a.elems)
    nd = a.ndim
    for bi in A.indices(a.shape[:-2]):
        M = [[a.at(list(bi) + [i, j]) for j in range(n)] for i in range(n)]
        bl = blocks(M, n)
        if all(len(b) <= 2 for b in bl):
            vals, vecs = [], []
            for b in bl:
                if len(b) == 1:
                    vals.append(M[b[0]][b[0]])
                    vecs.append([T.ONE if i == b[0] else T.ZERO for i in range(n)])
                    continue
                x, y = b
                h, w = half_trace(M, x, y)
                for sg in (1, -1):
                    lam = T.add(h, w) if sg > 0 else T.sub(h, w)
                    if not T.iszero(M[x][y]):
                        v = {x: M[x][y], y: T.sub(lam, M[x][x])}
                    else:
                        v = {x: T.sub(lam, M[y][y]), y: M[y][x]}
                    nrm = T.fn("sqrt", T.add(T.power(T.fn("abs", v[x]), num(2)), T.power(T.fn("abs", v[y]), num(2))))
                    vals.append(lam)
                    vecs.append([T.div(v[i], nrm) if i in v else T.ZERO for i in range(n)])
            ws += vals
            for i in range(n):
                for j in range(n):
                    vs[a.offset(list(bi) + [i, j])] = vecs[j][i]
            continue
        m = mk("mat", *[M[i][j] for i in range(n) for j in range(n)])
        ws += [mk("ext", "eigval", m, num(k)) for k in range(n)]
        for i in range(n):
            for j in range(n):
                vs[a.offset(list(bi) + [i, j])] = mk("ext", "eigvec", m, num(i), num(j))
    mp = {}
    for ax in range(nd - 2):
        if not A.isint(a.shape[ax]):
            mp[nd - ax] = nd - 1 - ax
    w = ArrV(a.shape[:-1], ws)
    w = A.rename(w, w.shape, list(A.indices(w.shape)), mp)
    return TupV([w, ArrV(a.shape, vs)], ("eigenvalues", "eigenvectors"), "EigResult")


def concrete_order(keys, n):
    """permutation when every key is a known number"""
    vals = []
    for k in keys:
        row = []
        for t in k:
            v = fold_real(t)
            if v is None:
                return None
            row.append(v)
        vals.append(row)
    return sorted(range(n), key=lambda j: tuple(r[j] for r in reversed(vals)))


def fold_real(t):
    if T.is_num(t) and isinstance(t.args[0], Fraction):
        return t.args[0]
    try:
        v = norm_const(t)
    except Exception:
        return None
    return v


def norm_const(t):
    """value of a closed real term (no symbols)"""
    from . import norm
    if T.atoms(t, lambda u: u.op in ("sym", "idx", "ext", "var", "item", "meth", "attr")):
        return None
    z = norm.Interp("const").ev(t)
    z = complex(z)
    if abs(z.imag) > 1e-12:
        return None
    return round(z.real, 12)


def sort_opaque(name):
    def f(I, args, kwargs):
        from .interp import TupV
        p = Args(args, kwargs, "a", "axis")
        v = p.get("a")
        if name == "lexsort":
            keys = seq(I, v) if not isinstance(I.deref(v), ArrV) else [A.index(I.deref(v), (k,)) for k in range(I.deref(v).shape[0])]
        else:
            keys = [to_arr(I, v)]
        s = keys[0].shape
        n = s[-1]
        ax = cint(p.get("axis", num(-1)))
        if ax not in (-1, len(s) - 1) or p.get("kind") is not None and False:
            raise Bad("sort axis")
        if not A.isint(n):
            if len(s) == 1:
                return ArrV(s, (mk("ext", name, T.var(1), *[mk("bindarg", A.bindsum("vec", k.elems[0], 1, n)) for k in keys]),))
            raise Bad("sort symbolic")
        out = []
        for bi in A.indices(s[:-1]):
            order = concrete_order([[k.at(list(bi) + [j]) for j in range(n)] for k in keys], n)
            if order is not None:
                out += [num(j) for j in order]
                continue
            row = [mk("row", *[k.at(list(bi) + [j]) for j in range(n)]) for k in keys]
            out += [mk("ext", name, num(j), *row) for j in range(n)]
        return fresh(I, ArrV(s, out))
    return f


FN["argsort"] = sort_opaque("argsort")
FN["lexsort"] = sort_opaque("lexsort")


@reg("sort")
def np_sort(I, args, kwargs):
    a = to_arr(I, args[0])
    n = a.shape[-1]
    if a.ndim == 1 and not A.isint(n):
        return fresh(I, ArrV(a.shape, (mk("ext", "sorted", T.var(1), A.bindsum("vec", a.elems[0], 1, n)),)))
    raise Bad("sort")


@reg("take_along_axis")
def np_take_along(I, args, kwargs):
    p = Args(args, kwargs, "arr", "indices", "axis")
    a, i = to_arr(I, p.get("arr")), to_arr(I, p.get("indices"))
    ax = cint(p.get("axis")) % a.ndim
    n = a.shape[ax]
    if not A.isint(n) or i.ndim != a.ndim:
        raise Bad("take_along_axis")
    shape = list(A.broadcast([tuple(1 if k == ax else d for k, d in enumerate(a.shape)), tuple(1 if k == ax else d for k, d in enumerate(i.shape))]))
    shape[ax] = i.shape[ax]
    out = []
    for idx in A.indices(shape):
        src = list(idx)
        ii = i.at(A.bindex(src, i.shape))
        row = []
        for k in range(n):
            s2 = list(idx)
            s2[ax] = k
            row.append(a.at(A.bindex(s2, a.shape)))
        if T.is_num(ii):
            out.append(row[int(ii.args[0])])
        else:
            out.append(mk("ext", "pick", ii, *row))
    return fresh(I, ArrV(shape, out))


def reducer(name, f):
    def g(I, args, kwargs):
        p = Args(args, kwargs, "a", "axis", "dtype", "out", "keepdims")
        a = to_arr(I, p.get("a"))
        if p.get("keepdims") not in (None, T.FALSE):
            keep = True
        else:
            keep = False
        ax = axes_arg(I, p.get("axis"))
        if name in ("any", "all"):
            a = a.map(_b)
        if ax is None:
            ax = list(range(a.ndim))
        nd = a.ndim
        for x in sorted((x % nd for x in ax), reverse=True):
            if x >= nd:
                raise ShapeError("axis out of bounds")
            a = A.reduce(a, name, x, f)
        if keep:
            for x in sorted(x % nd for x in ax):
                a = A.index(a, (Sl(),) * x + (NEWAXIS, ELLIPSIS))
        return wrap(I, a)
    return g


def fold(op):
    def f(es):
        r = es[0]
        for e in es[1:]:
            r = op(r, e)
        return r
    return f


FN["sum"] = reducer("sum", lambda es: T.add(*es) if es else T.ZERO)
FN["prod"] = reducer("prod", lambda es: T.mul(*es) if es else T.ONE)
FN["mean"] = FN["average"] = reducer("mean", lambda es: T.div(T.add(*es), num(len(es))))
FN["any"] = reducer("any", lambda es: T.lor(*es) if es else T.FALSE)
FN["all"] = reducer("all", lambda es: T.land(*es) if es else T.TRUE)
FN["max"] = FN["amax"] = reducer("max", fold(BINARY["maximum"]))
FN["min"] = FN["amin"] = reducer("min", fold(BINARY["minimum"]))
FN["nansum"] = reducer("nansum", lambda es: mk("fn", "nansum", *es))


@reg("cumsum")
def np_cumsum(I, args, kwargs):
    p = Args(args, kwargs, "a", "axis")
    a = to_arr(I, p.get("a"))
    if a.ndim == 1 and A.isint(a.shape[0]):
        out, acc = [], T.ZERO
        for e in a.elems:
            acc = T.add(acc, e)
            out.append(acc)
        return fresh(I, ArrV(a.shape, out))
    raise Bad("cumsum")


@reg("diff")
def np_diff(I, args, kwargs):
    p = Args(args, kwargs, "a", "n", "axis", "prepend", "append")
    if p.get("n") is not None and p.get("n") is not T.ONE:
        raise Bad("diff n")
    a = to_arr(I, p.get("a"))
    ax = cint(p.get("axis", num(-1))) % a.ndim
    parts = []
    pre, app = p.get("prepend"), p.get("append")

    def edge(v):
        e = to_arr(I, v)
        if e.ndim == 0:
            shape = list(a.shape)
            shape[ax] = 1
            e = A.broadcast_to(e, tuple(shape))
        return e
    if pre is None and app is None:
        return fresh(I, A.diff(a, ax))
    if a.ndim == 1 and not A.isint(a.shape[0]):
        # explicit piecewise: prepend -> first element special
        n = a.shape[0]
        v = T.var(1)
        e = a.elems[0]
        at = lambda i: T.rename_vars(e, {1: i})
        if pre is not None and app is None:
            p0 = edge(pre)
            if p0.shape != (1,):
                raise Bad("prepend")
            el = T.ite(T.eq(v, T.ZERO), T.sub(at(T.ZERO), p0.elems[0]), T.sub(e, at(T.sub(v, T.ONE))))
            return fresh(I, ArrV((n,), (el,)))
        if app is not None and pre is None:
            p1 = edge(app)
            if p1.shape != (1,):
                raise Bad("append")
            last = T.sub(n, T.ONE)
            el = T.ite(T.eq(v, last), T.sub(p1.elems[0], at(last)), T.sub(at(T.add(v, T.ONE)), e))
            return fresh(I, ArrV((n,), (el,)))
        raise Bad("diff both")
    arrs = ([edge(pre)] if pre is not None else []) + [a] + ([edge(app)] if app is not None else [])
    return fresh(I, A.diff(A.concatenate(arrs, ax), ax))


@reg("trace")
def np_trace(I, args, kwargs):
    a = to_arr(I, args[0])
    if len(args) > 1 or kwargs or a.ndim != 2 or a.shape[0] != a.shape[1] or not A.isint(a.shape[0]):
        raise Bad("trace")
    return T.add(*[a.at((i, i)) for i in range(a.shape[0])])


@reg("gradient")
def np_gradient(I, args, kwargs):
    raise Bad("gradient")


@reg("where")
def np_where(I, args, kwargs):
    from .interp import TupV
    if len(args) == 3:
        c, a, b = [to_arr(I, x) for x in args]
        return fresh(I, A.elementwise(lambda p, q, r: T.ite(_b(p), q, r), c, a, b))
    if len(args) == 1:
        return np_nonzero(I, args, kwargs)
    raise Bad("where")


@reg("nonzero", "flatnonzero")
def np_nonzero(I, args, kwargs):
    a = to_arr(I, args[0])
    if not all(A.isint(d) for d in a.shape) or not all(T.is_const(_b(e) if not T.is_const(e) else e) for e in a.elems):
        if a.ndim and all(T.isbool(e) for e in a.elems):
            from .interp import TupV
            out = []
            for ax in range(a.ndim):
                m = ArrV((mk("fn", "nsel", *a.elems),), [mk("nzidx", num(ax), mk("idxsrc", *a.elems))])
                m.meta = ("nz", a, ax)
                out.append(m)
            return TupV(out)
        raise Bad("nonzero")
    from .interp import TupV
    hits = [ix for ix, e in zip(A.indices(a.shape), a.elems) if _b(e) is T.TRUE]
    return TupV([ArrV((len(hits),), [num(h[ax]) for h in hits]) for ax in range(a.ndim)])


@reg("select")
def np_select(I, args, kwargs):
    p = Args(args, kwargs, "condlist", "choicelist", "default")
    conds, ch = seq(I, p.get("condlist")), seq(I, p.get("choicelist"))
    r = to_arr(I, p.get("default", T.ZERO))
    for c, x in reversed(list(zip(conds, ch))):
        r = A.elementwise(lambda p, q, z: T.ite(_b(p), q, z), c, x, r)
    return fresh(I, r)


@reg("piecewise")
def np_piecewise(I, args, kwargs):
    raise Bad("piecewise")


@reg("clip")
def np_clip(I, args, kwargs):
    p = Args(args, kwargs, "a", "a_min", "a_max")
    a = to_arr(I, p.get("a"))
    lo, hi = p.get("a_min"), p.get("a_max")
    if lo not in (None, T.NONE):
        a = A.elementwise(BINARY["maximum"], a, to_arr(I, lo))
    if hi not in (None, T.NONE):
        a = A.elementwise(BINARY["minimum"], a, to_arr(I, hi))
    return wrap(I, a)


@reg("angle")
def np_angle(I, args, kwargs):
    p = Args(args, kwargs, "z", "deg")
    a = to_arr(I, p.get("z"))
    deg = p.get("deg", T.FALSE)
    ang = lambda z: T.fn("angle", z)
    if deg is T.TRUE:
        ang = lambda z: T.mul(T.fn("angle", z), R2D)
    elif deg is not T.FALSE:
        raise Bad("angle deg")
    return wrap(I, a.map(ang))


@reg("round", "around", "rint")
def np_round(I, args, kwargs):
    a = to_arr(I, args[0])
    if len(args) > 1 or kwargs:
        d = I.embed(args[1] if len(args) > 1 else kwargs.get("decimals"))
        return wrap(I, a.map(lambda e: mk("fn", "round", e, d)))
    return wrap(I, a.map(lambda e: mk("fn", "round", e)))


@reg("flip", "flipud")
def np_flip(I, args, kwargs):
    p = Args(args, kwargs, "m", "axis")
    a = to_arr(I, p.get("m"))
    ax = axes_arg(I, p.get("axis"))
    if ax is None:
        ax = range(a.ndim)
    key = [Sl()] * a.ndim
    for x in ax:
        key[x % a.ndim] = Sl(None, None, T.MONE)
    return A.index(a, tuple(key))


@reg("trapz", "trapezoid")
def np_trapz(I, args, kwargs):
    p = Args(args, kwargs, "y", "x", "dx", "axis")
    y, x = to_arr(I, p.get("y")), to_arr(I, p.get("x"))
    ax = cint(p.get("axis", num(-1))) % y.ndim
    if x.ndim == 1 and y.ndim > 1:
        raise Bad("trapz nd")
    d = A.diff(x, -1)
    k1 = [Sl()] * y.ndim
    k2 = [Sl()] * y.ndim
    k1[ax], k2[ax] = Sl(T.ONE, None), Sl(None, T.MONE)
    avg = A.elementwise(lambda p, q, r: T.mul(num(Fraction(1, 2)), p, T.add(q, r)), d, A.index(y, tuple(k1)), A.index(y, tuple(k2)))
    return wrap(I, A.reduce(avg, "sum", ax, lambda es: T.add(*es)))


def close(I, args, kwargs):
    p = Args(args, kwargs, "a", "b", "rtol", "atol", "equal_nan")
    a, b = to_arr(I, p.get("a")), to_arr(I, p.get("b"))
    rtol, atol = to_arr(I, p.get("rtol", num(Fraction(1, 10 ** 5)))), to_arr(I, p.get("atol", num(Fraction(1, 10 ** 8))))
    if rtol.ndim or atol.ndim:
        raise Bad("isclose")
    r, t = rtol.elems[0], atol.elems[0]
    return A.elementwise(lambda x, y: T.lor(T.eq(x, y), T.lnot(T.lt(T.add(t, T.mul(r, T.fn("abs", y))), T.fn("abs", T.sub(x, y))))), a, b)


@reg("isclose")
def np_isclose(I, args, kwargs):
    return wrap(I, close(I, args, kwargs))


@reg("allclose")
def np_allclose(I, args, kwargs):
    return FN["all"](I, [fresh(I, close(I, args, kwargs))], {})


@reg("array_equal")
def np_array_equal(I, args, kwargs):
    p = Args(args, kwargs, "a1", "a2", "equal_nan")
    a, b = to_arr(I, p.get("a1")), to_arr(I, p.get("a2"))
    if a.ndim != b.ndim:
        return T.FALSE
    for x, y in zip(a.shape, b.shape):
        if A.isint(x) and A.isint(y):
            if x != y:
                return T.FALSE
        elif x is not y:
            raise Bad("array_equal")
    return FN["all"](I, [fresh(I, A.elementwise(T.eq, a, b))], {})


@reg("isin", "in1d")
def np_isin(I, args, kwargs):
    p = Args(args, kwargs, "element", "test_elements", "assume_unique", "invert")
    from .interp import OptV, Ref
    a, t = to_arr(I, p.get("element")), p.get("test_elements")
    r = I.rec(t) if isinstance(t, Ref) else None
    if r is not None and r.kind == "list" and any(isinstance(x, OptV) for x in r.data):
        # a list some of whose items are there only under a condition
        tests = [(x.c, x.v) if isinstance(x, OptV) else (T.TRUE, x) for x in r.data]
        if not all(isinstance(x, Term) for c, x in tests):
            raise Bad("isin")
    else:
        b = to_arr(I, t)
        if not all(A.isint(d) for d in b.shape):
            raise Bad("isin")
        tests = [(T.TRUE, x) for x in b.elems]
    inv = p.get("invert", T.FALSE)
    out = a.map(lambda e: T.lor(*[T.land(c, T.eq(e, x)) for c, x in tests]) if tests else T.FALSE)
    if inv is T.TRUE:
        out = out.map(T.lnot)
    return out if out.ndim else out.elems[0]


@reg("unique")
def np_unique(I, args, kwargs):
    """distinct values in order, when every value is known"""
    p = Args(args, kwargs, "ar", "return_index", "return_inverse", "return_counts", "axis")
    a = to_arr(I, p.get("ar"))
    if set(kwargs) - {"ar"} or len(args) > 1 or not all(isinstance(x, Term) and (x.op == "n" or x.op == "k" and isinstance(x.args[0], str)) for x in a.elems):
        raise Bad("unique")
    try:
        out = sorted({T.cval(x): x for x in reversed(a.elems)}.items())
    except TypeError:
        raise Bad("unique")
    return ArrV((len(out),), [x for _, x in out])


@reg("fill_diagonal")
def np_fill_diagonal(I, args, kwargs):
    from .interp import Ref
    a = I.deref(args[0])
    if not isinstance(args[0], Ref) or not isinstance(a, ArrV) or a.ndim != 2:
        raise Bad("fill_diagonal")
    v = to_arr(I, args[1])
    if v.ndim != 0:
        raise Bad("fill_diagonal")
    if all(A.isint(d) for d in a.shape):
        es = [v.elems[0] if i == j else a.at((i, j)) for i, j in A.indices(a.shape)]
    else:
        es = [T.ite(T.eq(T.var(2), T.var(1)), v.elems[0], e) for e in a.elems]
    I.setrec(args[0], ArrV(a.shape, es), "fill_diagonal")
    return T.NONE


@reg("meshgrid")
def np_meshgrid(I, args, kwargs):
    arrs = [to_arr(I, a) for a in args]
    if len(arrs) != 2 or any(a.ndim != 1 for a in arrs):
        raise Bad("meshgrid")
    ind = kwargs.get("indexing", const("xy"))
    x, y = arrs
    if ind is const("xy"):
        shape = (y.shape[0], x.shape[0])
        return I.new_list([A.broadcast_to(A.index(x, (NEWAXIS, Sl())), shape), A.broadcast_to(A.index(y, (Sl(), NEWAXIS)), shape)])
    shape = (x.shape[0], y.shape[0])
    return I.new_list([A.broadcast_to(A.index(x, (Sl(), NEWAXIS)), shape), A.broadcast_to(A.index(y, (NEWAXIS, Sl())), shape)])


@reg("ix_")
def np_ix(I, args, kwargs):
    from .interp import TupV
    arrs = [to_arr(I, x) for x in args]
    if any(a.ndim != 1 or any(T.isbool(e) for e in a.elems) for a in arrs):
        raise Bad("ix_")
    n = len(arrs)
    return TupV([A.index(a, tuple(Sl() if j == i else NEWAXIS for j in range(n))) for i, a in enumerate(arrs)])


@reg("divmod")
def np_divmod(I, args, kwargs):
    raise Bad("divmod")


@reg("sinc")
def np_sinc(I, args, kwargs):
    raise Bad("sinc")


@reg("complex128", "complex64", "float64", "float32", "float_", "double", "cdouble", "complex_")
def np_cast(I, args, kwargs):
    v = I.deref(args[0])
    if isinstance(v, Term):
        return v
    return to_arr(I, v)


@reg("swapcase")
def _none(I, args, kwargs):
    raise Bad("x")


TYPED = ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like", "eye", "identity", "asanyarray", "ascontiguousarray", "asarray_chkfinite")


def call_np(I, name, args, kwargs):
    """numpy.<name>; returns value or raises Bad for opaque treatment"""
    keep = ("dtype",) if name in TYPED else ()
    kwargs = {k: v for k, v in kwargs.items() if k in keep or k not in ("dtype", "copy", "casting", "order", "subok")} if name not in ("array", "asarray") else {
        k: v for k, v in kwargs.items() if k not in ("copy", "order", "ndmin", "subok")}
    out = kwargs.pop("out", None)
    wh = kwargs.pop("where", None) if name not in ("where",) else None
    if name in UNARY and len(args) == 1 and not kwargs:
        r = I.lift(UNARY[name], arg1(I, args[0]))
        r = r if not (isinstance(r, ArrV) and r.shape == ()) else r.elems[0]
        if name in ("real", "imag") :
            a = I.deref(args[0])
            if isinstance(a, ArrV) and isinstance(r, ArrV):
                r.roots = a.roots
    elif name in BINARY and len(args) >= 2 and not kwargs:
        r = I.lift(BINARY[name], arg1(I, args[0]), arg1(I, args[1]))
        r = r if not (isinstance(r, ArrV) and r.shape == ()) else r.elems[0]
        if len(args) == 3:
            out = args[2]
    elif "." in name and name.split(".")[0] in BINARY and name.endswith(".outer"):
        a, b = to_arr(I, args[0]), to_arr(I, args[1])
        if a.ndim != 1 or b.ndim != 1:
            raise Bad("outer")
        r = A.elementwise(BINARY[name.split(".")[0]], A.index(a, (Sl(), NEWAXIS)), A.index(b, (NEWAXIS, Sl())))
    elif "." in name and name.split(".")[0] in ("add", "multiply", "logical_and", "logical_or") and name.endswith(".reduce"):
        r = FN[{"add": "sum", "multiply": "prod", "logical_and": "all", "logical_or": "any"}[name.split(".")[0]]](
            I, args if len(args) > 1 or "axis" in kwargs else list(args) + [num(0)], kwargs)
    elif name in FN:
        if name in ("asarray", "atleast_1d", "asanyarray", "ascontiguousarray"):
            r = np_asarray(I, args, {}, name)
        else:
            r = FN[name](I, args, kwargs)
    else:
        raise Bad("numpy." + name)
    if wh is not None and wh is not T.TRUE:
        if not (name in UNARY or name in BINARY) or name in FN and out is None:
            raise Bad("where=")
        from .interp import Ref
        m = to_arr(I, wh)
        if not all(T.isbool(e) for e in m.elems):
            raise Bad("where=")
        r = to_arr(I, r)
        if isinstance(out, Ref) and I.rec(out).kind == "arr":
            old = I.rec(out).data
        elif out is None:
            old = A.scalar(mk("ext", "numpy.uninitialised"))
        else:
            raise Bad("out=")
        r = A.elementwise(lambda c, x, y: T.ite(c, x, y), m, r, old)
    if out is not None:
        from .interp import Ref
        if isinstance(out, Ref) and I.rec(out).kind == "arr":
            a = to_arr(I, r)
            I.setrec(out, cast_for(I, I.rec(out), A.broadcast_to(a, I.rec(out).data.shape)), "out=")
            return out
        raise Bad("out=")
    return r


def arg1(I, v):
    v = I.num_operand(v)
    from .interp import Ref
    if isinstance(v, Term) and v.op in ("list", "tuple"):
        pass
    return v


def np_operand(I, v):
    return v
