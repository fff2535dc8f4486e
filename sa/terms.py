"""Hash-consed value-flow terms (scalar level).

A term denotes the value of a scalar expression as a function of the analysis
inputs.  Array indices along symbolic axes appear as index variables `$k`, where
k counts axes from the right (see arrays.py).
"""
from fractions import Fraction
import math

_table = {}
_counter = [0]


class Term:
    __slots__ = ("op", "args", "id", "loc", "_vars", "_size")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


CURRENT_LOC = [None]


def mk(op, *args):
    key = (op,) + args
    # numbers: distinguish int 1 / True / Fraction(1) / 1.0 by type
    t = _table.get(key if op not in ("k",) else (op, type(args[0]).__name__) + args)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = _counter[0]
        _counter[0] += 1
        t.loc = CURRENT_LOC[0]
        t._vars = None
        t._size = None
        _table[key if op not in ("k",) else (op, type(args[0]).__name__) + args] = t
    return t


# ---------------------------------------------------------------- constants
# 'n' : (Fraction value, 'int'|'float')    'I' : imaginary unit
# 'k' : other python constant (None, bool, str, bytes, Ellipsis)
def num(v, ty=None):
    if isinstance(v, bool):
        return mk("k", v)
    if isinstance(v, int):
        return mk("n", Fraction(v), ty or "int")
    if isinstance(v, Fraction):
        return mk("n", v, ty or "float")
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return mk("fn", "nan" if v != v else ("inf" if v > 0 else "neginf"))
        return mk("n", Fraction(repr(v)), ty or "float")
    if isinstance(v, complex):
        return add(num(v.real), mul(num(v.imag), I))
    raise TypeError(v)


def const(v):
    if isinstance(v, (int, float, complex, Fraction)) and not isinstance(v, bool):
        return num(v)
    return mk("k", v)


I = mk("I")
ZERO = num(0)
ONE = num(1)
MONE = num(-1)
TRUE = mk("k", True)
FALSE = mk("k", False)
NONE = mk("k", None)


class _NAType:
    def __repr__(self):
        return "<NA>"


NA = mk("k", _NAType())


def is_num(t):
    return t.op == "n"


def is_const(t):
    return t.op in ("n", "k")


def cval(t):
    """python value of a constant term"""
    if t.op == "n":
        v = t.args[0]
        if t.args[1] == "int" and v.denominator == 1:
            return int(v)
        return v
    return t.args[0]


def is_true(t):
    return t is TRUE


def _ty(*ts):
    for t in ts:
        if t.op == "n" and t.args[1] == "float":
            return "float"
    return "int"


def iszero(t):
    return t.op == "n" and t.args[0] == 0


def isone(t):
    return t.op == "n" and t.args[0] == 1


def boolnum(t):
    """arithmetic on a boolean constant"""
    if t.op == "k" and isinstance(t.args[0], bool):
        return num(int(t.args[0]))
    return t


def add(*ts):
    acc = Fraction(0)
    ty = "int"
    rest = []
    for t in ts:
        t = boolnum(t)
        if t.op == "n":
            acc += t.args[0]
            if t.args[1] == "float":
                ty = "float"
        elif t.op == "add":
            for u in t.args:
                if u.op == "n":
                    acc += u.args[0]
                    if u.args[1] == "float":
                        ty = "float"
                else:
                    rest.append(u)
        else:
            rest.append(t)
    if not rest:
        return mk("n", acc, ty)
    # cancel t + (-1)*t
    coeff = {}
    order = []
    for t in rest:
        c, b = split_coeff(t)
        if b not in coeff:
            order.append(b)
            coeff[b] = Fraction(0)
        coeff[b] += c
    out = []
    for b in order:
        c = coeff[b]
        if c == 0:
            continue
        out.append(b if c == 1 else mul(mk("n", c, "float" if c.denominator != 1 else "int"), b))
    if acc != 0 or not out:
        out.append(mk("n", acc, ty))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("add", *out)


def split_coeff(t):
    if t.op == "n":
        return t.args[0], ONE
    if t.op == "mul" and t.args[0].op == "n":
        r = t.args[1:]
        return t.args[0].args[0], (r[0] if len(r) == 1 else mk("mul", *r))
    return Fraction(1), t


def mul(*ts):
    acc = Fraction(1)
    ty = "int"
    pw = {}
    order = []
    ni = 0

    def push(t, e):
        nonlocal acc, ty, ni
        t = boolnum(t)
        if t.op == "n":
            if t.args[1] == "float":
                ty = "float"
            if e == 1:
                acc *= t.args[0]
                return
            if t.args[0] != 0 and e.denominator == 1:
                acc *= t.args[0] ** int(e)
                return
        if t.op == "I" and e.denominator == 1:
            ni += int(e)
            return
        if t.op == "mul" and e.denominator == 1:
            for u in t.args:
                push(u, e)
            return
        if t.op == "pow" and t.args[1].op == "n" and e.denominator == 1:
            b, x = t.args[0], t.args[1].args[0] * e
            if x.denominator == 1 or t.args[1].args[0].denominator != 1:
                if b not in pw:
                    order.append(b)
                    pw[b] = Fraction(0)
                pw[b] += x
                return
        if t not in pw:
            order.append(t)
            pw[t] = Fraction(0)
        pw[t] += e

    for t in ts:
        push(t, Fraction(1))
    if acc == 0:
        nan = [b for b in order if b.op == "fn" and b.args[0] == "nan"]
        return nan[0] if nan else mk("n", Fraction(0), ty)
    ni %= 4
    if ni >= 2:
        acc = -acc
        ni -= 2
    out = []
    for b in order:
        e = pw[b]
        if e == 0:
            continue
        out.append(b if e == 1 else mk("pow", b, mk("n", e, "int" if e.denominator == 1 else "float")))
    if ni:
        out.append(I)
    if not out:
        return mk("n", acc, ty)
    out.sort(key=lambda t: t.id)
    if acc != 1:
        # distribute numeric coefficient over a lone sum (keeps -(a-b) = b-a)
        if len(out) == 1 and out[0].op == "add":
            return add(*[mul(mk("n", acc, ty), u) for u in out[0].args])
        out.insert(0, mk("n", acc, ty))
    if len(out) == 1:
        return out[0]
    return mk("mul", *out)


def neg(t):
    return mul(MONE, t)


def sub(a, b):
    return add(a, neg(b))


def power(a, b):
    a = boolnum(a)
    if b.op == "n":
        e = b.args[0]
        if e == 1:
            return a
        if e == 0:
            return ONE
        if e == Fraction(1, 2):
            return fn("sqrt", a)
        if a.op == "n" and e.denominator == 1 and (a.args[0] != 0 or e > 0) and abs(e) < 64:
            return mk("n", a.args[0] ** int(e), "float" if (a.args[1] == "float" or b.args[1] == "float" or e < 0) else "int")
        if e.denominator == 1:
            return mul(mk("pow", a, mk("n", e, "int"))) if a.op not in ("mul", "pow", "I") else mul_pow(a, e)
    return mk("pow", a, b)


def mul_pow(a, e):
    if a.op == "I":
        k = int(e) % 4
        return [ONE, I, MONE, neg(I)][k]
    if a.op == "pow":
        if a.args[1].op == "n":
            return mul(mk("pow", a.args[0], mk("n", a.args[1].args[0] * e, "int"))) if a.args[1].args[0] * e != 1 else a.args[0]
        return mk("pow", a, mk("n", e, "int"))
    return mul(*[power(u, mk("n", e, "int")) for u in a.args])


def div(a, b):
    if isone(b):
        return a
    if iszero(a):
        if iszero(b):
            return mk("fn", "nan")
        return mk("n", Fraction(0), "float")
    if b.op == "n" and b.args[0] != 0:
        return mul(mk("n", Fraction(1) / b.args[0], "float"), a)
    r = mul(a, power(b, MONE))
    return r


_even = {"cos", "abs", "cosh"}
_odd = {"sin", "tan", "arcsin", "arctan", "sinh", "tanh"}


def fn(name, *args):
    """elementary scalar function with light simplification"""
    if len(args) == 1:
        a = boolnum(args[0])
        if a.op == "n":
            v = a.args[0]
            if name in ("re", "conj"):
                return a
            if name == "im":
                return ZERO
            if name == "abs":
                return mk("n", abs(v), a.args[1])
            if v == 0 and name in ("sin", "tan", "arcsin", "arctan", "sqrt", "sinh", "tanh"):
                return mk("n", Fraction(0), "float")
            if v == 0 and name in ("exp", "cos", "cosh"):
                return mk("n", Fraction(1), "float")
            if v == 1 and name == "log":
                return mk("n", Fraction(0), "float")
            if name == "sqrt" and v > 0:
                n_, d_ = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n_ * n_ == v.numerator and d_ * d_ == v.denominator:
                    return mk("n", Fraction(n_, d_), "float")
        if a.op == "ite" and False:
            pass
        if name in ("re", "im", "conj") and is_real(a):
            return ZERO if name == "im" else a
        if a is I:
            if name == "re":
                return ZERO
            if name == "im":
                return ONE
            if name == "conj":
                return neg(I)
            if name == "abs":
                return ONE
        if name in ("re", "im") and a.op == "add":
            return add(*[fn(name, u) for u in a.args])
        if name == "conj":
            if a.op == "fn" and a.args[0] == "conj":
                return a.args[1]
            if a.op == "add":
                return add(*[fn("conj", u) for u in a.args])
            if a.op == "mul":
                return mul(*[fn("conj", u) for u in a.args])
            if a.op == "pow" and a.args[1].op == "n" and a.args[1].args[0].denominator == 1:
                return power(fn("conj", a.args[0]), a.args[1])
        if name in ("re", "im") and a.op == "fn" and a.args[0] == "conj":
            return fn("re", a.args[1]) if name == "re" else neg(fn("im", a.args[1]))
        if name == "abs" and a.op == "fn" and a.args[0] in ("conj", "abs"):
            return fn("abs", a.args[1])
        if name == "abs" and is_nonneg(a):
            return a
        if name in ("re", "im"):
            # pull out real factors and I
            if a.op == "mul":
                real = [u for u in a.args if is_real(u)]
                rest = [u for u in a.args if not is_real(u)]
                if rest and rest[-1] is I or any(u is I for u in rest):
                    rest2 = [u for u in rest if u is not I]
                    inner = mul(*rest2) if rest2 else ONE
                    if name == "re":
                        return mul(*real, MONE, fn("im", inner))
                    return mul(*real, fn("re", inner))
                if real:
                    return mul(*real, fn(name, mul(*rest)))
        if (name in _even or name in _odd) and neg_leading(a):
            b = neg(a)
            return fn(name, b) if name in _even else neg(fn(name, b))
        args = (a,)
    return mk("fn", name, *args)


def neg_leading(a):
    if a.op == "n":
        return a.args[0] < 0
    if a.op == "mul":
        return a.args[0].op == "n" and a.args[0].args[0] < 0
    if a.op == "add":
        c, _ = split_coeff(min((u for u in a.args), key=lambda t: (t.op == "n", t.id)))
        # only flip when all coefficients are negative (cheap, canonical)
        return all(split_coeff(u)[0] < 0 for u in a.args)
    return False


_REALFN = {"abs", "re", "im", "angle", "heaviside", "floor", "sign", "mod", "arctan2", "deg2rad_", "len", "round"}
_PRESERVE = {"sin", "cos", "tan", "exp", "arctan", "sinh", "cosh", "tanh", "digamma", "dawsn", "mean", "sum", "real_gamma", "gamma", "at", "reduce", "floordiv", "mod", "floor", "round", "ceil"}


_realmemo = {}


def is_real(t):
    r = _realmemo.get(t)
    if r is None:
        r = _is_real(t)
        _realmemo[t] = r
    return r


def _is_real(t):
    op = t.op
    if op == "n":
        return True
    if op == "k":
        return isinstance(t.args[0], bool)
    if op == "I":
        return False
    if op == "sym":
        return t.args[1] in ("real", "pos", "int", "bool", "posint", "nonneg")
    if op in ("idx", "select"):
        return is_real(t.args[0])
    if op in ("add", "mul"):
        return all(is_real(a) for a in t.args)
    if op == "pow":
        b, e = t.args
        if not is_real(b) or not is_real(e):
            return False
        if e.op == "n" and e.args[0].denominator == 1:
            return True
        return is_nonneg(b)
    if op == "fn":
        n = t.args[0]
        if n in _REALFN:
            return True
        if n in _PRESERVE:
            return all(is_real(a) for a in t.args[1:] if isinstance(a, Term))
        if n in ("sqrt", "log"):
            return is_nonneg(t.args[1])
        if n in ("max", "min"):
            return all(is_real(a) for a in t.args[1:])
        if n in ("inf", "neginf", "uninit"):
            return True
        if isinstance(n, str) and n.startswith("u:r_"):
            return True
        if n == "interp" and t.args[1].op == "ext" and len(t.args[1].args) > 2:
            y = t.args[1].args[2]
            return isinstance(y, Term) and y.op == "arr" and all(is_real(e) for e in y.args[1:])
        return False
    if op == "var" or op == "uninit":
        return True
    if op == "bind":
        return t.args[0] in ("sum", "mean", "max", "min", "prod") and is_real(t.args[3])
    if op == "ite":
        return is_real(t.args[1]) and is_real(t.args[2])
    if op in ("lt", "le", "eq", "not", "and", "or"):
        return True
    return False


_nnmemo = {}


def is_nonneg(t):
    r = _nnmemo.get(t)
    if r is None:
        r = _is_nonneg(t)
        _nnmemo[t] = r
    return r


def _is_nonneg(t):
    op = t.op
    if op == "n":
        return t.args[0] >= 0
    if op == "sym":
        return t.args[1] in ("pos", "posint", "nonneg")
    if op in ("idx", "select"):
        return is_nonneg(t.args[0])
    if op == "fn":
        if t.args[0] == "abs":
            return True
        if t.args[0] == "exp":
            return is_real(t.args[1])
        if t.args[0] == "sqrt":
            return is_nonneg(t.args[1])
        if t.args[0] == "len":
            return True
        return False
    if op in ("add", "mul"):
        return all(is_nonneg(a) for a in t.args)
    if op == "pow":
        if is_nonneg(t.args[0]) and is_real(t.args[1]):
            return True
        return is_real(t.args[0]) and t.args[1].op == "n" and t.args[1].args[0].denominator == 1 and t.args[1].args[0] % 2 == 0
    if op == "ite":
        return is_nonneg(t.args[1]) and is_nonneg(t.args[2])
    return False


# ------------------------------------------------------------- booleans
def lnot(t):
    if t.op == "k":
        return TRUE if not t.args[0] else FALSE
    if t.op == "not":
        return t.args[0]
    return mk("not", t)


def land(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == "and":
            for u in t.args:
                if u not in out:
                    out.append(u)
        elif t not in out:
            out.append(t)
    for t in out:
        if lnot(t) in out:
            return FALSE
        if t.op == "not" and t.args[0].op == "and" and all(u in out for u in t.args[0].args):
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("and", *out)


def lor(*ts):
    return lnot(land(*[lnot(t) for t in ts]))


def eq(a, b):
    a, b = a, b
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        va, vb = cval(a), cval(b)
        if isinstance(va, str) != isinstance(vb, str):
            return FALSE
        return TRUE if va == vb else FALSE
    for x, y in ((a, b), (b, a)):
        # numbers never equal strings/None
        if x is NONE and (is_real(y) or y.op in ("add", "mul", "pow", "fn")):
            return FALSE
        if x.op == "k" and isinstance(x.args[0], str) and y.op in ("add", "mul", "pow"):
            return FALSE
        if y.op == "sym" and x.op == "k" and x.args[0] is None and y.args[1] != "any":
            return FALSE
        if y.op == "sym" and x.op == "k" and isinstance(x.args[0], str) and y.args[1] not in ("any", "str"):
            return FALSE
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if al is not None and bh is not None and al > bh or ah is not None and bl is not None and ah < bl:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "n" and x.args[0] <= 0 and is_pos(y):
            return FALSE
    if a.op == "ite" and is_const(b) and (is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and is_const(a) and (is_const(b.args[1]) or is_const(b.args[2])):
        return eq(b, a)
    if is_const(a) or (not is_const(b) and a.id > b.id):
        a, b = b, a
    return mk("eq", a, b)


def is_pos(t):
    if t.op == "idx":
        return is_pos(t.args[0])
    if t.op == "n":
        return t.args[0] > 0
    if t.op == "sym":
        return t.args[1] in ("pos", "posint")
    if t.op == "fn" and t.args[0] == "exp":
        return is_real(t.args[1])
    if t.op == "mul":
        return all(is_pos(a) for a in t.args)
    if t.op == "add":
        return all(is_nonneg(a) for a in t.args) and any(is_pos(a) for a in t.args)
    if t.op == "pow":
        return is_pos(t.args[0]) and is_real(t.args[1])
    return False


_bmemo = {}


def bounds(t):
    """(lo, hi) with None for unbounded; closed interval enclosing a real term"""
    r = _bmemo.get(t)
    if r is None:
        r = _bmemo[t] = _bounds(t)
    return r


def _bounds(t):
    op = t.op
    if op == "n":
        return (t.args[0], t.args[0])
    if op == "idx":
        return bounds(t.args[0])
    if op == "sym":
        k = t.args[1] if len(t.args) > 1 else None
        if len(t.args) > 3 and k != "complex":
            return (t.args[2], t.args[3])
        if k == "posint":
            return (Fraction(1), None)
        if k in ("pos", "nonneg"):
            return (Fraction(0), None)
        return (None, None)
    if op == "add":
        lo = hi = Fraction(0)
        for a in t.args:
            l, h = bounds(a)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        return (lo, hi)
    if op == "mul" and t.args[0].op == "n" and len(t.args) >= 2:
        c = t.args[0].args[0]
        l, h = bounds(t.args[1]) if len(t.args) == 2 else _bounds_prod(t.args[1:])
        if c < 0:
            l, h = h, l
        return (None if l is None else c * l, None if h is None else c * h)
    if op == "mul":
        return _bounds_prod(t.args)
    if op == "ite":
        a, b = bounds(t.args[1]), bounds(t.args[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if op == "fn" and t.args[0] in ("sin", "cos") and is_real(t.args[1]):
        return (Fraction(-1), Fraction(1))
    if is_nonneg(t):
        return (Fraction(0), None)
    return (None, None)


def _bounds_prod(args):
    l = h = Fraction(1)
    for a in args:
        x, y = bounds(a)
        if x is None or x < 0:
            return (None, None)
        l = l * x
        h = None if h is None or y is None else h * y
    return (l, h)


def infinite(t):
    """+1 / -1 for an infinity, 0 otherwise"""
    if t.op == "fn" and t.args[0] in ("inf", "neginf"):
        return 1 if t.args[0] == "inf" else -1
    if t.op == "mul" and len(t.args) == 2 and is_num(t.args[0]):
        return infinite(t.args[1]) * (1 if t.args[0].args[0] > 0 else -1)
    return 0


def lt(a, b):
    a, b = boolnum(a), boolnum(b)
    if is_num(a) and is_num(b):
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    ia, ib = infinite(a), infinite(b)
    if ia and ib:
        return TRUE if ia < ib else FALSE
    if ib and (a.op in ("n", "var") or None not in bounds(a)):
        return TRUE if ib > 0 else FALSE
    if ia and (b.op in ("n", "var") or None not in bounds(b)):
        return FALSE if ia > 0 else TRUE
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if al is not None and bh is not None and al >= bh:
        return FALSE
    if ah is not None and bl is not None and ah < bl:
        return TRUE
    if is_num(b) and b.args[0] <= 0 and is_nonneg(a):
        return FALSE
    if a.op == "n" and a.args[0] <= 0 and is_pos(b):
        return TRUE
    for x, y, r in ((a, b, 0), (b, a, 1)):
        if x.op == "ite" and is_num(y) and (is_num(x.args[1]) or is_num(x.args[2])):
            f = (lambda u: lt(u, y)) if r == 0 else (lambda u: lt(y, u))
            return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    return mk("lt", a, b)


def le(a, b):
    return lnot(lt(b, a))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    if isbool(a) and isbool(b):
        if a is TRUE:
            return lor(c, b)
        if a is FALSE:
            return land(lnot(c), b)
        if b is TRUE:
            return lor(lnot(c), a)
        if b is FALSE:
            return land(c, a)
    # nested same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


def isbool(t):
    return t.op in ("lt", "eq", "not", "and") or (t.op == "k" and isinstance(t.args[0], bool)) or (
        t.op == "sym" and t.args[1] == "bool") or (t.op == "ite" and isbool(t.args[1]) and isbool(t.args[2])) or (
        t.op == "fn" and t.args[0] in ("isinst", "any", "all", "truth", "hasattr", "contains", "isnan")) or (t.op == "bind" and t.args[0] in ("any", "all"))


def sym(name, kind="complex"):
    return mk("sym", name, kind)


def idx(base, *vs):
    return mk("idx", base, *vs)


def var(k):
    return mk("var", k)


# ---------------------------------------------------------- index variables
EMPTY = frozenset()


def vars_of(t):
    v = t._vars
    if v is None:
        if t.op == "var":
            v = frozenset([t.args[0]])
        elif t.op == "bind":  # ('bind', name, boundkey, size, body)
            v = vars_of(t.args[3]) - {t.args[1]}
        else:
            v = EMPTY
            for a in t.args:
                if isinstance(a, Term):
                    v = v | vars_of(a)
        t._vars = v
    return v


def rebuild(t, args):
    """apply smart constructors"""
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return power(*args)
    if op == "fn":
        return fn(*args)
    if op == "not":
        return lnot(*args)
    if op == "and":
        return land(*args)
    if op == "eq":
        return eq(*args)
    if op == "lt":
        return lt(*args)
    if op == "ite":
        return ite(*args)
    return mk(op, *args)


def rewrite(t, f, memo=None):
    """bottom-up rewrite; f(term)->Term or None"""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        u = stack[-1]
        if u in memo:
            stack.pop()
            continue
        r = f(u)
        if r is not None:
            memo[u] = r
            stack.pop()
            continue
        todo = [a for a in u.args if isinstance(a, Term) and a not in memo]
        if todo:
            stack.extend(todo)
            continue
        args = tuple(memo[a] if isinstance(a, Term) else a for a in u.args)
        memo[u] = u if args == u.args else rebuild(u, args)
        stack.pop()
    return memo[t]


def rename_vars(t, mapping, memo=None):
    """mapping: var key -> var key or Term"""
    keys = frozenset(mapping)

    def f(u):
        if not (vars_of(u) & keys):
            return u
        if u.op == "var":
            r = mapping[u.args[0]]
            return r if isinstance(r, Term) else var(r)
        return None

    return rewrite(t, f, memo)


RAISES = {}     # conditions "an unmodelled library call raised here": assumed not to happen when values are compared


def quiet(t):
    return subst(t, RAISES) if RAISES else t


def subst(t, mapping, memo=None):
    return rewrite(t, lambda u: mapping.get(u), memo)


def atoms(t, pred):
    seen = set()
    out = []
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        if pred(u):
            out.append(u)
        for a in u.args:
            if isinstance(a, Term):
                stack.append(a)
    return out


# ---------------------------------------------------------- printing
def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if depth == 0:
        return "…"
    op = t.op
    s = lambda u: show(u, depth - 1)
    if op == "n":
        v = t.args[0]
        if v.denominator == 1:
            return str(v)
        f = float(v)
        return repr(f)
    if op == "k":
        return repr(t.args[0])
    if op == "I":
        return "1j"
    if op == "sym":
        return str(t.args[0])
    if op == "var":
        return "$%s" % (t.args[0],)
    if op == "idx":
        return "%s[%s]" % (s(t.args[0]), ",".join(s(a) for a in t.args[1:]))
    if op == "add":
        return "(" + " + ".join(s(a) for a in t.args) + ")"
    if op == "mul":
        return "*".join(s(a) for a in t.args)
    if op == "pow":
        return "%s**%s" % (s(t.args[0]), s(t.args[1]))
    if op == "fn":
        return "%s(%s)" % (t.args[0], ", ".join(s(a) for a in t.args[1:]))
    if op == "ite":
        return "(%s if %s else %s)" % (s(t.args[1]), s(t.args[0]), s(t.args[2]))
    if op == "not":
        if t.args[0].op == "lt":
            return "%s <= %s" % (s(t.args[0].args[1]), s(t.args[0].args[0]))
        if t.args[0].op == "eq":
            return "%s != %s" % (s(t.args[0].args[0]), s(t.args[0].args[1]))
        return "not " + s(t.args[0])
    if op == "and":
        return "(" + " and ".join(s(a) for a in t.args) + ")"
    if op in ("lt", "eq"):
        return "%s %s %s" % (s(t.args[0]), {"lt": "<", "eq": "=="}[op], s(t.args[1]))
    return "%s(%s)" % (op, ", ".join(s(a) if isinstance(a, Term) else repr(a) for a in t.args))
