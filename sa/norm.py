"""Deciding equality of value-flow terms.

 * `prove_equal`   : rational normal form over atoms (value numbering modulo
                     algebra).  A proof of equality.
 * `fingerprints`  : random interpretation of the *terms* (Gulwani & Necula).  Used
                     to separate "written differently" from "a different function":
                     an alarm needs both a failed normal form and a distinguishing
                     interpretation.
"""
from fractions import Fraction
import cmath
import hashlib
import math
import struct
import sys
import time

from . import terms as T
from . import steer
from .terms import Term, mk


class TooBig(Exception):
    pass


CAP = 1500


# ------------------------------------------------------------------ polynomials
# monomial: tuple of (atom Term, Fraction exp) sorted by atom id
def _mmul(a, b):
    d = dict(a)
    for t, e in b:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e != 0), key=lambda p: p[0].id))


def padd(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c != 0 else {}


def pmul(p, q):
    if len(p) * len(q) > CAP * 8:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            c = c1 * c2
            # I reduction
            for t, e in m:
                if t is T.I and e >= 2:
                    k = int(e) % 4
                    rest = tuple(x for x in m if x[0] is not T.I)
                    if k in (2, 3):
                        c = -c
                    m = rest if k in (0, 2) else _mmul(rest, ((T.I, 1),))
                    break
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > CAP:
        raise TooBig()
    return r


ONEP = {(): Fraction(1)}


def ppow(p, n):
    r = ONEP
    for _ in range(n):
        r = pmul(r, p)
    return r


def _special(t):
    """atoms with a power-reduction rule -> returns (k, num, den) meaning atom^k = num/den"""
    if t.op == "fn":
        if t.args[0] == "sqrt":
            n, d = nf(t.args[1])
            return 2, n, d
        if t.args[0] == "sin":
            c = mk("fn", "cos", t.args[1])
            return 2, {(): Fraction(1), ((c, 2),): Fraction(-1)}, ONEP
        if t.args[0] == "abs":
            n, d = nf(T.mul(t.args[1], T.fn("conj", t.args[1])))
            return 2, n, d
    if t.op == "pow" and t.args[1].op == "n":
        e = t.args[1].args[0]
        if e.denominator <= 8:
            k = e.denominator
            n, d = nf(T.power(t.args[0], mk("n", Fraction(abs(e.numerator)), "int")))
            if e < 0:
                n, d = d, n
            return k, n, d
    if t.op == "n":  # irrational root atoms never happen here
        return None
    return None


_spec = {}


def special(t):
    if t not in _spec:
        _spec[t] = _special(t)
    return _spec[t]


def reduce_pair(n, d):
    """apply sqrt^2 / sin^2 reductions to numerator and denominator"""
    changed = True
    guard = 0
    while changed:
        changed = False
        guard += 1
        if guard > 40:
            raise TooBig()
        for which in (0, 1):
            p = (n, d)[which]
            target = None
            for m in p:
                for t, e in m:
                    if e >= 2 and t.op in ("fn", "pow"):
                        s = special(t)
                        if s and e >= s[0]:
                            target = (t, s)
                            break
                if target:
                    break
            if target:
                t, (k, sn, sd) = target
                M = 0
                for m in p:
                    for u, e in m:
                        if u is t:
                            M = max(M, int(e) // k)
                r = {}
                for m, c in p.items():
                    e = 0
                    rest = []
                    for u, x in m:
                        if u is t:
                            e = x
                        else:
                            rest.append((u, x))
                    q, rem = int(e) // k, e - (int(e) // k) * k
                    mono = {_mmul(tuple(rest), ((t, rem),) if rem else ()): c}
                    mono = pmul(mono, ppow(sn, q))
                    if M - q:
                        mono = pmul(mono, ppow(sd, M - q))
                    r = padd(r, mono)
                sc = ppow(sd, M)
                if which == 0:
                    n, d = r, (pmul(d, sc) if sc != ONEP else d)
                else:
                    n, d = (pmul(n, sc) if sc != ONEP else n), r
                changed = True
                break
    return n, d


_nf = {}


def nf(t):
    r = _nf.get(t)
    if r is None:
        r = _nf0(t)
        n, d = r
        if not n:
            r = ({}, ONEP)
        else:
            r = content(*reduce_pair(n, d))
        _nf[t] = r
    return r


def content(n, d):
    """cancel common monomial factor, normalise leading coefficient of den"""
    if not n:
        return {}, ONEP
    ks = None
    for p in (n, d):
        for m in p:
            dm = dict(m)
            if ks is None:
                ks = dm
            else:
                ks = {t: min(e, dm[t]) for t, e in ks.items() if t in dm}
            if not ks:
                break
        if not ks:
            break
    if ks:
        inv = tuple(sorted(((t, -e) for t, e in ks.items()), key=lambda p: p[0].id))
        n = {_mmul(m, inv): c for m, c in n.items()}
        d = {_mmul(m, inv): c for m, c in d.items()}
    if len(d) == 1:
        ((m, c),) = d.items()
        if all(t is not T.I for t, _ in m):
            # keep exp atoms as units
            eu = tuple((t, -e) for t, e in m if t.op == "fn" and t.args[0] == "exp")
            if eu:
                n = {_mmul(k, eu): v for k, v in n.items()}
                m = tuple((t, e) for t, e in m if not (t.op == "fn" and t.args[0] == "exp"))
        elif len(m) >= 1:
            # 1/I = -I
            m2 = tuple((t, e) for t, e in m if t is not T.I)
            n = pmul(n, {((T.I, 1),): Fraction(-1)})
            m = m2
        n = {k: v / c for k, v in n.items()}
        d = {m: Fraction(1)}
        return n, d
    if n == d:
        return ONEP, ONEP
    if n == pscale(d, -1):
        return pscale(ONEP, -1), ONEP
    lead = min(d, key=lambda m: (len(m), [(t.id, e) for t, e in m]))
    c = d[lead]
    if c != 1:
        n = pscale(n, 1 / c)
        d = pscale(d, 1 / c)
    return n, d


def atom(t, e=1):
    return {((t, Fraction(e)),): Fraction(1)}, ONEP


def radd(a, b):
    if a[1] == b[1]:
        return padd(a[0], b[0]), a[1]
    return padd(pmul(a[0], b[1]), pmul(b[0], a[1])), pmul(a[1], b[1])


def rmul(a, b):
    return pmul(a[0], b[0]), pmul(a[1], b[1])


def canon(t):
    return totem(nf(t))


def mono_term(m, c):
    parts = [mk("n", c, "int" if c.denominator == 1 else "float")]
    for t, e in m:
        parts.append(T.power(t, mk("n", Fraction(e), "int" if Fraction(e).denominator == 1 else "float")) if e != 1 else t)
    return T.mul(*parts)


def poly_term(p):
    ms = sorted(p.items(), key=lambda kv: [(t.id, e) for t, e in kv[0]])
    return T.add(*[mono_term(m, c) for m, c in ms]) if ms else T.ZERO


def totem(r):
    n, d = r
    if not n:
        return T.ZERO
    if d == ONEP:
        return poly_term(n)
    return T.mul(poly_term(n), T.power(poly_term(d), T.MONE))


def ccond(t):
    """canonical boolean"""
    if t.op == "lt":
        a = canon(T.sub(t.args[1], t.args[0]))
        if T.is_num(a):
            return T.TRUE if a.args[0] > 0 else T.FALSE
        return mk("lt", T.ZERO, a)
    if t.op == "eq":
        a, b = t.args
        if a.op == "k" or b.op == "k" or (a.op == "sym" and a.args[1] in ("str", "any")) or (
            b.op == "sym" and b.args[1] in ("str", "any")
        ):
            return t
        d = canon(T.sub(a, b))
        if T.is_num(d):
            return T.TRUE if d.args[0] == 0 else T.FALSE
        return mk("eq", T.ZERO, d)
    if t.op == "not":
        return T.lnot(ccond(t.args[0]))
    if t.op == "and":
        return T.land(*[ccond(a) for a in t.args])
    if t.op == "ite":
        return T.ite(ccond(t.args[0]), ccond(t.args[1]), ccond(t.args[2]))
    return t


def _nf0(t):
    op = t.op
    if op == "n":
        return ({(): t.args[0]} if t.args[0] else {}), ONEP
    if op == "k":
        if isinstance(t.args[0], bool):
            return ({(): Fraction(1)} if t.args[0] else {}), ONEP
        return atom(t)
    if op == "I":
        return atom(t)
    if op == "add":
        r = nf(t.args[0])
        for a in t.args[1:]:
            r = radd(r, nf(a))
        return r
    if op == "mul":
        r = nf(t.args[0])
        for a in t.args[1:]:
            r = rmul(r, nf(a))
        return r
    if op == "pow":
        b, e = t.args
        if e.op == "n" and e.args[0].denominator == 1 and abs(e.args[0]) <= 40:
            n, d = nf(b)
            k = int(e.args[0])
            if not n:
                if k > 0:
                    return {}, ONEP
                return atom(t)
            if k < 0:
                n, d, k = d, n, -k
            return ppow(n, k), ppow(d, k)
        # x**(p/q), positive base splits
        cb, ce = canon(b), canon(e)
        if ce.op == "n" and T.is_nonneg(cb) and cb.op == "mul":
            r = (ONEP, ONEP)
            for u in cb.args:
                if T.is_nonneg(u):
                    r = rmul(r, nf(T.power(u, ce)) if u.op != "n" else atom(mk("pow", u, ce)))
                else:
                    break
            else:
                return r
        if ce.op == "n" and ce.args[0].denominator == 1:
            return nf(T.power(cb, ce)) if (cb is not b or ce is not e) else atom(t)
        if ce.op == "n" and ce.args[0].denominator == 2:
            # x**(k/2) = sqrt(x)**k  (principal branch, k integer)
            return nf(T.power(T.fn("sqrt", cb), mk("n", ce.args[0] * 2, "int")))
        # 10**(x) etc: split sums in exponent for positive constants
        if ce.op == "add" and T.is_nonneg(cb):
            r = (ONEP, ONEP)
            for u in ce.args:
                r = rmul(r, nf(T.power(cb, u)) if u is not ce else atom(mk("pow", cb, u)))
            return r
        return atom(mk("pow", cb, ce))
    if op == "fn":
        return _nf_fn(t)
    if op == "ite":
        c = ccond(t.args[0])
        if c is T.TRUE:
            return nf(t.args[1])
        if c is T.FALSE:
            return nf(t.args[2])
        a, b = canon(t.args[1]), canon(t.args[2])
        if c.op == "not":
            c, a, b = c.args[0], b, a
        if a is b:
            return nf(a)
        return atom(mk("ite", c, a, b))
    if op in ("lt", "eq", "and", "not"):
        c = ccond(t)
        if c.op == "k":
            return ({(): Fraction(1)} if c.args[0] else {}), ONEP
        return atom(c)
    if any(isinstance(a, Term) for a in t.args):
        args = tuple(canon(a) if isinstance(a, Term) else a for a in t.args)
        return atom(mk(op, *args))
    return atom(t)


def _nf_fn(t):
    name = t.args[0]
    if len(t.args) == 2 and isinstance(t.args[1], Term):
        a = t.args[1]
        if name == "re":
            ca = canon(a)
            if T.is_real(ca):
                return nf(ca)
            n, d = nf(T.mul(T.num(Fraction(1, 2)), T.add(ca, T.fn("conj", ca))))
            return n, d
        if name == "im":
            ca = canon(a)
            if T.is_real(ca):
                return {}, ONEP
            return nf(T.mul(T.num(Fraction(-1, 2)), T.I, T.add(ca, T.neg(T.fn("conj", ca)))))
        if name == "conj":
            ca = canon(a)
            if T.is_real(ca):
                return nf(ca)
            if ca.op == "fn" and ca.args[0] in ("exp", "sin", "cos", "tan") and len(ca.args) == 2:
                return nf(mk("fn", ca.args[0], T.fn("conj", ca.args[1])))
            r = T.fn("conj", ca)
            if r is not t and not (r.op == "fn" and r.args[0] == "conj"):
                return nf(r)
            return atom(mk("fn", "conj", ca))
        if name == "abs":
            n, d = nf(a)
            # split monomials
            ca = totem((n, d))
            if T.is_nonneg(ca):
                return nf(ca)
            if ca.op == "mul":
                r = (ONEP, ONEP)
                for u in ca.args:
                    r = rmul(r, nf(T.fn("abs", u)) if u.op != "pow" else (
                        nf(T.power(T.fn("abs", u.args[0]), u.args[1])) if T.is_real(u.args[1]) else atom(mk("fn", "abs", u))))
                return r
            f = ca
            if ca.op == "add" and T.split_coeff(min(ca.args, key=lambda u: u.id))[0] < 0:
                f = T.neg(ca)
            return atom(mk("fn", "abs", f))
        if name == "exp":
            n, d = nf(a)
            r = {(): Fraction(1)}
            dt = poly_term(d) if d != ONEP else None
            for m, c in n.items():
                base = mono_term(m, Fraction(1))
                if dt is not None:
                    base = T.mul(base, T.power(dt, T.MONE))
                if base is T.ONE:
                    at = mk("fn", "exp", T.ONE)
                else:
                    at = mk("fn", "exp", base)
                r = pmul(r, {((at, c),): Fraction(1)})
            return r, ONEP
        if name == "tan":
            ca = canon(a)
            return nf(T.div(T.fn("sin", ca), T.fn("cos", ca)))
        if name in ("sin", "cos"):
            ca = canon(a)
            r = T.fn(name, ca)
            if ca.op == "fn" and len(ca.args) == 2:
                if ca.args[0] == "arc" + name:
                    return nf(ca.args[1])
                if ca.args[0] in ("arcsin", "arccos"):
                    return nf(T.fn("sqrt", T.sub(T.ONE, T.power(ca.args[1], T.num(2)))))
            if r.op == "fn" and r.args[0] == name:
                return atom(mk("fn", name, canon(r.args[1])))
            return nf(r)
        if name == "sqrt":
            ca = canon(a)
            if ca.op == "n":
                r = T.fn("sqrt", ca)
                if r.op == "n":
                    return nf(r)
            if ca.op == "mul":
                # extract nonnegative factors (sound on principal branch)
                pos = [u for u in ca.args if T.is_nonneg(u)]
                rest = [u for u in ca.args if not T.is_nonneg(u)]
                if pos and (rest or len(pos) > 1):
                    r = (ONEP, ONEP)
                    for u in pos:
                        r = rmul(r, nf(T.fn("sqrt", u)))
                    if rest:
                        r = rmul(r, nf(T.fn("sqrt", T.mul(*rest))))
                    return r
            if ca.op == "pow" and ca.args[1].op == "n" and T.is_nonneg(ca.args[0]):
                e = ca.args[1].args[0]
                if e.denominator == 1 and e % 2 == 0:
                    return nf(T.power(ca.args[0], T.num(int(e) // 2)))
                if e.denominator == 1 and abs(e) > 1:
                    k = (int(e) - 1) // 2
                    return rmul(nf(T.power(ca.args[0], T.num(k))), nf(T.fn("sqrt", ca.args[0])))
                if e == -1:
                    n, d = nf(T.fn("sqrt", ca.args[0]))
                    return d, n
            return atom(mk("fn", "sqrt", ca))
        if name == "log":
            ca = canon(a)
            if ca.op == "fn" and ca.args[0] == "exp" and T.is_real(ca.args[1]):
                return nf(ca.args[1])
            if T.is_nonneg(ca) and ca.op == "pow" and ca.args[1].op == "n":
                return rmul(nf(ca.args[1]), nf(T.fn("log", ca.args[0])))
            if T.is_nonneg(ca) and ca.op == "mul" and all(T.is_nonneg(u) for u in ca.args):
                r = ({}, ONEP)
                for u in ca.args:
                    r = radd(r, nf(T.fn("log", u)))
                return r
            return atom(mk("fn", "log", ca))
        ca = canon(a)
        r = T.fn(name, ca)
        if r.op == "fn" and r.args[0] == name and r.args[1] is ca:
            return atom(r)
        if r is t:
            return atom(t)
        if r.op == "mul":
            # odd function: -f(-x)
            return rmul(nf(r.args[0]), atom(r.args[1])) if len(r.args) == 2 else atom(r)
        if r.op == "fn":
            return atom(r)
        return nf(r)
    args = tuple(canon(a) if isinstance(a, Term) else a for a in t.args)
    return atom(mk("fn", *args))


def prove_equal(a, b):
    if a is b:
        return True
    if T.isbool(a) and T.isbool(b):
        try:
            if ccond(a) is ccond(b):
                return True
        except (TooBig, RecursionError):
            return False
    try:
        n, d = nf(a)
        m, e = nf(b)
        x = padd(pmul(n, e), pscale(pmul(m, d), -1))
        if not x:
            return True
        x, _ = reduce_pair(x, ONEP)
        return not x
    except (TooBig, RecursionError, ZeroDivisionError):
        return False


# ---------------------------------------------------------------- fingerprints
class NoValue(Exception):
    pass


def h01(*parts):
    s = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return struct.unpack("<Q", s)[0] / 2.0 ** 64


CONSTS = {
    "const:pi": math.pi,
    "const:h": 6.62607015e-34,
    "const:c": 299792458.0,
    "const:e": 1.602176634e-19,
    "const:eps0": 8.8541878128e-12,
    "const:m_e": 9.1093837015e-31,
    "const:k_B": 1.380649e-23,
}


class Interp:
    def __init__(self, seed, assign=None, scale=1.0):
        self.seed = seed
        self.memo = {}
        self.assign = assign or {}
        self.scale = scale
        self.over = {}     # values of symbols chosen by sa/steer.py
        self.hit = None    # symbols used, when recorded

    def ev(self, t):
        m = self.memo
        if t in m:
            return m[t]
        stack = [t]
        while stack:
            u = stack[-1]
            if u in m:
                stack.pop()
                continue
            if u in self.assign:
                m[u] = self.assign[u]
                stack.pop()
                continue
            if u.op == "bind":
                m[u] = self.bind(u)
                stack.pop()
                continue
            todo = [a for a in u.args if isinstance(a, Term) and a not in m]
            if u.op == "ite":
                if u.args[0] in m:
                    c = m[u.args[0]]
                    pick = u.args[1] if truth(c) else u.args[2]
                    if pick in m:
                        m[u] = m[pick]
                        stack.pop()
                        continue
                    todo = [pick]
                else:
                    todo = [u.args[0]]
            if todo:
                stack.extend(todo)
                continue
            try:
                m[u] = self.ev1(u, [m[a] if isinstance(a, Term) else a for a in u.args])
            except (OverflowError, ZeroDivisionError, ValueError):
                raise NoValue()
            stack.pop()
        return m[t]

    def symval(self, key, kind, lo=None, hi=None):
        if self.hit is not None:
            self.hit[key] = (kind, lo, hi)
        if self.over:
            if key in self.over:
                return self.over[key]
            if isinstance(key, tuple) and (key[0], "*") in self.over:
                return self.over[(key[0], "*")]
        x = h01(self.seed, key)
        y = h01(self.seed, key, 1)
        if lo is not None:
            lo, hi = float(lo), float(hi)
            if kind in ("int", "posint"):
                return float(int(lo + x * (hi - lo + 1)))
            if lo > 0 and hi / lo > 100 and kind != "complex":
                return lo * (hi / lo) ** (0.2 + 0.6 * x)
            if kind == "complex":
                return complex(lo + x * (hi - lo), 0.3 * (lo + y * (hi - lo)))
            return lo + x * (hi - lo)
        s = self.scale
        if kind in ("pos", "nonneg"):
            return s * (0.2 + 2.3 * x)
        if kind == "real":
            return s * (-1.7 + 3.1 * x)
        if kind in ("int",):
            return float(int(x * 9) - 3)
        if kind == "posint":
            return float(1 + int(x * 7))
        if kind == "bool":
            return x < 0.5
        if kind == "str":
            return "str%d" % int(x * 1e6)
        if kind == "any":
            return s * complex(0.3 + x, 0.2 + y)
        return s * complex(-1.0 + 2.6 * x, 0.1 + 1.2 * y)

    def smooth(self, key, args):
        """a fixed generic smooth function of its numeric arguments"""
        acc = complex(h01(key, "b"), h01(key, "c"))
        tag = []
        k = 0
        for a in flatten(args):
            k += 1
            if isinstance(a, bool):
                tag.append(a)
            elif isinstance(a, (int, float, complex)):
                z = complex(a)
                if z != z or abs(z) == math.inf:
                    tag.append(str(z))
                    continue
                r = abs(z)
                w = z if r < 3 else z / r * (3 + math.log(r / 3))
                acc += w * complex(0.2 + h01(key, k), 0.1 + h01(key, k, 2))
            else:
                tag.append(a)
        if tag:
            acc += complex(h01(key, tuple(map(repr, tag))), h01(key, tuple(map(repr, tag)), 1)) * 1.7
        return cmath.sin(complex(acc.real, math.tanh(acc.imag))) + 0.37 * acc / (1 + abs(acc))

    def bind(self, u):
        name, bvar, size, body = u.args
        vals = []
        n = self.ev(size) if isinstance(size, Term) else size
        if name in FOLDS and isinstance(n, (int, float)) and n == int(n) and 1 <= n <= 40:
            for j in range(int(n)):
                vals.append(self.ev(T.rename_vars(body, {bvar: T.num(j)})))
            if all(isinstance(x, (int, float, complex)) for x in vals):
                return FOLDS[name](vals)
        if name == "vec" and isinstance(n, (int, float)) and n == int(n) and 1 <= n <= 40:
            return tuple(self.ev(T.rename_vars(body, {bvar: T.num(j)})) for j in range(int(n)))
        if name in ("any", "all"):
            return FOLDS[name]([self.ev(T.rename_vars(body, {bvar: T.num(j)})) for j in range(12)])
        vals = []
        for j in (3, 8):
            sub = T.rename_vars(body, {bvar: T.num(j)})
            vals.append(self.ev(sub))
        vals.append(self.ev(size))
        return self.smooth(("bind", name), vals)

    def ev1(self, u, a):
        op = u.op
        if op == "n":
            v = u.args[0]
            return float(v)
        if op == "k":
            return a[0]
        if op == "I":
            return 1j
        if op == "sym":
            name = a[0]
            if name in CONSTS:
                return CONSTS[name]
            return self.symval(name, *a[1:])
        if op == "var":
            if self.over:
                return float(self.over.get("#var", 0))
            return float(3 + int(h01(self.seed, "var", a[0]) * 9))
        if op == "idx":
            s = u.args[0]
            key = tuple(round(x.real if isinstance(x, complex) else x, 6) for x in a[1:])
            if s.op == "sym":
                return self.symval((s.args[0], key), *s.args[1:])
            return self.smooth(("idx",), a)
        if op == "add":
            r = sum(num_(x) for x in a)
            if abs(r) == math.inf and not any(abs(num_(x)) == math.inf for x in a):
                raise NoValue()
            return r
        if op == "mul":
            r = 1
            for x in a:
                r = r * num_(x)
            if abs(r) == math.inf and not any(abs(num_(x)) == math.inf for x in a):
                raise NoValue()
            return r
        if op == "pow":
            b, e = num_(a[0]), num_(a[1])
            if isinstance(b, float) and b < 0 and not float(e.real if isinstance(e, complex) else e).is_integer():
                b = complex(b)
            if b == 0 and (isinstance(e, complex) or e < 0):
                raise NoValue()
            r = b ** e
            return r
        if op == "lt":
            x, y = num_(a[0]), num_(a[1])
            x = x.real if isinstance(x, complex) else x
            y = y.real if isinstance(y, complex) else y
            return x < y
        if op == "eq":
            if isinstance(a[0], (bool, str, type(None))) or isinstance(a[1], (str, type(None))):
                return a[0] == a[1]
            return abs(num_(a[0]) - num_(a[1])) < 1e-12
        if op == "not":
            return not truth(a[0])
        if op == "and":
            return all(truth(x) for x in a)
        if op == "fn":
            return self.fn(a[0], a[1:])
        if op == "row":
            return tuple(a)
        if op == "bindarg":
            return a[0]
        if op == "ext" and a[0] in SORTS:
            return self.sort(a[0], a[1], a[2:])
        if op == "mat":
            return tuple(a)
        if op == "ext" and a[0] == "expm" and len(a) == 4 and isinstance(a[1], tuple):
            return self.expm(u.args[1], a[1])[int(complex(a[2]).real)][int(complex(a[3]).real)]
        return self.smooth((op,), a)

    def expm(self, t, entries):
        """exponential of a small matrix: scaling, Taylor series, squaring"""
        key = ("expm", t)
        if key in self.memo:
            return self.memo[key]
        n = math.isqrt(len(entries))
        if n * n != len(entries):
            raise NoValue()
        r = range(n)
        m = [[complex(num_(entries[i * n + j])) for j in r] for i in r]
        size = max(sum(abs(x) for x in row) for row in m)
        if not size < 200:
            raise NoValue()
        k = max(0, math.frexp(size)[1] + 3)
        m = [[x / 2.0 ** k for x in row] for row in m]
        mul = lambda a, b: [[sum(a[i][l] * b[l][j] for l in r) for j in r] for i in r]
        out = [[1.0 + 0j if i == j else 0j for j in r] for i in r]
        term = [row[:] for row in out]
        for d in range(1, 15):
            term = [[x / d for x in row] for row in mul(term, m)]
            out = [[out[i][j] + term[i][j] for j in r] for i in r]
        for d in range(k):
            out = mul(out, out)
        self.memo[key] = out
        return out

    def sort(self, name, j, keys):
        keys = [[complex(num_(x)) for x in k] if isinstance(k, tuple) else None for k in keys]
        if not keys or None in keys:
            raise NoValue()
        n, j = len(keys[0]), int(complex(j).real)
        if not 0 <= j < n or any(len(k) != n for k in keys):
            raise NoValue()
        order = sorted(range(n), key=lambda i: [(k[i].real, k[i].imag) for k in reversed(keys)])
        return keys[0][order[j]] if name == "sorted" else float(order[j])

    def fn(self, name, a):
        if len(a) == 1 and isinstance(a[0], (int, float, complex)):
            x = a[0]
            if isinstance(x, bool):
                x = float(x)
            z = complex(x)
            if z != z:
                return 1.0 if name == "isnan" else (0.0 if name == "isfinite" else math.nan)
            if name == "isnan":
                return False
            if name == "isfinite":
                return abs(z) != math.inf
            if abs(z) == math.inf:
                raise NoValue()
            try:
                if name in ("rsqrt", "rlog", "rlog10", "rlog2"):
                    if z.real < 0:
                        return math.nan
                    name = name[1:]
                if name in ("rarcsin", "rarccos"):
                    if abs(z.real) > 1:
                        return math.nan
                    name = name[1:]
                if name == "log2":
                    return math.log2(z.real)
                if name == "trunc":
                    return math.trunc(z.real) + 0.0
                if name == "sqrt":
                    return realif(cmath.sqrt(fix0(z)), x)
                if name == "exp":
                    return realif(cmath.exp(z), x)
                if name == "log":
                    return realif(cmath.log(z), x)
                if name == "log10":
                    return realif(cmath.log10(z), x)
                if name == "sin":
                    return realif(cmath.sin(z), x)
                if name == "cos":
                    return realif(cmath.cos(z), x)
                if name == "tan":
                    return realif(cmath.tan(z), x)
                if name == "arcsin":
                    return realif(cmath.asin(z), x)
                if name == "arccos":
                    return realif(cmath.acos(z), x)
                if name == "arctan":
                    return realif(cmath.atan(z), x)
                if name == "sinh":
                    return realif(cmath.sinh(z), x)
                if name == "cosh":
                    return realif(cmath.cosh(z), x)
                if name == "tanh":
                    return realif(cmath.tanh(z), x)
                if name == "abs":
                    return abs(z)
                if name == "re":
                    return z.real
                if name == "im":
                    return z.imag
                if name == "conj":
                    return z.conjugate()
                if name == "angle":
                    return cmath.phase(z)
                if name == "sign":
                    return (z.real > 0) - (z.real < 0) + 0.0
                if name == "floor":
                    return math.floor(z.real) + 0.0
                if name == "round":
                    return round(z.real) + 0.0
                if name == "len":
                    return self.smooth("len", a).real
                if name == "gamma" and abs(z.imag) < 1e-14 and 0 < z.real < 100:
                    return math.gamma(z.real)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise NoValue()
        if len(a) == 2 and all(isinstance(x, (int, float, complex)) for x in a):
            x, y = complex(a[0]).real, complex(a[1]).real
            if name == "mod":
                if y == 0:
                    raise NoValue()
                return x - y * math.floor(x / y)
            if name == "arctan2":
                return math.atan2(x, y)
            if name == "max":
                return max(x, y)
            if name == "min":
                return min(x, y)
            if name == "floordiv":
                return math.floor(x / y) + 0.0
            if name == "heaviside":
                return 0.0 if x < 0 else (y if x == 0 else 1.0)
        if name == "nan":
            raise NoValue()
        if name == "inf":
            return math.inf
        if name == "neginf":
            return -math.inf
        if name in ("any", "all", "truth", "isinst", "hasattr", "contains"):
            z = self.smooth(("fn", name), a)
            return z.real > 0.3
        if name.startswith("u:"):
            if self.hit is not None:
                self.hit[("u", name)] = ("eps" if name.startswith("u:eps") else "index" if name.startswith("u:n_") else "real" if name.startswith("u:r_") else "complex", None, None)
            if self.over and ("u", name) in self.over:
                return self.over[("u", name)]
            z = self.smooth(("fn", name), a)
            if name.startswith("u:eps"):
                return complex(2.5 * z.real, abs(z.imag) + 0.05)
            if name.startswith("u:n_"):
                return complex(abs(z.real) + 0.3, abs(z.imag) + 0.02)
            if name.startswith("u:r_"):
                return z.real
            return z
        return self.smooth(("fn", name), a)


def flatten(a):
    for x in a:
        if isinstance(x, (tuple, list)):
            yield from flatten(x)
        else:
            yield x


def fix0(z):
    return complex(z.real, 0.0) if z.imag == 0 else z


def realif(z, x):
    if not isinstance(x, complex) and z.imag == 0:
        return z.real
    return z


def truth(c):
    if isinstance(c, complex):
        return c != 0
    return bool(c)


def num_(x):
    if isinstance(x, bool):
        return float(x)
    if isinstance(x, (int, float, complex)):
        return x
    return complex(h01("nonnum", repr(x)), 0.77)


def is_nan(it, t):
    """t takes the constant NaN in this interpretation (through selections, sums and products only)"""
    while t.op == "ite":
        t = t.args[1] if truth(it.ev(t.args[0])) else t.args[2]
    if t.op == "fn":
        return t.args[0] == "nan"
    return t.op in ("add", "mul") and any(isinstance(x, Term) and is_nan(it, x) for x in t.args)


def differ(a, b, extra=(), n=10, tol=1e-6):
    """search a distinguishing interpretation.

    returns ('diff', description) / 'same' / 'unknown'."""
    got = 0
    plans = [({}, 1.0)] * n + [({}, 0.02)] * 2 + [({}, 40.0)] * 2
    # steer into equality guards: pin sym/idx to the constant it is compared with
    for e in T.atoms(mk("pair", a, b), lambda u: u.op == "eq"):
        x, y = e.args
        for p, q in ((x, y), (y, x)):
            if q.op in ("sym", "idx") and T.is_const(p):
                v = T.cval(p)
                if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
                    lo, hi = T.bounds(q)
                    if lo is not None and v < lo or hi is not None and v > hi:
                        continue
                plans = plans + [({q: float(v) if isinstance(v, (int, Fraction)) and not isinstance(v, bool) else v}, 1.0)]
    gs = steer.guards(a, b, *extra)
    cover, mags = {}, []

    def trial(k, pin, scale, over):
        it = Interp(("s", k), dict(pin), scale)
        it.over = over
        r = attempt(it, a, b, extra, tol, lambda err: noise_ok(a, b, k, pin, scale, err, over) and not (over and mags and err < 1e-11 * sorted(mags)[len(mags) // 2]))
        if r and not over and a in it.memo and isinstance(it.memo[a], (int, float, complex)) and cmath.isfinite(it.memo[a]):
            mags.append(abs(it.memo[a]))
        for c, _ in gs:
            if c in it.memo:
                cover.setdefault(c, set()).add(truth(it.memo[c]))
        return r

    for k, (pin, scale) in enumerate(plans):
        r = trial(k, pin, scale, {})
        if isinstance(r, tuple):
            return r
        got += bool(r)
    if T.atoms(mk("pair", a, b), lambda u: u.op == "ext" and u.args[0] in SORTS):
        for k in range(24):
            r = trial(k, {}, 1.0, {"#var": k % 3})
            if isinstance(r, tuple):
                return r
            got += bool(r)
    end = time.time() + STEER_SECONDS
    if extra and got < 3:
        goals = tuple((x, True) for x in extra)
        for k in range(6):
            for over in steer.steer(sys.modules[__name__], goals, k):
                r = trial(k, {}, 1.0, over)
                if isinstance(r, tuple):
                    return r
                got += bool(r)
    for c, path in gs[:80]:
        for pol in (True, False):
            if pol in cover.get(c, ()) or time.time() > end:
                continue
            goals = tuple((x, True) for x in extra) + path + ((c, pol),)
            for over in steer.steer(sys.modules[__name__], goals):
                for k in (0, 1):
                    r = trial(k, {}, 1.0, over)
                    if isinstance(r, tuple):
                        return r
                    got += bool(r)
    return "same" if got >= 3 else "unknown"


STEER_SECONDS = 6.0
SORTS = ("sorted", "argsort", "lexsort")


def attempt(it, a, b, extra, tol, genuine):
    """one interpretation: ('diff', description), True (agree) or False (no information)"""
    try:
        if any(not truth(it.ev(c)) for c in extra):
            return False
        na, nb = is_nan(it, a), is_nan(it, b)
        if na and nb:
            return True
        if na or nb:
            x = it.ev(b if na else a)
            if isinstance(x, (int, float, complex)) and cmath.isfinite(x):
                return ("diff", "nan vs %s" % fmt(complex(x)) if na else "%s vs nan" % fmt(complex(x)))
            return False
        x, y = it.ev(a), it.ev(b)
    except (NoValue, RecursionError):
        return False
    if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
        return True if x == y else ("diff", "%r vs %r" % (x, y))
    x, y = complex(num_(x)), complex(num_(y))
    if (x != x) != (y != y) and not (abs(x) == math.inf or abs(y) == math.inf):
        return ("diff", "%s vs %s" % ("nan" if x != x else fmt(x), "nan" if y != y else fmt(y)))
    if x != x or abs(x) == math.inf or abs(y) == math.inf:
        return x == y or x != x
    err = abs(x - y)
    sc = max(abs(x), abs(y))
    if err > tol * sc and err > 1e-300 and genuine(err):
        return ("diff", "%s vs %s" % (fmt(x), fmt(y)))
    return True


def noise_ok(a, b, k, pin, scale, err, over=()):
    """the difference is not the rounding noise of this interpretation"""
    it = Jitter(("s", k), dict(pin), scale)
    it0 = Interp(("s", k), dict(pin), scale)
    it.over = it0.over = over or {}
    it.base = it0
    try:
        x2, y2 = complex(num_(it.ev(a))), complex(num_(it.ev(b)))
        x, y = complex(num_(it0.ev(a))), complex(num_(it0.ev(b)))
    except NoValue:
        return False
    return err > 100 * max(abs(x - x2), abs(y - y2))


def exact_sides(l, r):
    """a comparison of inputs as given (a < b, a - b < 0, a < 3): no rounding before it"""
    leaf = ("sym", "n", "k", "idx", "app", "var")
    if l.op == "add" and r.op == "n" or r.op == "add" and l.op == "n":
        s = l if l.op == "add" else r
        parts = s.args[0] if len(s.args) and isinstance(s.args[0], tuple) else s.args
        parts = [p for p in parts if getattr(p, "op", None) != "n"]
        return len(parts) <= 2 and all(getattr(p, "op", None) in leaf or getattr(p, "op", None) == "mul" and len(p.args) == 2 and p.args[0].op == "n" and p.args[1].op in leaf for p in parts)
    return l.op in leaf and r.op in leaf


class Jitter(Interp):
    """the same interpretation with every constant, symbol and intermediate result slightly off; comparisons keep their side"""
    base = None

    def ev1(self, u, a):
        if u.op in ("lt", "eq") and self.base is not None:
            side = self.base.ev(u)
            if not exact_sides(*u.args) and self.tie(*u.args):
                raise NoValue("the side taken is decided by rounding")
            return side
        v = super().ev1(u, a)
        if u.op in ("add", "mul", "pow", "fn") and isinstance(v, (float, complex)) and v == v and abs(v) < 1e300 and v != int(v.real):
            return v * (1 + 1e-15 * (1 + h01("jit", u.id)))
        if (u.op == "n" and not v.is_integer()) or (u.op == "sym" and a[0] in CONSTS):
            return v * (1 + 1e-13 * (1 + h01(u.op, u.args[0] if u.op == "sym" else v)))
        return v

    def tie(self, l, r):
        """do the two sides differ by no more than their rounding noise?"""
        try:
            l0, r0, l1, r1 = (complex(num_(i.ev(t))) for i in (self.base, self) for t in (l, r))
        except (NoValue, TypeError, ValueError, OverflowError):
            return False
        noise = max(abs(l0 - l1), abs(r0 - r1))
        return noise > 0 and abs(l0 - r0) <= 10 * noise

    def symval(self, key, kind, lo=None, hi=None):
        v = super().symval(key, kind, lo, hi)
        if isinstance(v, (float, complex)) and not isinstance(v, bool) and kind not in ("int", "posint") and v != int(v.real):
            return v * (1 + 1e-13 * (1 + h01(key)))
        return v


def fmt(z):
    if z.imag == 0:
        return "%.6g" % z.real
    return "%.6g%+.6gj" % (z.real, z.imag)


def compare(a, b, extra=()):
    """'equal' | 'same' (random interpretation only) | ('diff', why) | 'unknown'"""
    if prove_equal(a, b):
        return "equal"
    r = differ(a, b, extra)
    if isinstance(r, tuple):
        h = opaque_heads(a)
        if h != opaque_heads(b) or any(map(unmodelled, h)):
            return "unknown"
    return r


def unmodelled(head):
    """the head stands for a computable value, so that terms differing in its arguments may still be equal"""
    if isinstance(head, tuple):
        return head[0] != "ext" or "." in head[1] or head[1] in ("len", "zip", "enumerate", "iter", "next", "dir", "hash", "type", "range", "sum", "count", "bytes")
    return head in ("loopout", "loopvar", "elem", "item", "elemindex", "call")


FOLDS = {"sum": sum, "mean": lambda v: sum(v) / len(v), "any": lambda v: any(map(truth, v)), "all": lambda v: all(map(truth, v))}
PURE = {"n", "k", "I", "sym", "var", "idx", "add", "mul", "pow", "ite", "lt", "eq", "not", "and", "bind", "row", "bindarg"}
UFN = {"truth", "isinst", "hasattr", "contains", "any", "all", "float", "complex", "invert", "BitAnd", "BitOr"}


def opaque_heads(t):
    """names of library operations / havocked values a term depends on"""
    out = set()
    for u in T.atoms(t, lambda u: u.op not in PURE):
        if u.op == "fn":
            if u.args[0] in UFN:
                out.add("fn:" + u.args[0])
        elif u.op == "ext" and u.args[0] in SORTS or u.op == "mat" or u.op == "ext" and u.args[0] == "expm" and len(u.args) == 4 and u.args[1].op == "mat":
            pass
        elif u.op in ("ext", "meth", "attr", "strmeth"):
            out.add((u.op, str(next((x.args[0] if isinstance(x, Term) and x.op == "k" else x for x in u.args if not isinstance(x, Term) or x.op == "k"), ""))))
        else:
            out.add(u.op)
    return out
