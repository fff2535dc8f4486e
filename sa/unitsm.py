"""Unit expressions as pint reads them (the units optics uses)."""
import re
from fractions import Fraction
from . import terms as T
from .terms import num
from . import models_np as NP


class Unknown(Exception):
    pass


class NotModelled(Exception):
    pass


F = Fraction
PRE = {"": F(1), "f": F(1, 10**15), "p": F(1, 10**12), "n": F(1, 10**9), "u": F(1, 10**6), "µ": F(1, 10**6), "μ": F(1, 10**6), "m": F(1, 1000), "c": F(1, 100), "d": F(1, 10),
       "k": F(1000), "M": F(10**6), "G": F(10**9), "T": F(10**12), "P": F(10**15)}
LONG = {"": F(1), "femto": F(1, 10**15), "pico": F(1, 10**12), "nano": F(1, 10**9), "micro": F(1, 10**6), "milli": F(1, 1000), "centi": F(1, 100), "deci": F(1, 10), "kilo": F(1000),
        "mega": F(10**6), "giga": F(10**9), "tera": F(10**12)}
SHORT_UNITS = {"m": (num(1), (1, 0, 0)), "eV": (NP.SC["e"], (2, 1, -2)), "J": (num(1), (2, 1, -2)), "Hz": (num(1), (0, 0, -1)), "s": (num(1), (0, 0, 1)), "g": (num(F(1, 1000)), (0, 1, 0))}
LONG_UNITS = {"meter": SHORT_UNITS["m"], "metre": SHORT_UNITS["m"], "electron_volt": SHORT_UNITS["eV"], "joule": SHORT_UNITS["J"], "hertz": SHORT_UNITS["Hz"], "second": SHORT_UNITS["s"], "gram": SHORT_UNITS["g"]}
OTHER = {"angstrom": (num(F(1, 10**10)), (1, 0, 0)), "Å": (num(F(1, 10**10)), (1, 0, 0)), "ångström": (num(F(1, 10**10)), (1, 0, 0)), "Å": (num(F(1, 10**10)), (1, 0, 0)),
         "micron": (num(F(1, 10**6)), (1, 0, 0)), "microns": (num(F(1, 10**6)), (1, 0, 0)), "angstroms": (num(F(1, 10**10)), (1, 0, 0)), "dimensionless": (num(1), (0, 0, 0)),
         "degree": (T.div(NP.PI, num(180)), (0, 0, 0)), "deg": (T.div(NP.PI, num(180)), (0, 0, 0)), "degrees": (T.div(NP.PI, num(180)), (0, 0, 0)), "radian": (num(1), (0, 0, 0)), "rad": (num(1), (0, 0, 0)),
         "inch": (num(F(254, 10000)), (1, 0, 0)), "reciprocal_centimeter": (num(100), (-1, 0, 0)), "cm_1": (num(100), (-1, 0, 0)), "kayser": (num(100), (-1, 0, 0)),
         "speed_of_light": (NP.SC["c"], (1, 0, -1)), "planck_constant": (NP.SC["h"], (2, 1, -1)), "hbar": (NP.SC["hbar"], (2, 1, -1)),
         "h": (num(3600), (0, 0, 1)), "hour": (num(3600), (0, 0, 1)), "min": (num(60), (0, 0, 1)), "minute": (num(60), (0, 0, 1))}
# names pint knows but whose meaning is not needed here
KNOWN = {"K", "kelvin", "A", "ampere", "V", "volt", "W", "watt", "N", "newton", "Pa", "C", "mol", "cd", "T", "l", "L", "a", "t", "b", "bar", "u", "c", "e", "k", "R", "D", "F", "H", "S", "Pi", "pi", "in", "ft"}


def unit(name, aliases):
    if name in aliases:
        m, s, d = parse(aliases[name], {k: v for k, v in aliases.items() if k != name})
        return T.mul(m, s), d
    if name in OTHER:
        return OTHER[name]
    for n in (name, name[:-1] if name.endswith("s") and len(name) > 3 else name):
        for p, f in LONG.items():
            if n.startswith(p) and n[len(p):] in LONG_UNITS:
                s, d = LONG_UNITS[n[len(p):]]
                return T.mul(num(f), s), d
    for p, f in PRE.items():
        if name.startswith(p) and name[len(p):] in SHORT_UNITS:
            s, d = SHORT_UNITS[name[len(p):]]
            return T.mul(num(f), s), d
    for p in list(PRE) + list(LONG):
        if name.startswith(p) and (name[len(p):] in KNOWN or name[len(p):] in OTHER):
            raise NotModelled(name)
    raise Unknown(name)


TOK = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)|([^\W\d]\w*)|(\*\*|[*/^()+-]))")


def parse(text, aliases):
    toks, pos = [], 0
    text = text.strip()
    if not text:
        return num(1), num(1), (0, 0, 0)
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise NotModelled(text[pos:])
        toks.append(m.groups())
        pos = m.end()

    i = [0]

    def peek():
        return toks[i[0]][2] if i[0] < len(toks) else None

    def atom():
        if i[0] >= len(toks):
            raise NotModelled("incomplete expression")
        n, name, op = toks[i[0]]
        i[0] += 1
        if n:
            return num(F(n)), num(1), (0, 0, 0)
        if name:
            s, d = unit(name, aliases)
            return num(1), s, d
        if op == "(":
            v = product()
            if peek() != ")":
                raise NotModelled("parenthesis")
            i[0] += 1
            return v
        raise NotModelled(op)

    def power():
        v = atom()
        if peek() in ("**", "^"):
            i[0] += 1
            neg = False
            if peek() == "-":
                neg = True
                i[0] += 1
            n = toks[i[0]][0] if i[0] < len(toks) else None
            if n is None or "." in n:
                raise NotModelled("exponent")
            i[0] += 1
            k = -int(n) if neg else int(n)
            v = (T.power(v[0], num(k)), T.power(v[1], num(k)), tuple(x * k for x in v[2]))
        return v

    def product():
        v = power()
        while i[0] < len(toks) and peek() != ")":
            op = peek()
            if op in ("*", "/"):
                i[0] += 1
            elif op is not None and op != "(":
                raise NotModelled(op)
            w = power()
            if op == "/":
                v = (T.div(v[0], w[0]), T.div(v[1], w[1]), tuple(a - b for a, b in zip(v[2], w[2])))
            else:
                v = (T.mul(v[0], w[0]), T.mul(v[1], w[1]), tuple(a + b for a, b in zip(v[2], w[2])))
        return v
    v = product()
    if i[0] != len(toks):
        raise NotModelled("trailing text")
    return v
