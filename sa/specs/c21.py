"""C21: formula texts mean what they say (grammar x transformer, every operator/function/name shape)."""
import vf
import numpy as np
import scipy.constants as sc
from scipy.special import dawsn
import elli

N = vf.size("N")
X = vf.arr("x", (N,), "real", 100, 2000)
NAMES = ("A", "B", "C", "D")
SINGLE = {"A": vf.pos("A"), "B": vf.pos("B"), "C": vf.pos("C"), "D": vf.pos("D")}


def f_add(a, b):
    return a + b


def f_sub(a, b):
    return a - b


def f_mul(a, b):
    return a * b


def f_div(a, b):
    return a / b


def f_pow(a, b):
    return a ** b


OPS = (("+", 1, f_add), ("-", 1, f_sub), ("*", 2, f_mul), ("/", 2, f_div), ("**", 3, f_pow))


def evaluate(vals, ops):
    """usual precedence, left to right among equals"""
    vals = list(vals)
    ops = list(ops)
    for level in (3, 2, 1):
        i = 0
        while i < len(ops):
            if ops[i][1] == level:
                vals[i:i + 2] = [ops[i][2](vals[i], vals[i + 1])]
                del ops[i]
            else:
                i += 1
    return vals[0]


def run(text, single=None, rep=None, cls=None, x=None):
    d = (cls or elli.Formula)(text, "lbda", SINGLE if single is None else single, {} if rep is None else rep)
    x = X if x is None else x
    if cls is elli.FormulaIndex:
        return d.get_refractive_index(x)
    return d.get_dielectric(x)


def chain(ops, spaced, leaves):
    sep = " " if spaced else ""
    t = leaves[0]
    for o, l in zip(ops, leaves[1:]):
        t += sep + o[0] + sep + l
    return t


def adjacent_powers(ops):
    for a, b in zip(ops, ops[1:]):
        if a[1] == 3 and b[1] == 3:
            return True
    return False


def precedence(o1):
    """lbda o1 A o2 B o3 C, for every o2, o3"""
    vals = (X, SINGLE["A"], SINGLE["B"], SINGLE["C"])
    for o2 in OPS:
        for o3 in OPS:
            ops = (o1, o2, o3)
            if adjacent_powers(ops):
                continue
            text = chain(ops, o3[1] == 1, ("lbda", "A", "B", "C"))
            vf.equal(run("eps = " + text), evaluate(vals, ops), "eps = " + text)


def ob_precedence_add():
    precedence(OPS[0])


def ob_precedence_sub():
    precedence(OPS[1])


def ob_precedence_mul():
    precedence(OPS[2])


def ob_precedence_div():
    precedence(OPS[3])


def ob_precedence_pow():
    precedence(OPS[4])


REP = {"B": [vf.pos("B1"), vf.pos("B2")], "C": [vf.pos("C1"), vf.pos("C2")]}


def rep_precedence(o1):
    for o2 in OPS:
        for o3 in OPS:
            ops = (o1, o2, o3)
            if adjacent_powers(ops):
                continue
            text = "sum[" + chain(ops, o2[1] == 1, ("lbda", "B", "A", "C")) + "]"
            want = 0
            for k in range(2):
                want = want + evaluate((X, REP["B"][k], SINGLE["A"], REP["C"][k]), ops)
            vf.equal(run("eps = " + text, {"A": SINGLE["A"]}, REP), want, "eps = " + text)


def ob_repeated_add():
    rep_precedence(OPS[0])


def ob_repeated_sub():
    rep_precedence(OPS[1])


def ob_repeated_mul():
    rep_precedence(OPS[2])


def ob_repeated_div():
    rep_precedence(OPS[3])


def ob_repeated_pow():
    rep_precedence(OPS[4])


def ob_parentheses():
    a, b, c = SINGLE["A"], SINGLE["B"], SINGLE["C"]
    for o1 in OPS:
        for o2 in OPS:
            t = "(lbda %s A) %s B" % (o1[0], o2[0])
            vf.equal(run("eps = " + t), o2[2](o1[2](X, a), b), "eps = " + t)
            t = "lbda %s (A %s B)" % (o1[0], o2[0])
            vf.equal(run("eps = " + t), o1[2](X, o2[2](a, b)), "eps = " + t)
            t = "sum[(lbda%sA)%sB]" % (o1[0], o2[0])
            vf.equal(run("eps = " + t, {"A": a}, REP), o2[2](o1[2](X, a), REP["B"][0]) + o2[2](o1[2](X, a), REP["B"][1]), "eps = " + t)
            t = "sum[lbda%s(B%sA)]" % (o1[0], o2[0])
            vf.equal(run("eps = " + t, {"A": a}, REP), o1[2](X, o2[2](REP["B"][0], a)) + o1[2](X, o2[2](REP["B"][1], a)), "eps = " + t)
    vf.equal(run("eps = ((lbda))"), X, "nested parentheses")
    vf.equal(run("eps = ((lbda - A) * (B + C))**(C - A)"), ((X - a) * (b + c)) ** (c - a), "deeply nested")


def ob_numbers():
    for text, val in (("2", 2), ("1.5", 1.5), ("2.", 2), (".5", 0.5), ("3e2", 300), ("3E+2", 300), ("25e-1", 2.5), ("1.25e1", 12.5), ("-4", -4), ("+4", 4), ("-1.5e1", -15), ("0", 0)):
        vf.equal(run("eps = lbda * " + text), X * val, "lbda * " + text)
        vf.equal(run("eps=lbda+" + text), X + val, "lbda+" + text)
        vf.equal(run("eps = lbda - " + text), X - val, "lbda - " + text)
        vf.equal(run("eps = sum[lbda * B * " + text + "]", {}, {"B": REP["B"]}), X * (REP["B"][0] + REP["B"][1]) * val, "sum[lbda * B * " + text + "]")


def emath_sqrt(x):
    return np.emath.sqrt(x)


def heav(x):
    return np.heaviside(x, 0.5)


FUNCS = (("sin", np.sin), ("cos", np.cos), ("tan", np.tan), ("sqrt", emath_sqrt), ("dawsn", dawsn), ("ln", np.log), ("log", np.log10), ("heaviside", heav))


def ob_functions():
    a, b = SINGLE["A"], SINGLE["B"]
    for name, f in FUNCS:
        vf.equal(run("eps = %s(lbda)" % name), f(X), name + "(lbda)")
        vf.equal(run("eps = A * %s(lbda / A + B) - %s( A )*lbda" % (name, name)), a * f(X / a + b) - f(a) * X, name + " in an expression")
        vf.equal(run("eps = %s(lbda)**2" % name), f(X) ** 2, name + "(lbda)**2")
        vf.equal(run("eps = 1/%s(lbda)" % name), 1 / f(X), "1/" + name + "(lbda)")
        r = REP["B"]
        vf.equal(run("eps = sum[%s(lbda*B)]" % name, {}, {"B": r}), f(X * r[0]) + f(X * r[1]), "sum[" + name + "(lbda*B)]")
        vf.equal(run("eps = sum[A*%s(B)*lbda**2]" % name, {"A": a}, {"B": r}), a * (f(r[0]) + f(r[1])) * X ** 2, "sum[A*" + name + "(B)*lbda**2]")
        for g, h in (("sin", np.sin), ("sqrt", emath_sqrt)):
            vf.equal(run("eps = %s(%s(lbda))" % (name, g)), f(h(X)), name + "(" + g + "(lbda))")


BUILTINS = (("1j", 1j), ("pi", np.pi), ("eps_0", sc.epsilon_0), ("hbar", sc.hbar), ("h", sc.h), ("c", sc.c))


def ob_builtins():
    a = SINGLE["A"]
    for name, v in BUILTINS:
        vf.equal(run("eps = %s * lbda" % name), v * X, name + " * lbda")
        vf.equal(run("eps = lbda**2+%s/A" % name), X ** 2 + v / a, "lbda**2+" + name + "/A")
        vf.equal(run("eps = sum[lbda*B*%s]" % name, {}, {"B": REP["B"]}), X * (REP["B"][0] + REP["B"][1]) * v, "sum[lbda*B*" + name + "]")
    vf.equal(run("eps = h*c/(2*pi*lbda) + 1j*hbar*eps_0"), sc.h * sc.c / (2 * np.pi * X) + 1j * sc.hbar * sc.epsilon_0, "all constants")


def name_cases():
    out = []
    for stem in ("sin", "cos", "tan", "sqrt", "dawsn", "ln", "log", "heaviside", "pi", "eps_0", "hbar", "h", "c", "sum", "kkr"):
        for n in (stem + "x", stem + "_1", stem + "2", "x" + stem, stem + "_", "_" + stem):
            out.append(n)
    for n in ("eps", "eps_", "eps_01", "n", "n0", "nn", "x", "e", "E", "e1", "j", "_", "_1", "Eps", "N", "PI", "Sin", "lbda2", "lb"):
        out.append(n)
    return out


def names(part):
    v = vf.pos("V")
    cases = [n for k, n in enumerate(name_cases()) if k % 4 == part]
    for n in cases:
        vf.equal(run("eps = 2*%s*lbda" % n, {n: v}), 2 * v * X, "parameter named " + n)
        vf.equal(run("eps=lbda+%s" % n, {n: v, "A": SINGLE["A"]}), X + v, "lbda+" + n)
        vf.equal(run("eps = sum[%s*lbda]" % n, {}, {n: REP["B"]}), (REP["B"][0] + REP["B"][1]) * X, "repeated parameter named " + n)
        vf.equal(run("eps = %s**2" % n, {}, {}, None, X) if n == "lbda" else run("eps = sin(%s)*lbda" % n, {n: v}), np.sin(v) * X, "sin(" + n + ")")
        d = elli.Formula("eps = A*%s**2" % n, n, {"A": SINGLE["A"]}, {})
        vf.equal(d.get_dielectric(X), SINGLE["A"] * X ** 2, "axis named " + n)


def ob_names_0():
    names(0)


def ob_names_1():
    names(1)


def ob_names_2():
    names(2)


def ob_names_3():
    names(3)


def ob_sums():
    a = SINGLE["A"]
    for k in (1, 2, 3, 12):
        bs = [vf.pos("b%d" % i) for i in range(k)]
        cs = [vf.pos("c%d" % i) for i in range(k)]
        want = 0
        for b, c in zip(bs, cs):
            want = want + b * X ** 2 / (X ** 2 - c ** 2)
        t = "eps = 1 + A + sum[B*lbda**2/(lbda**2 - C**2)]"
        vf.equal(run(t, {"A": a}, {"B": bs, "C": cs}), 1 + a + want, "Sellmeier text with %d terms" % k)
        vf.equal(run("n = A - 2*sum[B*lbda**2/(lbda**2 - C**2)]/lbda", {"A": a}, {"B": bs, "C": cs}, elli.FormulaIndex), a - 2 * want / X, "index text with %d terms" % k)
        vf.equal(run("n = sqrt(1 + sum[B*lbda**2/(lbda**2 - C**2)])", {"A": a}, {"B": bs, "C": cs}, elli.FormulaIndex), np.emath.sqrt(1 + want), "index as root of a sum, %d terms" % k)
        s2 = 0
        for b, c in zip(bs, cs):
            s2 = s2 + c * X
        vf.equal(run(t + " * sum[lbda*C]", {"A": a}, {"B": bs, "C": cs}), 1 + a + want * s2, "product of sums, %d terms" % k)
        s3 = 0
        for b, c in zip(bs, cs):
            s3 = s3 + a * X ** b
        vf.equal(run("eps = sum[A*lbda**B]", {"A": a}, {"B": bs, "C": cs}), s3, "single parameter inside a sum of %d" % k)
        s4 = 0
        for b in bs:
            s4 = s4 + X
        vf.equal(run("eps = sum[lbda]", {"A": a}, {"B": bs}), s4, "the axis summed over %d repetitions" % k)


def ob_added_repetitions():
    b, c = REP["B"], REP["C"]
    d = elli.Formula("eps = sum[B*lbda/C]", "lbda", {}, REP)
    d.add(B=vf.pos("B3"), C=vf.pos("C3"))
    vf.equal(d.get_dielectric(X), b[0] * X / c[0] + b[1] * X / c[1] + vf.pos("B3") * X / vf.pos("C3"), "repetition added later")


def ob_same_text_again():
    """evaluating a formula does not alter what the text means"""
    t = "eps = A + sum[B*sin(lbda)]*2"
    y = vf.arr("y", (N,), "real", 100, 2000)
    d = elli.Formula(t, "lbda", {"A": SINGLE["A"]}, {"B": REP["B"]})
    e = elli.Formula(t, "lbda", {"A": SINGLE["D"]}, {"B": REP["C"]})
    s = REP["B"][0] + REP["B"][1]
    vf.equal(d.get_dielectric(X), SINGLE["A"] + s * np.sin(X) * 2, "first evaluation")
    vf.equal(d.get_dielectric(y), SINGLE["A"] + s * np.sin(y) * 2, "second evaluation, other wavelengths")
    vf.equal(e.get_dielectric(y), SINGLE["D"] + (REP["C"][0] + REP["C"][1]) * np.sin(y) * 2, "other object, same text")
    vf.equal(d.get_dielectric(X), SINGLE["A"] + s * np.sin(X) * 2, "first object again")
    f = elli.FormulaIndex("n = A*lbda", "lbda", {"A": SINGLE["A"]}, {})
    g = elli.FormulaIndex("n = A*lbda", "A", {"lbda": SINGLE["B"]}, {})
    vf.equal(f.get_refractive_index(X), SINGLE["A"] * X, "axis lbda")
    vf.equal(g.get_refractive_index(X), SINGLE["B"] * X, "same text, other axis name")


def ob_representation():
    vf.equal(run("n = A*lbda", None, None, elli.FormulaIndex), SINGLE["A"] * X, "index text is the index")
    d = elli.FormulaIndex("n = A*lbda", "lbda", SINGLE, {})
    vf.equal(d.get_dielectric(X), (SINGLE["A"] * X) ** 2, "index text squared is the permittivity")
    d = elli.Formula("eps = A*lbda", "lbda", SINGLE, {})
    vf.equal(d.get_dielectric(X), SINGLE["A"] * X, "eps text is the permittivity")
    vf.expect_raises(ValueError, "eps text refused as index", elli.FormulaIndex, "eps = A*lbda", "lbda", SINGLE, {})
    vf.expect_raises(ValueError, "n text refused as permittivity", elli.Formula, "n = A*lbda", "lbda", SINGLE, {})


def ob_only_declared_names():
    for t in ("eps = Z", "eps = (Z)", "eps = sum[Z]", "eps = B", "eps = lbda2", "eps = Z*lbda", "eps = lbda + sin(Z)", "eps = A*lb", "eps = A*lbda2", "eps = a*lbda", "eps = sum[Z*lbda]", "eps = sum[A*B*lbda]*Z", "eps = B*lbda", "eps = lbda + B*sum[B*lbda]",
              "eps = sinA*lbda", "eps = pix*lbda", "eps = hbarA*lbda", "eps = no_repeated_params*lbda", "eps = single_params*lbda"):
        vf.expect_raises(Exception, "refused: " + t, run, t, {"A": SINGLE["A"]}, {"B": REP["B"]})
    vf.expect_raises(Exception, "refused: axis under another name", run, "eps = x*A", {"A": SINGLE["A"]}, {})


def ob_not_in_the_grammar():
    for t in ("eps = A +", "eps = (A", "eps = A)", "A*lbda", "eps == A", "x = A", "eps = A % 2", "eps = A lbda", "eps = foo(lbda)", "eps = sum(lbda)", "eps = sin[lbda]", "eps = sin lbda", "eps = A**", "eps = *A",
              "eps = sum[sum[lbda]]", "eps = A;B", "", "eps =", "eps = 2A", "eps = __import__('os')", "eps = A.real", "eps = A if A else B", "eps = A, B", "eps = lambda: 1"):
        vf.expect_raises(Exception, "refused: " + t, run, t)


def ob_single_wavelength():
    """a formula evaluated at one wavelength gives one value"""
    b, c = REP["B"], REP["C"]
    w = vf.real("w", 300, 900)
    for lb in (w, 500.0, 500):
        for text, single, rep, want in (("A*lbda + 1", {"A": SINGLE["A"]}, {}, SINGLE["A"] * lb + 1), ("A", {"A": SINGLE["A"]}, {}, SINGLE["A"]),
                                        ("A + sum[B*lbda/C]", {"A": SINGLE["A"]}, {"B": b, "C": c}, SINGLE["A"] + b[0] * lb / c[0] + b[1] * lb / c[1]),
                                        ("sum[B]*sqrt(lbda)", {}, {"B": b}, (b[0] + b[1]) * np.sqrt(lb))):
            d = elli.Formula("eps = " + text, "lbda", single, rep)
            v = vf.accepted("%s at a single wavelength" % text, d.get_dielectric, lb)
            vf.equal(v, want, "%s at a single wavelength: value" % text)
            d = elli.FormulaIndex("n = " + text, "lbda", single, rep)
            v = vf.accepted("index %s at a single wavelength" % text, d.get_refractive_index, lb)
            vf.equal(v, want, "index %s at a single wavelength: value" % text)


def ob_parameter_kinds():
    """repeated parameters are lists or arrays of one length, single ones are numbers"""
    A, b, c = SINGLE["A"], REP["B"], REP["C"]
    one = vf.real("one", 0.5, 2)
    for cls, t in ((elli.Formula, "eps"), (elli.FormulaIndex, "n")):
        nm = vf.class_name(cls)
        text = t + " = A + sum[B*lbda/C]"
        v = (lambda d: d.get_dielectric(X)) if t == "eps" else (lambda d: d.get_refractive_index(X))
        want = A + b[0] * X / c[0] + b[1] * X / c[1]
        vf.equal(v(cls(text, "lbda", {"A": A}, {"B": [b[0], b[1]], "C": [c[0], c[1]]})), want, nm + ": repeated parameters as lists")
        vf.equal(v(cls(text, "lbda", {"A": A}, {"B": np.array([b[0], b[1]]), "C": [c[0], c[1]]})), want, nm + ": repeated parameters as list and array")
        for bad in (one, 2, 2.5, "ab", None, (b[0], b[1])):
            vf.expect_raises(ValueError, nm + " refuses repeated parameters that are not a sequence", cls, text, "lbda", {"A": A}, {"B": bad, "C": [c[0], c[1]]})
        for x, y in (([b[0]], [c[0], c[1]]), ([b[0], b[1]], [c[0]]), ([b[0], b[1]], [])):
            vf.expect_raises(ValueError, nm + " refuses repeated parameters of different lengths", cls, text, "lbda", {"A": A}, {"B": x, "C": y})
        vf.expect_raises(Exception, nm + " refuses a single parameter without value", cls, text, "lbda", {"A": None}, {"B": [b[0]], "C": [c[0]]})
        for bad in ("1", [1.0], 1j):
            d = cls(text, "lbda", {"A": bad}, {"B": [b[0]], "C": [c[0]]})
            vf.expect_raises(TypeError, nm + " refuses a single parameter that is not a number", v, d)


def ob_transformer():
    from elli.formula_parser.parser import FormulaTransformer, parse_formula
    A, b = SINGLE["A"], np.array([REP["B"][0], REP["B"][1]])

    def make(name, axis, single, rep):
        return FormulaTransformer(x_axis_name=name, x_axis_values=axis, single_params=single, repeated_params=rep)
    vf.equal(make("lbda", X, {"A": A}, {"B": b}).transform(parse_formula("eps = A*lbda + sum[B]"))[1], A * X + b[0] + b[1], "transformer: value")
    vf.equal(make("lbda", X, {"A": A}, {}).transform(parse_formula("n = A*lbda"))[0], "n", "transformer: representation")
    vf.expect_raises(TypeError, "transformer refuses an axis name that is not a string", make, 1, X, {"A": A}, {})
    vf.expect_raises(TypeError, "transformer refuses an axis that is not an array", make, "lbda", [500.0], {"A": A}, {})
    vf.expect_raises(ValueError, "transformer refuses repeated parameters that are not a dictionary", make, "lbda", X, {"A": A}, [b])
    vf.expect_raises(TypeError, "transformer refuses lists", make, "lbda", X, {"A": A}, {"C": b, "B": [b[0], b[1]]})
    vf.expect_raises(ValueError, "transformer refuses repeated parameters of different lengths", make, "lbda", X, {"A": A}, {"C": b, "B": b[:1]})
    vf.expect_raises(TypeError, "transformer refuses texts", make, "lbda", X, {"A": "1"}, {})


def ob_prefix_names():
    """names that begin, end or differ in case like another name stay apart"""
    p, q, r, s = vf.pos("p"), vf.pos("q"), vf.pos("r"), vf.pos("s")
    pairs = (("A", "Ab"), ("Ab", "A"), ("A", "AA"), ("B", "aB"), ("aB", "B"), ("e", "E"), ("E", "e"), ("A_1", "A_2"), ("A_1", "A"), ("l", "lb"), ("lbda_0", "lbda_"), ("lbd", "lbda2"), ("x1", "x11"), ("n_", "_n"), ("sinA", "sin_A"))
    for a, b in pairs:
        vf.equal(run("eps = %s*lbda + %s" % (a, b), {a: p, b: q}), p * X + q, "single parameters %s and %s" % (a, b))
        vf.equal(run("eps = sum[%s*lbda + %s]" % (a, b), {}, {a: [p, q], b: [r, s]}), p * X + r + q * X + s, "repeated parameters %s and %s" % (a, b))
        vf.equal(run("eps = sum[%s*lbda + %s]" % (a, b), {a: p}, {b: [r, s]}), 2 * p * X + r + s, "single %s and repeated %s in a sum" % (a, b))
        vf.equal(run("eps = sum[%s*Z*lbda + %s]*%s" % (a, b, b), {a: p, b: q}, {"Z": [r, s]}), (p * (r + s) * X + 2 * q) * q, "single parameters %s and %s in a sum" % (a, b))
        vf.equal(run("eps = sum[%s*Z*lbda + %s]*%s" % (a, b, b), {b: q, a: p}, {"Z": [r, s]}), (p * (r + s) * X + 2 * q) * q, "single parameters %s and %s in a sum, declared in other order" % (a, b))
        vf.expect_raises(Exception, "single %s in a sum is not declared by %s" % (a, b), run, "eps = sum[%s*Z*lbda]" % a, {b: p}, {"Z": [p, q]})
        vf.equal(run("eps = %s/sum[lbda*%s]" % (a, b), {a: p}, {b: [r, s]}), p / (X * (r + s)), "single %s beside a sum over %s" % (a, b))
        vf.equal(run("eps = sum[%s*%s**2/lbda]*%s" % (b, a, a), {a: p}, {b: [r, s]}), (r + s) * p * p / X * p, "single %s inside and outside of a sum over %s" % (a, b))
        d = elli.Formula("eps = %s*%s**2" % (a, b), b, {a: p}, {})
        vf.equal(d.get_dielectric(X), p * X ** 2, "parameter %s and axis %s" % (a, b))
        d = elli.Formula("eps = sum[%s*%s**2]" % (a, b), b, {}, {a: [p, q]})
        vf.equal(d.get_dielectric(X), (p + q) * X ** 2, "repeated parameter %s and axis %s" % (a, b))
        vf.expect_raises(Exception, "%s is not declared by %s" % (a, b), run, "eps = %s*lbda" % a, {b: p}, {})
        vf.expect_raises(Exception, "%s in a sum is not declared by %s" % (a, b), run, "eps = sum[%s*lbda]" % a, {}, {b: [p, q]})
        vf.expect_raises(Exception, "repeated %s outside of a sum" % a, run, "eps = %s*lbda" % a, {b: r}, {a: [p, q]})
