import numpy as np
import vf
import elli
from elli import dispersions as D
from elli.dispersions.base_dispersion import BaseDispersion, InvalidParameters, IndexDispersion
from spec_common import lbda
from spec_c01 import square

# documented parameters, in documented order, with documented defaults
DOC = {
    "Cauchy": ([("n0", 1.5), ("n1", 0), ("n2", 0), ("k0", 0), ("k1", 0), ("k2", 0)], []),
    "CauchyCustomExponent": ([("n0", 1.5)], [("f", 0), ("e", 1)]),
    "CauchyUrbach": ([("n0", 1.5), ("B", 0), ("C", 0), ("D", 0), ("Eg", 2), ("Eu", 0.5)], []),
    "CodyLorentz": ([("Eg", 1.6), ("A", 100), ("Et", 1.8), ("gamma", 2.4), ("Ep", 0.8), ("E0", 3.6), ("Eu", 0.05)], []),
    "ConstantRefractiveIndex": ([("n", 1)], []),
    "DrudeEnergy": ([("A", 0), ("gamma", 0)], []),
    "DrudeResistivity": ([("rho_opt", 1), ("tau", 1)], []),
    "EpsilonInf": ([("eps", 1)], []),
    "Gaussian": ([], [("A", 1), ("E", 1), ("sigma", 1)]),
    "LorentzEnergy": ([], [("A", 1), ("E", 0), ("gamma", 0)]),
    "LorentzLambda": ([], [("A", 1), ("lambda_r", 0), ("gamma", 0)]),
    "Poles": ([("A_ir", 1), ("A_uv", 1), ("E_uv", 6)], []),
    "Polynomial": ([("e0", 1)], [("f", 0), ("e", 0)]),
    "Sellmeier": ([], [("A", 0), ("B", 0)]),
    "SellmeierCustomExponent": ([], [("A", 0), ("e_A", 1), ("B", 0), ("e_B", 1)]),
    "Tanguy": ([("A", 1), ("d", 3), ("gamma", 0.1), ("R", 0.1), ("Eg", 1), ("a", 0), ("b", 0)], []),
    "TaucLorentz": ([("Eg", 1)], [("A", 20), ("E", 1.5), ("C", 1)]),
}
MANDATORY = {"Table": ("lbda", "n"), "TableEpsilon": ("lbda", "epsilon"), "PseudoDielectricFunction": ("angle", "lbda", "psi", "delta")}


def get(n):
    return getattr(D, n)


def val(k, i=0):
    return vf.real("%s_%d" % (k, i), 0.001, 1000)


def same(d, single, rep, label):
    """the model carries exactly these parameters"""
    vf.check(set(d.single_params.keys()) == set(k for k, v in single), label + ": names of the single parameters")
    for k, v in single:
        vf.equal(d.single_params[k], v, label + ": " + k)
    vf.check(len(d.rep_params) == len(rep), label + ": number of repeated sets")
    for i in range(len(rep)):
        vf.check(set(d.rep_params[i].keys()) == set(k for k, v in rep[i]), label + ": names of the repeated parameters")
        for k, v in rep[i]:
            vf.equal(d.rep_params[i][k], v, label + ": %s of set %d" % (k, i))


def ob_defaults():
    for n in DOC:
        single, rep = DOC[n]
        same(get(n)(), single, [], n + " with defaults")
        d = get(n)()
        if rep:
            r = d.add()
            vf.same_object(r, d, n + ".add() returns the model")
            d.add()
            same(d, single, [rep, rep], n + " with default repeated sets")
            vf.disjoint(d.rep_params[0], d.rep_params[1], n + ": repeated sets are independent")


def ob_many_sets():
    """a dozen repeated sets stay in the order they were added"""
    for n in DOC:
        single, rep = DOC[n]
        if rep:
            d = get(n)()
            for i in range(12):
                d.add(**{k: val(k, i) for k, v in rep})
            same(d, single, [[(k, val(k, i)) for k, v in rep] for i in range(12)], n + " with twelve repeated sets")


def ob_by_name():
    """each parameter alone, the others take their defaults"""
    for n in DOC:
        single, rep = DOC[n]
        for k, v in single:
            same(get(n)(**{k: val(k)}), [(q, val(q) if q == k else w) for q, w in single], [], n + "(%s=)" % k)
        d = get(n)()
        for k, v in rep:
            d.add(**{k: val(k)})
        if rep:
            same(d, single, [[(q, val(q) if q == k else w) for q, w in rep] for k, v in rep], n + ".add() by name")
        # all names, reverse order
        same(get(n)(**{k: val(k) for k, v in single[::-1]}), [(k, val(k)) for k, v in single], [], n + " with all names")


def ob_positional():
    for n in DOC:
        single, rep = DOC[n]
        for m in range(len(rep) + 1):
            d = get(n)()
            if not rep:
                continue
            d.add(*[val(k) for k, v in rep[:m]])
            want = [(k, val(k)) for k, v in rep[:m]] + rep[m:]
            same(d, single, [want], n + ".add() with %d positional values" % m)
            if 0 < m < len(rep):
                d = get(n)()
                d.add(*[val(k) for k, v in rep[:m]], **{k: val(k) for k, v in rep[m:]})
                same(d, single, [[(k, val(k)) for k, v in rep]], n + ".add() with %d positional values and names" % m)
        for m in range(1, len(single) + 1):
            d = get(n)(*[val(k) for k, v in single[:m]])
            same(d, [(k, val(k)) for k, v in single[:m]] + single[m:], [], n + " with %d positional values" % m)


def ob_rejected():
    for n in DOC:
        single, rep = DOC[n]
        c = get(n)
        for bad in ("nonsense", "", "n_0", "a_", "rep_params"):
            vf.expect_raises(InvalidParameters, n + ": unknown parameter %r" % bad, create, c, [], {bad: 1})
            vf.expect_raises(InvalidParameters, n + ".add(): unknown parameter %r" % bad, extend, c, [], {bad: 1})
        vf.expect_raises(InvalidParameters, n + ": surplus values", create, c, [1] * (len(single) + 1), {})
        vf.expect_raises(InvalidParameters, n + ".add(): surplus values", extend, c, [1] * (len(rep) + 1), {})
        if single:
            k = single[0][0]
            vf.expect_raises(InvalidParameters, n + ": %s given twice" % k, create, c, [2], {k: 2})
            vf.expect_raises(InvalidParameters, n + ": unknown beside a known parameter", create, c, [], {k: 2, "nonsense": 1})
            k = single[-1][0]
            vf.expect_raises(InvalidParameters, n + ": all positional and %s again" % k, create, c, [1] * len(single), {k: 2})
        if rep:
            k = rep[0][0]
            vf.expect_raises(InvalidParameters, n + ".add(): %s given twice" % k, extend, c, [2], {k: 2})
            k = rep[-1][0]
            vf.expect_raises(InvalidParameters, n + ".add(): all positional and %s again" % k, extend, c, [1] * len(rep), {k: 2})
            for q, v in rep:
                if q not in [k for k, v in single]:
                    vf.expect_raises(InvalidParameters, n + ": repeated parameter %s as single one" % q, create, c, [], {q: 1})
            for q, v in single:
                if q not in [k for k, v in rep]:
                    vf.expect_raises(InvalidParameters, n + ".add(): single parameter %s as repeated one" % q, extend, c, [], {q: 1})


def create(c, args, kw):
    return c(*args, **kw)


def extend(c, args, kw):
    return c().add(*args, **kw)


def refused(d, args, kw):
    """value of the model after a refused extension"""
    try:
        d.add(*args, **kw)
    except InvalidParameters:
        pass


def ob_refused_leaves_model():
    for n in DOC:
        single, rep = DOC[n]
        d = get(n)()
        if rep:
            d.add(*[val(k) for k, v in rep])
        vf.frozen(n + ": refused add() leaves the model", [d], refused, d, [], {"nonsense": 1})
        vf.frozen(n + ": surplus add() leaves the model", [d], refused, d, [1] * (len(rep) + 1), {})


def given(n):
    x = vf.arr("x", (4,), "pos", 10, 30000)
    y = vf.arr("y", (4,), "real", 0, 80)
    return {"angle": vf.real("angle", 0.1, 89.9), "lbda": x, "n": vf.arr("nt", (4,), "complex"), "epsilon": vf.arr("et", (4,), "complex"), "psi": y, "delta": 2 * y}


def ob_mandatory():
    for n in MANDATORY:
        names = MANDATORY[n]
        kw = given(n)
        d = get(n)(**{k: kw[k] for k in names})
        for k in names:
            vf.equal(d.single_params[k], kw[k], n + ": " + k)
        d = get(n)(*[kw[k] for k in names])
        for k in names:
            vf.equal(d.single_params[k], kw[k], n + " positionally: " + k)
        for k in names:
            vf.expect_raises(Exception, n + ": missing " + k, create, get(n), [], {q: kw[q] for q in names if q != k})
            vf.expect_raises(InvalidParameters, n + ": %s unset" % k, get(n), **{q: (kw[q] if q != k else None) for q in names})
        vf.expect_raises(InvalidParameters, n + ": nothing given", create, get(n), [], {})
        vf.expect_raises(InvalidParameters, n + ": unknown parameter", create, get(n), [kw[k] for k in names], {"nonsense": 1})
    for n, y in (("Table", "n"), ("TableEpsilon", "epsilon")):
        c = get(n)
        z = np.array([])
        vf.expect_raises(InvalidParameters, n + ": empty table", create, c, [z, z], {})
        for a, b in ((3, 4), (4, 3)):
            vf.expect_raises(InvalidParameters, n + ": %d wavelengths and %d values" % (a, b), create, c, [vf.arr("x", (a,), "pos"), vf.arr("y", (b,), "complex")], {})


def ob_isolation():
    """nothing done to one model shows up in another one or in the defaults"""
    for n in DOC:
        single, rep = DOC[n]
        c = get(n)
        a = c(**{k: val(k) for k, v in single})
        b = c()
        if rep:
            a.add(**{k: val(k) for k, v in rep})
            b.add()
        for k, v in single:
            a.single_params[k] = val(k, 1)
        for k, v in rep:
            a.rep_params[0][k] = val(k, 1)
        if rep:
            a.add()
            a.rep_params[1][rep[0][0]] = val("z", 1)
        same(b, single, [rep] if rep else [], n + " created before another one was changed")
        d = c()
        same(d, single, [], n + " created after another one was changed")
        if rep:
            d.add()
            same(d, single, [rep], n + " extended after another one was changed")
        vf.disjoint([a.single_params, a.rep_params], [b.single_params, b.rep_params], n + ": two models share no parameter store")
        # another class with the same parameter names is untouched as well
    for n in DOC:
        single, rep = DOC[n]
        d = get(n)()
        if rep:
            d.add()
        same(d, single, [rep] if rep else [], n + " after all other models were changed")


def ob_caller_dict():
    """the dictionaries a caller unpacks stay his"""
    for n in DOC:
        single, rep = DOC[n]
        p = {k: val(k) for k, v in single}
        q = {k: val(k) for k, v in rep}
        d = get(n)(**p)
        d.add(**q)
        for k in p:
            p[k] = 0
        for k in q:
            q[k] = 0
        same(d, [(k, val(k)) for k, v in single], [[(k, val(k)) for k, v in rep]], n + " after the caller's dictionary changed")


def ob_sums():
    """extending a summand never alters the sum's other parts, sums take no parameters of their own"""
    a, b = D.LorentzEnergy(), D.Gaussian()
    a.add(A=val("A"))
    s = a + b
    vf.frozen("extending a summand", [a], extend_obj, b)
    vf.check(len(s.rep_params) == 0 and len(s.single_params) == 0, "a sum has no parameters of its own")
    vf.expect_raises(InvalidParameters, "a sum refuses parameters", s.add, 1)
    t = a + b
    vf.check(len(t.rep_params) == 0 and len(t.single_params) == 0, "a second sum has no parameters of its own")


def extend_obj(d):
    d.add()


def ob_coverage():
    """every built-in model is covered"""
    for c in vf.subclasses(BaseDispersion):
        n = vf.class_name(c)
        if n.startswith("Sym") or n in ("Dispersion", "IndexDispersion", "DispersionSum", "IndexDispersionSum", "AnonymousIndexDispersion", "FormulaParser", "Formula", "FormulaIndex", "Const"):
            continue
        if n in DOC or n in MANDATORY:
            vf.check(True, n + " is covered")
        else:
            vf.undecided(n + " has no documented parameter table in this specification")


def shows(text, pairs, label):
    pos = 0
    for k, v in pairs:
        p = text.find("%s = %s" % (k, v), pos)
        vf.check(p >= 0, "%s shows %s with its value" % (label, k))
        pos = max(p, 0)


def ob_printed():
    """the printed form of a model names every parameter with its value"""
    for n in DOC:
        single, rep = DOC[n]
        sp = [(k, 1.25 + i) for i, (k, v) in enumerate(single)]
        d = get(n)(**dict(sp))
        text = vf.accepted("printing " + n, vf.frozen, "printing leaves %s alone" % n, [d], repr, d)
        vf.check(n in text, "printed %s names the model" % n)
        shows(text, sp, "printed " + n)
        if rep:
            want = list(sp)
            for t in range(2):
                rp = [(k, 2.5 + 10 * t + i) for i, (k, v) in enumerate(rep)]
                d.add(**dict(rp))
                want += rp
            shows(repr(d), want, "printed %s with two terms" % n)
        vf.check(str(d) == repr(d), "str() of %s" % n)
    a, b = D.LorentzEnergy().add(1.5, 2.5, 3.5), D.Gaussian().add(4.5, 5.5, 6.5)
    t = repr(a + b + 7)
    vf.check(repr(a) in t and repr(b) in t and repr(D.EpsilonInf(eps=7)) in t, "a printed sum shows its parts")
    a, b = D.Cauchy(n0=1.25), D.ConstantRefractiveIndex(n=2.25)
    t = repr(a + b)
    vf.check(repr(a) in t and repr(b) in t, "a printed index sum shows its parts")
    shows(repr(D.LorentzEnergy().add(1.5, 2.5, 3.5).as_index()), [("A", 1.5), ("E", 2.5), ("gamma", 3.5)], "printed index view")
