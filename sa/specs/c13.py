import numpy as np
import vf
import elli
from elli.structure import Structure, Layer, RepeatedLayers, TwistedLayer, VaryingMixtureLayer, AbstractLayer
from spec_common import SymMat, SymMix, lbda, rotz, iso


def mats():
    return SymMat("A"), SymMat("B"), SymMat("C"), SymMat("F"), SymMat("X")


def ob_layer():
    A = SymMat("A")
    d = vf.nonneg("d")
    lb = lbda()
    p = Layer(A, d).get_permittivity_profile(lb)
    vf.equal(p, [(d, A.get_tensor(lb))], "single layer gives its thickness and tensor")


def ob_order():
    A, B, C, F, X = mats()
    lb = lbda()
    a, b, c = vf.nonneg("a"), vf.nonneg("b"), vf.nonneg("c")
    s = Structure(F, [Layer(A, a), Layer(B, b), Layer(C, c)], X)
    p = s.get_permittivity_profile(lb)
    vf.equal(p, [(np.inf, F.get_tensor(lb)), (a, A.get_tensor(lb)), (b, B.get_tensor(lb)), (c, C.get_tensor(lb)), (np.inf, X.get_tensor(lb))],
             "front, layers in order, back")
    vf.equal(Structure(F, [], X).get_permittivity_profile(lb), [(np.inf, F.get_tensor(lb)), (np.inf, X.get_tensor(lb))], "empty stack")
    l1 = Layer(A, a)
    vf.equal(Structure(F, [l1, Layer(B, b), l1], X).get_permittivity_profile(lb),
             [(np.inf, F.get_tensor(lb)), (a, A.get_tensor(lb)), (b, B.get_tensor(lb)), (a, A.get_tensor(lb)), (np.inf, X.get_tensor(lb))], "a layer used twice is listed twice")
    lam = vf.pos("lam")
    vf.equal(s.get_permittivity_profile(lam)[1], (a, A.get_tensor(lam)), "scalar wavelength")


def rep(n, before, after, tag):
    A, B, C, F, X = mats()
    lb = lbda()
    a, b, c = vf.nonneg("a"), vf.nonneg("b"), vf.nonneg("c")
    la, lbb, lc = (a, A.get_tensor(lb)), (b, B.get_tensor(lb)), (c, C.get_tensor(lb))
    period = [la, lbb, lc]
    r = RepeatedLayers([Layer(A, a), Layer(B, b), Layer(C, c)], n, before, after)
    want = (period[3 - before:] if before else []) + period * n + period[:after]
    vf.equal(r.get_permittivity_profile(lb), want, "repetitions=%s before=%s after=%s" % (n, before, after))
    s = Structure(F, [r, Layer(A, a)], X)
    vf.equal(s.get_permittivity_profile(lb), [(np.inf, F.get_tensor(lb))] + want + [la, (np.inf, X.get_tensor(lb))], "repeated stack inside structure %s" % tag)


def ob_repeated_plain():
    for n in (1, 2, 3):
        rep(n, 0, 0, str(n))


def ob_repeated_before():
    for b in (1, 2, 3):
        rep(2, b, 0, "b" + str(b))


def ob_repeated_after():
    for a in (1, 2, 3):
        rep(2, 0, a, "a" + str(a))


def ob_repeated_both():
    rep(1, 1, 2, "both1")
    rep(3, 2, 1, "both2")


def ob_repeated_reconfigured():
    A, B = SymMat("A"), SymMat("B")
    lb = lbda()
    a, b = vf.nonneg("a"), vf.nonneg("b")
    la, l2 = (a, A.get_tensor(lb)), (b, B.get_tensor(lb))
    r = RepeatedLayers([Layer(A, a)], 3, 1, 1)
    r.set_repetitions(2)
    r.set_layers([Layer(B, b), Layer(A, a)])
    vf.equal(r.get_permittivity_profile(lb), [l2, la, l2, la], "set_repetitions resets leading and trailing layers")
    r.set_repetitions(2, 1)
    vf.equal(r.get_permittivity_profile(lb), [la, l2, la, l2, la], "set_repetitions with before")


def ob_nested():
    A, B = SymMat("A"), SymMat("B")
    lb = lbda()
    a, b = vf.nonneg("a"), vf.nonneg("b")
    la, l2 = (a, A.get_tensor(lb)), (b, B.get_tensor(lb))
    vf.equal(RepeatedLayers([RepeatedLayers([Layer(A, a), Layer(B, b)], 2, 1, 1), Layer(B, b)], 2, 1, 1).get_permittivity_profile(lb),
             [l2] + ([l2, la, l2, la, l2, la] + [l2]) * 2 + [l2, la, l2, la, l2, la], "nested repetition with leading and trailing layers")
    vf.equal(RepeatedLayers([RepeatedLayers([Layer(A, a), Layer(B, b)], 2, 1, 1)], 1, 1).get_permittivity_profile(lb), [l2, la, l2, la, l2, la] * 2, "leading layer that is a repeated stack")
    inner = RepeatedLayers([Layer(A, a), Layer(B, b)], 2)
    outer = RepeatedLayers([inner, Layer(A, a)], 2)
    vf.equal(outer.get_permittivity_profile(lb), [la, l2, la, l2, la] * 2, "nested repetition")


def ob_repeated_same_layer():
    """the same layer object, or equal layers, several times inside a repeated stack"""
    A, B, C, F, X = mats()
    lb = lbda()
    a, b = vf.nonneg("a"), vf.nonneg("b")
    la, l2 = (a, A.get_tensor(lb)), (b, B.get_tensor(lb))
    l, m = Layer(A, a), Layer(B, b)
    for n in (1, 2):
        vf.equal(RepeatedLayers([l, m, l], n).get_permittivity_profile(lb), [la, l2, la] * n, "a layer used twice inside the repeated stack, %d times" % n)
    vf.equal(RepeatedLayers([l, m, l], 2, 2, 1).get_permittivity_profile(lb), [l2, la] + [la, l2, la] * 2 + [la], "a layer used twice, with leading and trailing layers")
    vf.equal(RepeatedLayers([l, l], 2, 1, 1).get_permittivity_profile(lb), [la] * 6, "one layer object twice")
    vf.equal(RepeatedLayers([Layer(A, a), Layer(A, a)], 3).get_permittivity_profile(lb), [la] * 6, "equal layers")
    r = RepeatedLayers([l, m, l], 2)
    vf.equal(Structure(F, [r, l, r], X).get_permittivity_profile(lb),
             [(np.inf, F.get_tensor(lb))] + [la, l2, la] * 2 + [la] + [la, l2, la] * 2 + [(np.inf, X.get_tensor(lb))], "a repeated stack used twice")
    q = RepeatedLayers([l, m, l], 1)
    q.set_layers([m, l, m, l])
    vf.equal(q.get_permittivity_profile(lb), [l2, la, l2, la], "set_layers with a layer used twice")


def ob_front_equals_back():
    A, B, C, F, X = mats()
    lb = lbda()
    a = vf.nonneg("a")
    s = Structure(A, [Layer(A, a), Layer(A, a)], A)
    e = A.get_tensor(lb)
    vf.equal(s.get_permittivity_profile(lb), [(np.inf, e), (a, e), (a, e), (np.inf, e)], "one material everywhere")


def ob_other_wavelengths():
    """asking again, with other wavelengths of the same number, uses the new wavelengths"""
    A, B, C, F, X = mats()
    lb, lc = lbda(), lbda("lc")
    a, d, ang = vf.nonneg("a"), vf.pos("d"), vf.real("ang")
    f = vf.real("f", 0, 1)
    vf.assume(d > 0)
    mix = SymMix(SymMat("H"), SymMat("G"), f)
    s = Structure(F, [RepeatedLayers([Layer(A, a), TwistedLayer(B, d, 2, ang)], 2, 1, 1), VaryingMixtureLayer(mix, d, 2), Layer(mix, a)], X)
    first = s.get_permittivity_profile(lb)
    n = len(first)
    vf.equal(s.get_permittivity_profile(lc), Structure(F, [RepeatedLayers([Layer(A, a), TwistedLayer(B, d, 2, ang)], 2, 1, 1), VaryingMixtureLayer(mix, d, 2), Layer(mix, a)], X).get_permittivity_profile(lc),
             "other wavelengths of the same number")
    vf.equal(s.get_permittivity_profile(lc)[-2], (a, mix.get_tensor_fraction(lc, f)), "mixture layer, other wavelengths")
    vf.equal(s.get_permittivity_profile(lb), first, "first wavelengths asked again")


def ob_repeated_multislice():
    """leading / trailing layers that are themselves divided into slices"""
    lb = lbda()
    A, B = SymMat("A"), SymMat("B")
    b = vf.nonneg("b")
    d, ang = vf.pos("d"), vf.real("ang")
    tw = TwistedLayer(A, d, 2, ang)
    sl = tw.get_permittivity_profile(lb)
    l2 = (b, B.get_tensor(lb))
    vf.equal(RepeatedLayers([Layer(B, b), tw], 1, 1, 0).get_permittivity_profile(lb), sl + [l2] + sl, "one leading layer is the whole inhomogeneous layer")
    vf.equal(RepeatedLayers([tw, Layer(B, b)], 1, 0, 1).get_permittivity_profile(lb), sl + [l2] + sl, "one trailing layer is the whole inhomogeneous layer")


def ob_twisted():
    A = SymMat("A")
    lb = lbda()
    d, ang = vf.pos("d"), vf.real("ang")
    for n in (1, 2, 3, 4, 25, 60):
        p = TwistedLayer(A, d, n, ang).get_permittivity_profile(lb)
        want = []
        for k in range(n):
            r = rotz(ang * (k + 0.5) / n)
            want.append((d / n, r @ A.get_tensor(lb) @ r.T))
        vf.equal(p, want, "twisted layer, %s slices of equal height sampled at their centres" % n)


def ob_mixture_gradient():
    lb = lbda()
    d = vf.pos("d")
    mix = SymMix(SymMat("H"), SymMat("G"), vf.real("f", 0, 1))
    f0, f1 = vf.real("f0", 0, 1), vf.real("f1", 0, 1)
    for n in (1, 2, 3):
        p = VaryingMixtureLayer(mix, d, n).get_permittivity_profile(lb)
        vf.equal(p, [(d / n, mix.get_tensor_fraction(lb, (k + 0.5) / n)) for k in range(n)], "linear gradient, %s slices" % n)
        p = VaryingMixtureLayer(mix, d, n, lambda x: x * x / 3 + 0.25).get_permittivity_profile(lb)
        vf.equal(p, [(d / n, mix.get_tensor_fraction(lb, ((k + 0.5) / n) ** 2 / 3 + 0.25)) for k in range(n)], "custom gradient, %s slices" % n)
        p = VaryingMixtureLayer(mix, d, n, lambda x: f0 + (f1 - f0) * x).get_permittivity_profile(lb)
        vf.equal(p, [(d / n, mix.get_tensor_fraction(lb, f0 + (f1 - f0) * (k + 0.5) / n)) for k in range(n)], "gradient between any fractions, %s slices" % n)


def ob_total_thickness():
    lb = lbda()
    d, ang = vf.pos("d"), vf.real("ang")
    for n in (1, 2, 5):
        lay = TwistedLayer(SymMat("A"), d, n, ang)
        tot = 0
        for h, t in lay.get_permittivity_profile(lb):
            tot = tot + h
        vf.equal(tot, d, "slices add up to the layer thickness, %s slices" % n)
        z = lay.get_slices()
        vf.equal(z[0], 0, "slices start at 0, %s slices" % n)
        vf.equal(z[-1], d, "slices end at d, %s slices" % n)


def ob_symbolic_slices():
    """any number of slices: heights and centre positions as array terms"""
    lb = lbda()
    d, ang = vf.pos("d"), vf.real("ang")
    n = vf.posint("n")
    lay = TwistedLayer(SymMat("A"), d, n, ang)
    z = lay.get_slices()
    vf.equal(z, d * np.arange(n + 1) / n, "slice positions for any number of slices")


def ob_zero_thickness():
    lb = lbda()
    A = SymMat("A")
    p = TwistedLayer(A, 0, 1, 0).get_permittivity_profile(lb)
    vf.equal(p[0][0], 0, "zero thickness")
    vf.check(not np.any(np.isnan(p[0][1])), "zero-thickness twisted layer has a defined tensor")
    mix = elli.VCAMaterial(iso("H"), iso("G"), vf.real("f0", 0, 1))
    for n in (1, 2):
        for name, p in (("twisted", TwistedLayer(A, 0, n, 90).get_permittivity_profile(lb)), ("mixed", VaryingMixtureLayer(mix, 0, n).get_permittivity_profile(lb)),
                        ("mixed with a profile", VaryingMixtureLayer(mix, 0, n, lambda x: 1 - x).get_permittivity_profile(lb))):
            vf.check(len(p) == n, "zero-thickness %s layer has %d slices" % (name, n))
            for h, t in p:
                vf.equal(h, 0, "zero-thickness %s layer" % name)
                vf.check(not np.any(np.isnan(t)), "zero-thickness %s layer has a defined tensor" % name)


def ob_after_change():
    """re-evaluating after a change uses the new parameters"""
    A, B, C, F, X = mats()
    lb = lbda()
    a, b = vf.nonneg("a"), vf.nonneg("b")
    l = Layer(A, a)
    s = Structure(F, [l], X)
    s.get_permittivity_profile(lb)
    l.set_thickness(b)
    l.set_material(B)
    vf.equal(s.get_permittivity_profile(lb), [(np.inf, F.get_tensor(lb)), (b, B.get_tensor(lb)), (np.inf, X.get_tensor(lb))], "changed layer")
    s.set_layers([Layer(C, a), l])
    s.set_front_material(B)
    s.set_back_material(A)
    vf.equal(s.get_permittivity_profile(lb), [(np.inf, B.get_tensor(lb)), (a, C.get_tensor(lb)), (b, B.get_tensor(lb)), (np.inf, A.get_tensor(lb))], "changed structure")
    t = TwistedLayer(A, a + 1, 2, 30)
    t.get_permittivity_profile(lb)
    t.set_divisions(1)
    t.set_angle(60)
    t.set_thickness(b + 2)
    r = rotz(30)
    vf.equal(t.get_permittivity_profile(lb), [(b + 2, r @ A.get_tensor(lb) @ r.T)], "changed twisted layer")


def ob_many():
    """long stacks: a dozen different layers, repeated a dozen times, with leading and trailing layers"""
    lb = lbda()
    F, X = SymMat("F"), SymMat("X")
    mats_ = [SymMat("M%d" % i) for i in range(12)]
    ds = [vf.nonneg("d%d" % i) for i in range(12)]
    layers = [Layer(m, d) for m, d in zip(mats_, ds)]
    period = [(d, m.get_tensor(lb)) for m, d in zip(mats_, ds)]
    front, back = [(np.inf, F.get_tensor(lb))], [(np.inf, X.get_tensor(lb))]
    vf.equal(Structure(F, layers, X).get_permittivity_profile(lb), front + period + back, "twelve layers")
    for n, b, a in ((12, 0, 0), (11, 5, 7), (1, 12, 12), (2, 10, 11)):
        r = RepeatedLayers(layers, n, b, a)
        want = (period[12 - b:] if b else []) + period * n + period[:a]
        vf.equal(r.get_permittivity_profile(lb), want, "twelve layers, %d repetitions, before=%d after=%d" % (n, b, a))
        vf.equal(Structure(F, [layers[3], r, layers[7]], X).get_permittivity_profile(lb), front + [period[3]] + want + [period[7]] + back,
                 "twelve layers, %d repetitions, before=%d after=%d, inside a structure" % (n, b, a))
