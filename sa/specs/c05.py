import numpy as np
import vf
import elli
from elli.structure import Structure, Layer, RepeatedLayers, TwistedLayer, VaryingMixtureLayer
from elli.materials import IsotropicMaterial, UniaxialMaterial, BiaxialMaterial, VCAMaterial, LooyengaEMA, MaxwellGarnettEMA, BruggemanEMA
from elli.utils import DeltaRange, convert_delta_range
from elli.result import Result, ResultList
from spec_common import SymMat, SymMix, SymDisp, iso, result, lbda


def refused(exc, label, obj, method, *args):
    """raises exc and leaves obj as it was"""
    before = vf.clone(obj)
    vf.expect_raises(exc, label + " is refused", getattr(obj, method), *args)
    try:
        getattr(obj, method)(*args)
    except (ValueError, TypeError):
        vf.equal(obj, before, label + " leaves the object unchanged")


def stored(label, obj, method, attr, value):
    vf.accepted(label + " is accepted", getattr(obj, method), value)
    vf.equal(getattr(obj, attr), value, label + " is stored as given")


def layers():
    mix = SymMix(SymMat("h"), SymMat("g"), 0.5)
    return [("Layer", Layer, lambda t: Layer(SymMat("m"), t)),
            ("TwistedLayer", TwistedLayer, lambda t: TwistedLayer(SymMat("m"), t, 4, 90)),
            ("VaryingMixtureLayer", VaryingMixtureLayer, lambda t: VaryingMixtureLayer(mix, t, 4))]


def ob_thickness():
    neg, ok = -vf.pos("t", 1e-9, 1e9), vf.nonneg("u", 0, 1e9)
    for nm, cls, make in layers():
        vf.expect_raises(ValueError, nm + "(negative thickness)", make, neg)
        l = vf.accepted(nm + "(thickness 0)", make, 0)
        vf.equal(l.thickness, 0, nm + " stores thickness 0")
        l = vf.accepted(nm + "(thickness)", make, ok)
        vf.equal(l.thickness, ok, nm + " stores its thickness")
        refused(ValueError, nm + ".set_thickness(negative)", l, "set_thickness", neg)
        refused(ValueError, nm + ".set_thickness(-1)", l, "set_thickness", -1)
        stored(nm + ".set_thickness(0)", l, "set_thickness", "thickness", 0)
        stored(nm + ".set_thickness(0.0)", l, "set_thickness", "thickness", 0.0)
        stored(nm + ".set_thickness(tiny)", l, "set_thickness", "thickness", 1e-9)
        stored(nm + ".set_thickness(any)", l, "set_thickness", "thickness", ok)


def ob_divisions():
    mix = SymMix(SymMat("h"), SymMat("g"), 0.5)
    n = vf.posint("n", 1, 1000000)
    bad = -vf.nonneg("k", 0, 1e6)
    for nm, make in (("TwistedLayer", lambda d: TwistedLayer(SymMat("m"), 10, d, 90)), ("VaryingMixtureLayer", lambda d: VaryingMixtureLayer(mix, 10, d))):
        for v in (0, -1):
            vf.expect_raises(ValueError, "%s(%s slices)" % (nm, v), make, v)
        vf.expect_raises(ValueError, "%s(no slices)" % nm, make, bad)
        l = vf.accepted(nm + "(one slice)", make, 1)
        vf.equal(l.div, 1, nm + " stores one slice")
        l = vf.accepted(nm + "(n slices)", make, n)
        vf.equal(l.div, n, nm + " stores its number of slices")
        for v in (0, -1, bad):
            refused(ValueError, "%s.set_divisions(%s)" % (nm, v), l, "set_divisions", v)
        stored(nm + ".set_divisions(1)", l, "set_divisions", "div", 1)
        stored(nm + ".set_divisions(n)", l, "set_divisions", "div", n)


def ob_repetitions():
    L = [Layer(SymMat("a"), 1), Layer(SymMat("b"), 2)]
    bad, good, neg = -vf.nonneg("k", 0, 1e6), vf.posint("n", 1, 100000), -vf.posint("q", 1, 100000)
    b, a = vf.integer("b", 0, 100000), vf.integer("a", 0, 2)
    for v in (0, -1, bad):
        vf.expect_raises(ValueError, "RepeatedLayers(%s repetitions)" % v, RepeatedLayers, L, v)
    r = vf.accepted("RepeatedLayers(one repetition)", RepeatedLayers, L, 1)
    vf.equal((r.repetitions, r.before, r.after), (1, 0, 0), "one repetition, nothing before or after by default")
    r = vf.accepted("RepeatedLayers(n, before, after)", RepeatedLayers, L, good, 1, 2)
    vf.equal((r.repetitions, r.before, r.after), (good, 1, 2), "counts stored as given")
    for args in ((0,), (-1,), (bad,), (2, -1), (2, neg), (2, 0, -1), (2, 0, neg), (2, 1, -1), (2, -1, 1), (0, 1, 1)):
        vf.expect_raises(ValueError, "RepeatedLayers%s" % (str(args)), RepeatedLayers, L, *args)
        refused(ValueError, "set_repetitions%s" % (str(args)), r, "set_repetitions", *args)
    r = vf.accepted("RepeatedLayers(n, any before, after)", RepeatedLayers, L, good, b, a)
    vf.equal((r.repetitions, r.before, r.after), (good, b, a), "any counts stored as given")
    r = RepeatedLayers(L, 2)
    vf.accepted("set_repetitions(n, any before, after)", r.set_repetitions, good, b, a)
    vf.equal((r.repetitions, r.before, r.after), (good, b, a), "set_repetitions stores any counts")
    vf.accepted("set_repetitions(1)", r.set_repetitions, 1)
    vf.equal((r.repetitions, r.before, r.after), (1, 0, 0), "set_repetitions(1)")
    vf.accepted("set_repetitions(3, 2, 1)", r.set_repetitions, 3, 2, 1)
    vf.equal((r.repetitions, r.before, r.after), (3, 2, 1), "set_repetitions(3, 2, 1)")


def ob_fraction():
    out = [-vf.pos("a", 1e-9, 1e6), 1 + vf.pos("b", 1e-9, 1e6), -0.1, 1.1, -1, 2]
    inside = vf.real("f", 0, 1)
    for cls in (VCAMaterial, LooyengaEMA, MaxwellGarnettEMA, BruggemanEMA, SymMix):
        nm = cls.__name__
        for v in out:
            vf.expect_raises(ValueError, "%s(fraction %s)" % (nm, v), cls, SymMat("h"), SymMat("g"), v)
        m = vf.accepted(nm + "(fraction 0)", cls, SymMat("h"), SymMat("g"), 0)
        vf.equal(m.fraction, 0, nm + " stores fraction 0")
        m = vf.accepted(nm + "(fraction 1)", cls, SymMat("h"), SymMat("g"), 1)
        vf.equal(m.fraction, 1, nm + " stores fraction 1")
        for v in out:
            refused(ValueError, "%s.set_fraction(%s)" % (nm, v), m, "set_fraction", v)
        for v in (0, 1, 0.0, 1.0, 0.5):
            stored("%s.set_fraction(%s)" % (nm, v), m, "set_fraction", "fraction", v)
        stored(nm + ".set_fraction(any)", m, "set_fraction", "fraction", inside)
        m = vf.accepted(nm + "(any fraction inside 0 to 1)", cls, SymMat("h"), SymMat("g"), inside)
        vf.equal(m.fraction, inside, nm + " stores any fraction inside 0 to 1")


def ob_twist():
    a = vf.real("a", -1e6, 1e6)
    l = vf.accepted("TwistedLayer(any angle)", TwistedLayer, SymMat("m"), 10, 3, a)
    vf.equal(l.angle, a, "TwistedLayer stores its angle")
    l.set_angle(-a)
    vf.equal(l.angle, -a, "set_angle stores the angle")


def ob_experiment():
    s = Structure(iso("A"), [Layer(SymMat("m"), 10)], iso("B"))
    lb, th = vf.arr("lb", (vf.size("N"),), "pos", 1e-3, 1e7), vf.real("theta", -180, 180)
    v = vf.arr("v", (2,), "complex", -10, 10)
    e = vf.accepted("Experiment(structure, wavelengths, angle, Jones vector)", elli.Experiment, s, lb, th, v)
    vf.check(e.structure is s, "the experiment holds the given structure")
    vf.equal(e.lbda, lb, "the experiment stores its wavelengths as given")
    vf.equal(e.theta_i, th, "the experiment stores its angle of incidence as given")
    vf.equal(e.jones_vector, v, "the experiment stores its Jones vector as given")
    for order in ([500.0, 400.0, 600.0], [700.0, 600.0, 500.0], [500.0, 500.0], [400.0, 700.0, 400.0], [633.0]):
        for kind in (list, tuple, np.array):
            e = vf.accepted("Experiment(structure, wavelengths %r)" % order, elli.Experiment, s, kind(order), th)
            vf.equal(e.lbda, np.array(order), "the experiment keeps the wavelengths %r and their order" % order)
            e.set_lbda(kind(order[::-1]))
            vf.equal(e.lbda, np.array(order[::-1]), "set_lbda keeps the wavelengths %r and their order" % order[::-1])
    lam = vf.pos("lam", 1e-3, 1e7)
    e = vf.accepted("Experiment(structure, one wavelength, angle)", elli.Experiment, s, lam, th)
    vf.equal(np.atleast_1d(e.lbda), np.array([lam]), "the experiment stores a single wavelength as given")
    for bad in (np.array([1.0]), np.array([1.0, 0, 0]), np.array([1.0, 0, 0, 0, 0]), np.identity(2)):
        vf.equal(vf.outcome(elli.Experiment, s, lb, th, bad)[0], "raise", "Experiment with a polarisation vector of shape %s is refused" % (str(bad.shape)))


NOT = [("None", None), ("a number", 3), ("a string", "Si"), ("a list", []), ("a dict", {})]


def ob_material_kinds():
    disp = SymDisp("d")
    for nm, bad in NOT + [("a dispersion", disp), ("a layer", Layer(SymMat("m"), 1)), ("a class", IsotropicMaterial)]:
        vf.expect_raises(TypeError, "Layer(%s)" % nm, Layer, bad, 10)
        l = Layer(SymMat("m"), 10)
        refused(TypeError, "Layer.set_material(%s)" % nm, l, "set_material", bad)
        vf.expect_raises(TypeError, "TwistedLayer(%s)" % nm, TwistedLayer, bad, 10, 3, 90)
        l = TwistedLayer(SymMat("m"), 10, 3, 90)
        refused(TypeError, "TwistedLayer.set_material(%s)" % nm, l, "set_material", bad)
        vf.expect_raises(TypeError, "VaryingMixtureLayer(%s)" % nm, VaryingMixtureLayer, bad, 10, 3)
        l = VaryingMixtureLayer(SymMix(SymMat("h"), SymMat("g"), 0.5), 10, 3)
        refused(TypeError, "VaryingMixtureLayer.set_material(%s)" % nm, l, "set_material", bad)
        vf.expect_raises(TypeError, "mixture host %s" % nm, VCAMaterial, bad, SymMat("g"), 0.5)
        vf.expect_raises(TypeError, "mixture guest %s" % nm, VCAMaterial, SymMat("h"), bad, 0.5)
        m = VCAMaterial(SymMat("h"), SymMat("g"), 0.5)
        refused(TypeError, "set_constituents(%s, material)" % nm, m, "set_constituents", bad, SymMat("n"))
        refused(TypeError, "set_constituents(material, %s)" % nm, m, "set_constituents", SymMat("n"), bad)
        vf.expect_raises(TypeError, "Structure front %s" % nm, Structure, bad, [], SymMat("b"))
        vf.expect_raises(TypeError, "Structure back %s" % nm, Structure, SymMat("a"), [], bad)
        s = Structure(iso("A"), [], iso("B"))
        refused(TypeError, "set_front_material(%s)" % nm, s, "set_front_material", bad)
        refused(TypeError, "set_back_material(%s)" % nm, s, "set_back_material", bad)
    vf.expect_raises(TypeError, "VaryingMixtureLayer of a plain material", VaryingMixtureLayer, SymMat("m"), 10, 3)
    l = VaryingMixtureLayer(SymMix(SymMat("h"), SymMat("g"), 0.5), 10, 3)
    refused(TypeError, "VaryingMixtureLayer.set_material(plain material)", l, "set_material", SymMat("m"))


def ob_materials_accepted():
    m, mix = SymMat("m"), SymMix(SymMat("h"), SymMat("g"), 0.5)
    for nm, x in (("material", m), ("mixture", mix), ("isotropic", iso("I"))):
        l = vf.accepted("Layer(%s)" % nm, Layer, x, 10)
        vf.check(l.material is x, "Layer stores the given %s" % nm)
        l.set_material(m)
        l.set_material(x)
        vf.check(l.material is x, "Layer.set_material stores the given %s" % nm)
        s = vf.accepted("Structure(%s)" % nm, Structure, x, [], x)
        vf.check(s.front_material is x, "front %s stored" % nm)
        vf.check(s.back_material is x, "back %s stored" % nm)
        c = vf.accepted("mixture of %s" % nm, VCAMaterial, x, m, 0.5)
        vf.check(c.host_material is x, "host %s stored" % nm)
        c = vf.accepted("mixture with guest %s" % nm, VCAMaterial, m, x, 0.5)
        vf.check(c.guest_material is x, "guest %s stored" % nm)
    l = vf.accepted("VaryingMixtureLayer(mixture)", VaryingMixtureLayer, mix, 10, 3)
    vf.check(l.material is mix, "mixture stored")


def ob_layer_lists():
    a = Layer(SymMat("m"), 1)
    bads = [("a tuple", (a,)), ("a layer", a), ("None", None), ("a list with a material", [a, SymMat("m")]), ("a list with None", [a, None]),
            ("a list of lists", [[a]]), ("a list with a number first", [1, a]), ("a list with the class", [Layer])]
    for nm, bad in bads:
        vf.expect_raises(TypeError, "Structure layers %s" % nm, Structure, SymMat("a"), bad, SymMat("b"))
        vf.expect_raises(TypeError, "RepeatedLayers %s" % nm, RepeatedLayers, bad, 2)
        s = Structure(iso("A"), [a], iso("B"))
        refused(TypeError, "Structure.set_layers(%s)" % nm, s, "set_layers", bad)
        r = RepeatedLayers([a], 2)
        refused(TypeError, "RepeatedLayers.set_layers(%s)" % nm, r, "set_layers", bad)
    t = TwistedLayer(SymMat("m"), 10, 3, 90)
    r = RepeatedLayers([a], 2)
    for nm, good in (("no layers", []), ("one layer", [a]), ("mixed layers", [a, t, r, a])):
        s = vf.accepted("Structure with %s" % nm, Structure, iso("A"), good, iso("B"))
        vf.equal(s.layers, good, "Structure stores %s" % nm)
        q = vf.accepted("RepeatedLayers with %s" % nm, RepeatedLayers, good, 2)
        vf.equal(q.layers, good, "RepeatedLayers stores %s" % nm)
        s.set_layers([t])
        s.set_layers(good)
        vf.equal(s.layers, good, "Structure.set_layers stores %s" % nm)


def ob_dispersions():
    d = SymDisp("d")
    for nm, bad in NOT + [("a material", SymMat("m")), ("a class", SymDisp)]:
        vf.expect_raises(TypeError, "IsotropicMaterial(%s)" % nm, IsotropicMaterial, bad)
        refused(TypeError, "IsotropicMaterial.set_dispersion(%s)" % nm, IsotropicMaterial(d), "set_dispersion", bad)
        for i in range(2):
            args = [SymDisp("n"), SymDisp("n")]
            args[i] = bad
            vf.expect_raises(TypeError, "UniaxialMaterial(%s at %d)" % (nm, i), UniaxialMaterial, *args)
            refused(TypeError, "UniaxialMaterial.set_dispersion(%s at %d)" % (nm, i), UniaxialMaterial(d, d), "set_dispersion", *args)
        for i in range(3):
            args = [SymDisp("n"), SymDisp("n"), SymDisp("n")]
            args[i] = bad
            vf.expect_raises(TypeError, "BiaxialMaterial(%s at %d)" % (nm, i), BiaxialMaterial, *args)
            refused(TypeError, "BiaxialMaterial.set_dispersion(%s at %d)" % (nm, i), BiaxialMaterial(d, d, d), "set_dispersion", *args)


def ob_dispersions_accepted():
    from spec_common import SymIndex
    for nm, d in (("dielectric", SymDisp("d")), ("index", SymIndex("i")), ("table", elli.Cauchy()), ("sum", SymDisp("a") + SymDisp("b"))):
        vf.accepted("IsotropicMaterial(%s)" % nm, IsotropicMaterial, d)
        vf.accepted("UniaxialMaterial(%s)" % nm, UniaxialMaterial, d, d)
        vf.accepted("BiaxialMaterial(%s)" % nm, BiaxialMaterial, d, d, d)


RANGES_OK = [(0, 180), (0, 360), (-180, 180), (-360, 0), (-90, 270), (-1, 359), (-359, 1)]
RANGES_BAD = [(0, 90), (0, 181), (-180, 0), (-90, 90), (1, 361), (-361, -1), (180, 540), (0, 0), (360, 0), (180, 0), (180, -180), (0, 361), (-180, 181), (-10, 170)]


def ob_delta_range():
    x = vf.real("x", -1000, 1000)
    for lo, up in RANGES_OK:
        vf.accepted("delta range %d to %d" % (lo, up), convert_delta_range, x, lo, up)
        d = vf.accepted("DeltaRange(%d, %d)" % (lo, up), DeltaRange, lo, up)
        vf.accepted("Result.as_delta_range(%d, %d)" % (lo, up), result().as_delta_range, lo, up)
    for lo, up in RANGES_BAD:
        vf.expect_raises(ValueError, "delta range %d to %d" % (lo, up), DeltaRange, lo, up)
        vf.expect_raises(ValueError, "convert to delta range %d to %d" % (lo, up), convert_delta_range, x, lo, up)
        r = result()
        vf.expect_raises(ValueError, "Result.as_delta_range(%d, %d)" % (lo, up), r.as_delta_range, lo, up)
    for lo, up in ((0.5, 360.5), ("0", "360"), (None, 360), (0.0, 360.5), (-180, 180.5), (-0.5, 359.5), (-180.5, 179.5), (-90.25, 269.75), (-359.5, 0.5), (-180, "180")):
        v = vf.outcome(DeltaRange, lo, up)
        vf.equal(v[0], "raise", "DeltaRange(%s, %s) is refused" % (lo, up))
        v = vf.outcome(convert_delta_range, x, lo, up)
        vf.equal(v[0], "raise", "converting to the delta range %s to %s is refused" % (lo, up))
        v = vf.outcome(result().as_delta_range, lo, up)
        vf.equal(v[0], "raise", "Result.as_delta_range(%s, %s) is refused" % (lo, up))
    F = vf.real("F", -359.9, -0.1)
    vf.assume(F != np.floor(F))
    v = vf.outcome(DeltaRange, F, F + 360)
    vf.equal(v[0], "raise", "a 360 degree range with fractional bounds is refused")


def ob_delta_range_any():
    L = vf.integer("L", -360, 0)
    vf.accepted("any integer range of 360 degrees enclosing zero", DeltaRange, L, L + 360)
    P = vf.integer("P", 1, 720)
    vf.expect_raises(ValueError, "360 degree range above zero", DeltaRange, P, P + 360)
    Q = vf.integer("Q", -2000, -361)
    vf.expect_raises(ValueError, "360 degree range below zero", DeltaRange, Q, Q + 360)
    W = vf.posint("W", 1, 700)
    vf.assume(W != 360)
    vf.assume(W != 180)
    vf.expect_raises(ValueError, "another width", DeltaRange, 0, W)


def ob_delta_range_refused_leaves():
    r = result()
    r.as_delta_range(0, 360)
    before = vf.clone(r)
    try:
        r.as_delta_range(0, 90)
    except ValueError:
        pass
    vf.equal(r, before, "a refused delta range leaves the result unchanged")
