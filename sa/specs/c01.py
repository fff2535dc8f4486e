import numpy as np
import vf
import elli
from elli import dispersions as D
from elli.dispersions.base_dispersion import BaseDispersion, Dispersion, IndexDispersion
from elli.materials import (IsotropicMaterial, UniaxialMaterial, BiaxialMaterial, VCAMaterial, LooyengaEMA, MaxwellGarnettEMA, BruggemanEMA, MixtureMaterial)
from elli.structure import Structure, Layer, RepeatedLayers, TwistedLayer, VaryingMixtureLayer
from elli.experiment import Experiment
from elli.solver4x4 import PropagatorLinear, PropagatorExpm, PropagatorEig, Solver4x4
from elli.solver2x2 import Solver2x2
from spec_common import SymMat, SymMix, SymDisp, SymIndex, lbda, iso


def watch(name, fn, roots, args=()):
    """fn leaves roots and arguments unchanged, and gives the same value again"""
    a = vf.frozen(name + " leaves the model and its arguments", [roots, list(args)], fn, *args)
    keep = vf.clone(a)
    b = vf.frozen(name + " a second time leaves the model and its arguments", [roots, list(args)], fn, *args)
    vf.equal(b, keep, name + " twice")
    vf.equal(a, keep, name + ": a second evaluation leaves the values returned first")
    return a


# ------------------------------------------------------------------ layers and structures
def mixture():
    return SymMix(SymMat("H"), SymMat("G"), vf.real("f0", 0, 1))


def layer(mat, d):
    return Layer(SymMat(mat), d)


def twisted(mat, d, n, ang):
    return TwistedLayer(SymMat(mat), d, n, ang)


def varying(d, n, fn):
    return VaryingMixtureLayer(mixture(), d, n, fn)


def square(x):
    return x * x


def repeated(d, n, b, a):
    return RepeatedLayers([Layer(SymMat("A"), d), twisted("B", d + 1, 2, 30)], n, b, a)


def structure(d, n):
    return Structure(SymMat("F"), [Layer(SymMat("A"), d), repeated(d, n, 1, 1), varying(d + 1, 2, square)], SymMat("X"))


def profile(make, *args):
    return make(*args).get_permittivity_profile(lbda())


def ob_profiles():
    lb = lbda()
    d = vf.pos("d")
    for name, l in (("Layer", layer("A", d)), ("TwistedLayer", twisted("A", d, 3, 50)), ("VaryingMixtureLayer", varying(d, 2, square)),
                    ("RepeatedLayers", repeated(d, 2, 1, 1)), ("Structure", structure(d, 2))):
        watch(name + ".get_permittivity_profile", l.get_permittivity_profile, l, [lb])
    vf.equal(lb, lbda(), "wavelengths unchanged")


def ob_slices():
    d = vf.pos("d")
    for n in (1, 3):
        l = twisted("A", d, n, 40)
        watch("get_slices, %s divisions" % n, l.get_slices, l)
        for z in (0, d / 3):
            watch("TwistedLayer.get_tensor", l.get_tensor, l, [z, lbda()])
            v = varying(d, n, square)
            watch("VaryingMixtureLayer.get_tensor", v.get_tensor, v, [z, lbda()])


def ob_profiles_of_two():
    """two models alike in all but one parameter do not influence each other"""
    d, e = vf.pos("d"), vf.pos("e")
    cases = (("thickness", layer, ("A", d), ("A", e)), ("material", layer, ("A", d), ("B", d)),
             ("divisions", twisted, ("A", d, 3, 40), ("A", d, 2, 40)), ("fewer divisions", twisted, ("A", d, 2, 40), ("A", d, 3, 40)),
             ("twist", twisted, ("A", d, 2, 40), ("A", d, 2, 50)), ("twisted material", twisted, ("A", d, 2, 40), ("B", d, 2, 40)),
             ("twisted thickness", twisted, ("A", d, 2, 40), ("A", e, 2, 40)),
             ("gradient divisions", varying, (d, 3, square), (d, 2, square)), ("gradient", varying, (d, 2, square), (d, 2, lambda x: x)),
             ("gradient thickness", varying, (d, 2, square), (e, 2, square)),
             ("repetitions", repeated, (d, 2, 0, 0), (d, 3, 0, 0)), ("leading", repeated, (d, 2, 1, 0), (d, 2, 0, 0)),
             ("trailing", repeated, (d, 2, 0, 1), (d, 2, 0, 2)), ("structure", structure, (d, 2), (d, 1)))
    for name, make, p, q in cases:
        x = make(*p)
        first = x.get_permittivity_profile(lbda())
        y = make(*q)
        vf.equal(y.get_permittivity_profile(lbda()), vf.pristine(profile, make, *q), "another model with another %s" % name)
        vf.equal(x.get_permittivity_profile(lbda()), vf.pristine(profile, make, *p), "the first model after evaluating one with another %s" % name)
        vf.equal(first, vf.pristine(profile, make, *p), "the profile returned first, after evaluating a model with another %s" % name)


def ob_profiles_changed():
    d, e = vf.pos("d"), vf.pos("e")
    l = layer("A", d)
    l.get_permittivity_profile(lbda())
    l.set_thickness(e)
    vf.equal(l.get_permittivity_profile(lbda()), vf.pristine(profile, layer, "A", e), "Layer after set_thickness")
    l.set_material(SymMat("B"))
    vf.equal(l.get_permittivity_profile(lbda()), vf.pristine(profile, layer, "B", e), "Layer after set_material")
    l.thickness = d
    vf.equal(l.get_permittivity_profile(lbda()), vf.pristine(profile, layer, "B", d), "Layer after assigning the thickness")
    t = twisted("A", d, 2, 40)
    t.get_permittivity_profile(lbda())
    t.set_angle(60)
    vf.equal(t.get_permittivity_profile(lbda()), vf.pristine(profile, twisted, "A", d, 2, 60), "TwistedLayer after set_angle")
    t.set_divisions(3)
    vf.equal(t.get_permittivity_profile(lbda()), vf.pristine(profile, twisted, "A", d, 3, 60), "TwistedLayer after set_divisions")
    t.set_thickness(e)
    vf.equal(t.get_permittivity_profile(lbda()), vf.pristine(profile, twisted, "A", e, 3, 60), "TwistedLayer after set_thickness")
    t.set_material(SymMat("B"))
    vf.equal(t.get_permittivity_profile(lbda()), vf.pristine(profile, twisted, "B", e, 3, 60), "TwistedLayer after set_material")
    t.set_divisions(1)
    vf.equal(t.get_permittivity_profile(lbda()), vf.pristine(profile, twisted, "B", e, 1, 60), "TwistedLayer with fewer divisions")
    v = varying(d, 2, square)
    v.get_permittivity_profile(lbda())
    v.set_divisions(3)
    vf.equal(v.get_permittivity_profile(lbda()), vf.pristine(profile, varying, d, 3, square), "VaryingMixtureLayer after set_divisions")
    v.set_thickness(e)
    vf.equal(v.get_permittivity_profile(lbda()), vf.pristine(profile, varying, e, 3, square), "VaryingMixtureLayer after set_thickness")
    v.set_fraction_modulation()
    vf.equal(v.get_permittivity_profile(lbda()), vf.pristine(profile, varying, e, 3, lambda x: x), "VaryingMixtureLayer after set_fraction_modulation")
    r = repeated(d, 2, 0, 0)
    r.get_permittivity_profile(lbda())
    for n, b, a in ((3, 0, 0), (1, 1, 0), (2, 0, 1), (2, 2, 2), (2, 0, 0)):
        r.set_repetitions(n, b, a)
        vf.equal(r.get_permittivity_profile(lbda()), vf.pristine(profile, repeated, d, n, b, a), "RepeatedLayers after set_repetitions(%d, %d, %d)" % (n, b, a))
    r.layers[0].set_thickness(e)
    r.layers[1].set_thickness(e + 1)
    vf.equal(r.get_permittivity_profile(lbda()), vf.pristine(profile, repeated, e, 2, 0, 0), "RepeatedLayers after changing its layers")
    s = structure(d, 2)
    s.get_permittivity_profile(lbda())
    s.layers[1].set_repetitions(3, 1, 1)
    vf.equal(s.get_permittivity_profile(lbda()), vf.pristine(profile, structure, d, 3), "Structure after changing an inner layer")
    for k in (layer("A", e), repeated(e, 3, 1, 1), varying(e + 1, 2, square)):
        s.layers.pop(0)
        s.layers.append(k)
    vf.equal(s.get_permittivity_profile(lbda()), vf.pristine(profile, structure, e, 3), "Structure after exchanging layers in the list")


def ob_other_wavelengths():
    """evaluating at other wavelengths in between changes nothing"""
    d = vf.pos("d")
    lc = vf.arr("lc", (vf.size("M"),), "pos", 10, 30000)
    for name, make, p in (("Layer", layer, ("A", d)), ("TwistedLayer", twisted, ("A", d, 2, 40)), ("VaryingMixtureLayer", varying, (d, 2, square)), ("Structure", structure, (d, 2))):
        x = make(*p)
        x.get_permittivity_profile(lc)
        vf.equal(x.get_permittivity_profile(lbda()), vf.pristine(profile, make, *p), name + " after other wavelengths")
        lb = lbda()
        x.get_permittivity_profile(lb)
        lb *= 2
        vf.equal(x.get_permittivity_profile(lb), vf.pristine(doubled, make, *p), name + " after changing the wavelength array in place")


def doubled(make, *args):
    return make(*args).get_permittivity_profile(lbda() * 2)


# ------------------------------------------------------------------ materials
def m_iso(t):
    return IsotropicMaterial(SymDisp(t))


def m_index(t):
    return IsotropicMaterial(SymIndex(t))


def m_uni(t):
    return UniaxialMaterial(SymDisp(t), SymDisp(t + "e"))


def m_bi(t):
    return BiaxialMaterial(SymDisp(t), SymDisp(t + "y"), SymIndex(t + "z"))


def m_rot(t):
    m = m_bi(t)
    m.set_rotation(np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]]))
    return m


def m_vca(t):
    return VCAMaterial(m_uni(t), m_iso("g"), vf.real("f0", 0, 1))


def m_loo(t):
    return LooyengaEMA(m_iso(t), m_iso("g"), vf.real("f0", 0, 1))


def m_mg(t):
    return MaxwellGarnettEMA(m_iso(t), m_iso("g"), vf.real("f0", 0, 1))


def m_bru(t):
    return BruggemanEMA(m_iso(t), m_iso("g"), vf.real("f0", 0, 1))


MATERIALS = (("isotropic", m_iso), ("isotropic from an index", m_index), ("uniaxial", m_uni), ("biaxial", m_bi), ("rotated biaxial", m_rot),
             ("VCA", m_vca), ("Looyenga", m_loo), ("Maxwell-Garnett", m_mg), ("Bruggeman", m_bru))


def tensor(make, *args):
    return make(*args).get_tensor(lbda())


def ob_materials():
    lb = lbda()
    for name, make in MATERIALS:
        m = make("a")
        watch(name + " tensor", m.get_tensor, m, [lb])
        if not isinstance(m, MixtureMaterial) and name != "rotated biaxial":
            watch(name + " refractive index", m.get_refractive_index, m, [lb])
        lam = vf.pos("lam")
        watch(name + " tensor at one wavelength", m.get_tensor, m, [lam])


def ob_materials_two():
    for name, make in MATERIALS:
        x = make("a")
        first = x.get_tensor(lbda())
        y = make("b")
        vf.equal(y.get_tensor(lbda()), vf.pristine(tensor, make, "b"), "another %s material" % name)
        vf.equal(x.get_tensor(lbda()), vf.pristine(tensor, make, "a"), "first %s material after a second" % name)
        vf.equal(first, vf.pristine(tensor, make, "a"), "tensor of the first %s material after evaluating a second" % name)
        second = x.get_tensor(lbda())
        second *= 0
        vf.equal(x.get_tensor(lbda()), vf.pristine(tensor, make, "a"), "%s material after its returned tensor was overwritten" % name)


def ob_mixtures_fraction():
    f = vf.real("f1", 0, 1)
    for name, make in MATERIALS[5:]:
        m = make("a")
        watch(name + " at a given fraction", m.get_tensor_fraction, m, [lbda(), f])
        vf.equal(m.get_tensor(lbda()), vf.pristine(tensor, make, "a"), name + " after asking for another fraction")
        m.set_fraction(f)
        vf.equal(m.get_tensor(lbda()), vf.pristine(fractioned, make, f), name + " after set_fraction")


def fractioned(make, f):
    m = make("a")
    m.fraction = f
    return m.get_tensor(lbda())


def ob_materials_changed():
    m = m_iso("a")
    m.get_tensor(lbda())
    m.set_dispersion(SymDisp("b"))
    vf.equal(m.get_tensor(lbda()), vf.pristine(tensor, m_iso, "b"), "isotropic after set_dispersion")
    m = m_uni("a")
    m.get_tensor(lbda())
    m.set_dispersion(SymDisp("b"), SymDisp("be"))
    vf.equal(m.get_tensor(lbda()), vf.pristine(tensor, m_uni, "b"), "uniaxial after set_dispersion")
    m = m_bi("a")
    m.get_tensor(lbda())
    m.set_dispersion(SymDisp("b"), SymDisp("by"), SymIndex("bz"))
    vf.equal(m.get_tensor(lbda()), vf.pristine(tensor, m_bi, "b"), "biaxial after set_dispersion")
    m.set_rotation(np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]]))
    vf.equal(m.get_tensor(lbda()), vf.pristine(tensor, m_rot, "b"), "biaxial after set_rotation")
    R = np.array([[1.0, 0, 0], [0, 0, -1], [0, 1, 0]])
    m = m_bi("b")
    vf.frozen("set_rotation leaves the matrix", [R], m.set_rotation, R)
    vf.frozen("a rotated tensor leaves the rotation matrix", [R, m], m.get_tensor, lbda())
    x = SymDisp("a")
    m = IsotropicMaterial(x)
    m.get_tensor(lbda())
    x.tag = "b"
    vf.equal(m.get_tensor(lbda()), vf.pristine(tensor, m_iso, "b"), "isotropic after its dispersion changed")
    m = m_vca("a")
    m.get_tensor(lbda())
    m.set_constituents(m_uni("b"), m_iso("g"))
    vf.equal(m.get_tensor(lbda()), vf.pristine(tensor, m_vca, "b"), "mixture after set_constituents")


def ob_material_helpers():
    m = m_iso("a")
    watch("get_qwp_thickness", elli.utils.get_qwp_thickness, m, [m, vf.pos("lam")])
    v = [vf.real("v0"), vf.real("v1"), vf.real("v2")]
    watch("rotation_v_theta", elli.utils.rotation_v_theta, v, [v, vf.real("th")])
    z = [0, 0, vf.real("v2")]
    watch("rotation_v", elli.utils.rotation_v, z, [z])
    for f in (elli.utils.conversion_wavelength_energy, elli.utils.conversion_wavelength_frequency, elli.utils.conversion_wavelength_wavenumber,
              elli.utils.conversion_energy2frequency, elli.utils.conversion_frequency2energy):
        watch("unit conversion", f, [], [lbda()])
    d = vf.arr("dv", (vf.size("N"),), "real", -720, 720)
    watch("convert_delta_range", elli.utils.convert_delta_range, [d], [d, 0, 360])
    watch("convert_delta_range to 0..180", elli.utils.convert_delta_range, [d], [d, 0, 180])


# ------------------------------------------------------------------ dispersions
def P(n):
    return vf.real(n, 0.2, 2)


def model(cls, t, terms):
    """model with symbolic parameters named by t"""
    kw = {}
    for k in cls.single_params_template:
        kw[k] = P(t + k)
    d = cls(**kw)
    for i in range(terms):
        kw = {}
        for k in cls.rep_params_template:
            kw[k] = P(t + k + str(i))
        d.add(**kw)
    return d


def closed_form():
    out = []
    for c in vf.subclasses(BaseDispersion):
        n = vf.class_name(c)
        if n in ("Dispersion", "IndexDispersion", "DispersionSum", "IndexDispersionSum", "FormulaParser", "Formula", "FormulaIndex", "Table", "TableEpsilon",
                 "PseudoDielectricFunction") or n.startswith("Sym") or n.startswith("Anonymous"):
            continue
        out.append((n, c))
    return out


def eps_of(cls, t, terms):
    return model(cls, t, terms).get_dielectric(lbda())


def eps_changed(cls, t, terms, k, v):
    d = model(cls, t, terms)
    d.single_params[k] = v
    return d.get_dielectric(lbda())


def rep_changed(cls, t, terms, i, k, v):
    d = model(cls, t, terms)
    d.rep_params[i][k] = v
    return d.get_dielectric(lbda())


def ob_dispersions():
    lb = lbda()
    for n, c in closed_form():
        if n == "Tanguy":
            continue
        terms = 2 if len(c.rep_params_template) else 0
        d = model(c, "p", terms)
        watch(n + ".dielectric_function", d.dielectric_function, d, [lb])
        watch(n + ".get_dielectric", d.get_dielectric, d, [lb])
        watch(n + ".get_refractive_index", d.get_refractive_index, d, [lb])
        watch(n + ".get_dielectric at default wavelengths", d.get_dielectric, d)
        vf.frozen("repr of " + n, [d], repr, d)


def ob_dispersions_changed():
    for n, c in closed_form():
        if n == "Tanguy":
            continue
        terms = 2 if len(c.rep_params_template) else 0
        d = model(c, "p", terms)
        d.get_dielectric(lbda())
        for k in c.single_params_template:
            old = d.single_params[k]
            d.single_params[k] = P("new")
            vf.equal(d.get_dielectric(lbda()), vf.pristine(eps_changed, c, "p", terms, k, P("new")), "%s after changing %s" % (n, k))
            d.single_params[k] = old
        if terms:
            for k in c.rep_params_template:
                old = d.rep_params[1][k]
                d.rep_params[1][k] = P("new")
                vf.equal(d.get_dielectric(lbda()), vf.pristine(rep_changed, c, "p", terms, 1, k, P("new")), "%s after changing %s of the second term" % (n, k))
                d.rep_params[1][k] = old
            kw = {}
            for k in c.rep_params_template:
                kw[k] = P("p" + k + "2")
            d.add(**kw)
            vf.equal(d.get_dielectric(lbda()), vf.pristine(eps_of, c, "p", 3), "%s after adding a term" % n)
        vf.equal(model(c, "q", terms).get_dielectric(lbda()), vf.pristine(eps_of, c, "q", terms), "another %s" % n)


def ob_dispersion_sums():
    lb = lbda()
    a, b, c = SymDisp("a"), SymDisp("b"), SymDisp("c")
    s = a + b
    watch("sum", s.get_dielectric, [a, b, s], [lb])
    t = s + c
    watch("sum of three", t.get_dielectric, [a, b, c, s, t], [lb])
    vf.equal(s.get_dielectric(lb), a.get_dielectric(lb) + b.get_dielectric(lb), "sum after extending it")
    a.tag = "x"
    vf.equal(s.get_dielectric(lb), a.get_dielectric(lb) + b.get_dielectric(lb), "sum after changing a part")
    i, j = SymIndex("a"), SymIndex("b")
    s = i + j
    watch("index sum", s.get_refractive_index, [i, j, s], [lb])
    d = SymDisp("a")
    x = d.as_index()
    watch("as_index", x.get_refractive_index, [d, x], [lb])
    watch("get_mat", d.get_mat().get_tensor, [d], [lb])


def ob_tables():
    lb = lbda()
    x = vf.arr("x", (vf.size("M"),), "pos", 10, 30000)
    y = vf.arr("y", (vf.size("M"),), "complex")
    for n, d in (("Table", D.Table(lbda=x, n=y)), ("TableEpsilon", D.TableEpsilon(lbda=x, epsilon=y))):
        watch(n, d.get_dielectric, [d, x, y], [lb])
        watch(n + " index", d.get_refractive_index, [d, x, y], [lb])
        watch(n + " at default wavelengths", d.get_dielectric, [d, x, y])
    vf.equal(x, vf.arr("x", (vf.size("M"),), "pos", 10, 30000), "table wavelengths unchanged")
    psi = vf.arr("psi", (vf.size("M"),), "real", 5, 40)
    delta = vf.arr("delta", (vf.size("M"),), "real", 5, 170)
    d = vf.frozen("PseudoDielectricFunction leaves its data", [x, psi, delta], make_pseudo, vf.real("ang", 0, 89.9), x, psi, delta)
    watch("PseudoDielectricFunction", d.get_dielectric, [d, x, psi, delta], [lb])


def make_pseudo(a, x, psi, delta):
    return D.PseudoDielectricFunction(angle=a, lbda=x, psi=psi, delta=delta)


def ob_kkr():
    from elli.kkr import kkr
    for n in (2, 5):
        x = vf.arr("x", (n,), "pos", 0.1, 50)
        y = vf.arr("y", (n,), "real")
        for f in (kkr.im2re, kkr.re2im, kkr.im2re_reciprocal, kkr.re2im_reciprocal):
            watch("Kramers-Kronig transform of %d points" % n, f, [x, y], [y, x])


# ------------------------------------------------------------------ evaluation
def stack(d, n):
    return Structure(m_iso("f"), [Layer(m_iso("a"), d), RepeatedLayers([Layer(m_iso("b"), d + 1), Layer(m_iso("c"), d + 2)], n)], m_iso("x"))


def experiment(d, n, th, vec):
    return Experiment(stack(d, n), lbda(), th, vec)


def amplitudes(r):
    return [r._jones_matrix_r, r._jones_matrix_t, r.experiment.theta_i, r.experiment.lbda, r.experiment.jones_vector]


def ev2(d, n, th, vec):
    return amplitudes(experiment(d, n, th, vec).evaluate(Solver2x2))


def ev4(d, n, th, vec):
    return amplitudes(experiment(d, n, th, vec).evaluate(Solver4x4, propagator=PropagatorLinear()))


def ob_evaluate2x2():
    d, e, th = vf.pos("d"), vf.pos("e"), vf.real("th", 0, 89.9)
    vec = [1, 0.25]
    ex = experiment(d, 1, th, vec)
    r = vf.frozen("2x2 evaluation leaves experiment and structure", [ex, vec], ex.evaluate, Solver2x2)
    vf.equal(amplitudes(r), vf.pristine(ev2, d, 1, th, vec), "2x2 evaluation")
    vf.equal(amplitudes(ex.evaluate(Solver2x2)), vf.pristine(ev2, d, 1, th, vec), "2x2 evaluation repeated")
    ex.structure.layers[0].set_thickness(e)
    ex.structure.layers[1].layers[0].set_thickness(e + 1)
    ex.structure.layers[1].layers[1].set_thickness(e + 2)
    vf.equal(amplitudes(ex.evaluate(Solver2x2)), vf.pristine(ev2, e, 1, th, vec), "2x2 evaluation after changing thicknesses")
    ex.set_theta(vf.real("th2", 0, 89.9))
    vf.equal(amplitudes(ex.evaluate(Solver2x2)), vf.pristine(ev2, e, 1, vf.real("th2", 0, 89.9), vec), "2x2 evaluation after changing the angle")
    ex.set_vector([0.5, 1])
    vf.equal(amplitudes(ex.evaluate(Solver2x2)), vf.pristine(ev2, e, 1, vf.real("th2", 0, 89.9), [0.5, 1]), "2x2 evaluation after changing the polarisation")
    vf.equal(amplitudes(r), vf.pristine(ev2, d, 1, th, vec), "the first 2x2 result")


def ob_evaluate4x4():
    d, e, th = vf.pos("d"), vf.pos("e"), vf.real("th", 0, 89.9)
    vec = [1, 0.25]
    ex = experiment(d, 1, th, vec)
    r = vf.frozen("4x4 evaluation leaves experiment and structure", [ex, vec], evaluate_linear, ex)
    vf.equal(amplitudes(r), vf.pristine(ev4, d, 1, th, vec), "4x4 evaluation")
    vf.equal(amplitudes(evaluate_linear(ex)), vf.pristine(ev4, d, 1, th, vec), "4x4 evaluation repeated")
    ex.structure.layers[0].set_thickness(e)
    ex.structure.layers[1].layers[0].set_thickness(e + 1)
    ex.structure.layers[1].layers[1].set_thickness(e + 2)
    vf.equal(amplitudes(evaluate_linear(ex)), vf.pristine(ev4, e, 1, th, vec), "4x4 evaluation after changing thicknesses")
    ex.set_theta(vf.real("th2", 0, 89.9))
    vf.equal(amplitudes(evaluate_linear(ex)), vf.pristine(ev4, e, 1, vf.real("th2", 0, 89.9), vec), "4x4 evaluation after changing the angle")


def evaluate_linear(ex):
    return ex.evaluate(Solver4x4, propagator=PropagatorLinear())


def ob_evaluate_frozen():
    """all solvers and propagators, isotropic and anisotropic stacks"""
    d, th = vf.pos("d"), vf.real("th", 0, 89.9)
    lb = lbda()
    for name, pr in (("linear", PropagatorLinear), ("expm", PropagatorExpm), ("eig", PropagatorEig)):
        s = Structure(m_iso("f"), [Layer(m_iso("a"), d), Layer(m_iso("b"), d)], m_iso("x"))
        p = pr()
        vf.frozen("Structure.evaluate, 4x4 with propagator " + name, [s, lb, p], call_evaluate, s, lb, th, Solver4x4, p)
        s = Structure(m_iso("f"), [Layer(m_bi("a"), d)], m_iso("x"))
        vf.frozen("anisotropic Structure.evaluate, 4x4 with propagator " + name, [s, lb, p], call_evaluate, s, lb, th, Solver4x4, p)
    s = Structure(m_iso("f"), [Layer(m_iso("a"), d), RepeatedLayers([Layer(m_iso("b"), d)], 2), varying_iso(d)], m_iso("x"))
    vf.frozen("Structure.evaluate, 2x2", [s, lb], s.evaluate, lb, th, Solver2x2)


def varying_iso(d):
    return VaryingMixtureLayer(m_vca_iso(), d, 2)


def m_vca_iso():
    return VCAMaterial(m_iso("h"), m_iso("g"), vf.real("f0", 0, 1))


def call_evaluate(s, lb, th, solver, p):
    return s.evaluate(lb, th, solver, propagator=p)


def ob_propagators():
    delta = vf.arr("D", (vf.size("N"), 4, 4), "complex", -2, 2)
    h = vf.real("h")
    for name, pr in (("linear", PropagatorLinear), ("expm", PropagatorExpm), ("eig", PropagatorEig)):
        p = pr()
        vf.frozen("propagator %s leaves its arguments" % name, [delta, p, lbda()], p.calculate_propagation, delta, h, lbda())
        q = pr()
        a = p.calculate_propagation(delta, h, lbda())
        q.calculate_propagation(delta, 2 * h, lbda())
        vf.equal(p.calculate_propagation(delta, h, lbda()), a, "propagator %s repeated" % name)
    kx = vf.arr("kx", (vf.size("N"),), "complex", 0, 2)
    eps = vf.arr("eps", (vf.size("N"), 3, 3), "complex", 1, 3)
    watch("build_delta_matrix", Solver4x4.build_delta_matrix, [kx, eps], [kx, eps])
    watch("transition_matrix_iso_halfspace", Solver4x4.transition_matrix_iso_halfspace, [kx, eps], [kx, eps])
