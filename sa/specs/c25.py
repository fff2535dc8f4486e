import copy
import pickle
import numpy as np
import vf
import elli
from elli import dispersions as D
from elli.dispersions.base_dispersion import BaseDispersion, Dispersion, IndexDispersion
from elli.materials import IsotropicMaterial, UniaxialMaterial, BiaxialMaterial, VCAMaterial, LooyengaEMA, MaxwellGarnettEMA, BruggemanEMA, Material
from elli.structure import Structure, Layer, RepeatedLayers, TwistedLayer, VaryingMixtureLayer
from elli.experiment import Experiment
from elli.result import Result, ResultList, AveragedResultList
from elli.solver4x4 import PropagatorLinear, Solver4x4
from elli.solver2x2 import Solver2x2
from spec_common import SymDisp, SymIndex, lbda, result
from spec_c01 import model, closed_form, MATERIALS, square, P


def pickled(x):
    return pickle.loads(pickle.dumps(x))


HOW = (("deepcopy", copy.deepcopy), ("pickle", pickled))


def values(x):
    """what the object reports"""
    if isinstance(x, BaseDispersion):
        return x.get_dielectric(lbda())
    if isinstance(x, Material):
        return x.get_tensor(lbda())
    if isinstance(x, (Layer, RepeatedLayers, TwistedLayer, VaryingMixtureLayer, Structure)):
        return x.get_permittivity_profile(lbda())
    if isinstance(x, Result):
        return [x.rho, x.delta, x.R, x.T_matrix, x.jones_matrix_rc, x.psi_matrix]
    if isinstance(x, Experiment):
        return [x.structure.get_permittivity_profile(x.lbda), x.theta_i, x.jones_vector, x.stokes_vector]
    return [x.psi, x.delta, x.R]


def independent(name, x, change):
    """copies report the same and do not follow the original, nor the other way round; change(obj) alters what obj reports"""
    for how, cp in HOW:
        before = values(x)
        y = vf.accepted("%s of %s" % (how, name), cp, x)
        vf.equal(type(y) is type(x), True, "%s of %s has the same type" % (how, name))
        vf.disjoint(x, y, "%s of %s shares nothing with it" % (how, name))
        vf.equal(values(y), before, "%s of %s reports the same" % (how, name))
        z = cp(x)
        change(z)
        after = values(z)
        vf.equal(values(x), before, "%s: changing a %s leaves the original" % (name, how))
        vf.equal(values(y), before, "%s: changing a %s leaves other copies" % (name, how))
        change(y)
        vf.equal(values(y), after, "%s: a changed %s reports the change" % (name, how))
        w = cp(x)
        u = cp(w)
        change(w)
        vf.equal(values(u), before, "%s: %s of a copy" % (name, how))
        vf.equal(values(w), after, "%s: a %s follows its own parameters" % (name, how))


def retag(x):
    x.tag = "other"


def single(k):
    def change(d):
        d.single_params[k] = P("new")
    return change


def rep(k):
    def change(d):
        d.rep_params[-1][k] = P("new")
    return change


def term(t):
    def change(d):
        t(d)
    return change


def ob_dispersions():
    for n, c in closed_form():
        if n == "Tanguy":
            continue
        t = 2 if len(c.rep_params_template) else 0
        x = model(c, "p", t)
        ks = list(c.single_params_template)
        if len(ks):
            independent(n, x, single(ks[0]))
        if t:
            independent(n + " terms", x, rep(list(c.rep_params_template)[0]))


def ob_changed_models_match():
    """changing a parameter of a copy gives what the changed original gives"""
    for n, c in closed_form():
        if n == "Tanguy":
            continue
        t = 1 if len(c.rep_params_template) else 0
        for how, cp in HOW:
            x = model(c, "p", t)
            y = cp(x)
            for k in c.single_params_template:
                x.single_params[k] = P("new")
                y.single_params[k] = P("new")
            if t:
                for k in c.rep_params_template:
                    x.rep_params[0][k] = P("new2")
                    y.rep_params[0][k] = P("new2")
                x.add(*[P("x%d" % i) for i in range(len(c.rep_params_template))])
                y.add(*[P("x%d" % i) for i in range(len(c.rep_params_template))])
            vf.equal(values(y), values(x), "%s: %s changed like the original" % (n, how))


def ob_sums():
    def part(i, k):
        def change(s):
            s.dispersions[i].single_params[k] = P("new")
        return change

    def ipart(s):
        s.index_dispersions[0].single_params["n0"] = P("new")
    s = D.EpsilonInf(eps=P("e")) + D.LorentzEnergy().add(A=P("A"), E=P("E"), gamma=P("g")) + 2
    independent("sum", s, part(0, "eps"))
    independent("sum with number", s, part(2, "eps"))
    s = D.Cauchy(n0=P("n0")) + D.ConstantRefractiveIndex(n=P("n"))
    independent("index sum", s, ipart)


def ob_as_index():
    def change(x):
        x.rep_params[0]["A"] = P("new")

    def inner(x):
        x.single_params["eps"] = P("new")
    independent("index view", D.LorentzEnergy().add(A=P("A"), E=P("E"), gamma=P("g")).as_index(), change)
    independent("index view of a constant", D.EpsilonInf(eps=P("e")).as_index(), inner)


def ob_tables():
    x = vf.arr("x", (vf.size("M"),), "pos", 10, 30000)
    y = vf.arr("y", (vf.size("M"),), "complex")
    for n, d in (("Table", D.Table(lbda=x, n=y)), ("TableEpsilon", D.TableEpsilon(lbda=x, epsilon=y)), ("cubic Table", D.Table(lbda=x, n=y, kind="cubic"))):
        for how, cp in HOW:
            c = vf.accepted("%s of %s" % (how, n), cp, d)
            vf.equal(values(c), values(d), "%s of %s reports the same" % (how, n))
            vf.disjoint(d, c, "%s of %s shares nothing with it" % (how, n))


def ob_formulas():
    def change(d):
        d.single_params["a"] = P("new")

    def change_rep(d):
        d.rep_params[0]["c"] = P("new")
    d = D.Formula("eps = 1 + a * lbda + sum[c * lbda ** 2]", "lbda", {"a": P("a")}, {"c": [P("c0"), P("c1")]})
    independent("Formula", d, change)
    independent("Formula terms", d, change_rep)
    d = D.FormulaIndex("n = 1 + a / lbda", "lbda", {"a": P("a")}, {})
    independent("FormulaIndex", d, change)


def ob_materials():
    def iso(m):
        m.dispersion_x.tag = "other"
        m.dispersion_y.tag = "other"
        m.dispersion_z.tag = "other"

    def mixed(m):
        m.fraction = P("newf")

    def host(m):
        m.host_material.dispersion_x.tag = "other"
    for n, make in MATERIALS[:4]:
        independent(n + " material", make("a"), iso)
    for n, make in MATERIALS[5:]:
        independent(n + " material", make("a"), mixed)
    independent("host of a mixture", MATERIALS[5][1]("a"), host)

    def rot(m):
        m.set_rotation(np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]]))
    independent("material", MATERIALS[3][1]("a"), rot)
    m = MATERIALS[3][1]("a")
    m.set_rotation(np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]]))

    def rotate_back(m):
        m.set_rotation(np.identity(3))
    independent("rotated material", m, rotate_back)


def ob_layers():
    d = vf.pos("d")

    def thick(l):
        l.set_thickness(d + 5)

    def mat(l):
        l.material.dispersion_x.tag = "other"

    def frac(l):
        l.material.host_material.dispersion_x.tag = "other"

    def inner(l):
        l.layers[0].set_thickness(d + 5)
    m = MATERIALS[2][1]("a")
    for n, l in (("Layer", Layer(m, d)), ("TwistedLayer", TwistedLayer(m, d, 2, 40))):
        independent(n, l, thick)
        independent(n + " material", l, mat)
    for n, l in (("VaryingMixtureLayer", VaryingMixtureLayer(MATERIALS[6][1]("a"), d, 2)), ("VaryingMixtureLayer with a profile", VaryingMixtureLayer(MATERIALS[6][1]("a"), d, 2, square))):
        independent(n, l, thick)
        independent(n + " material", l, frac)
    independent("RepeatedLayers", RepeatedLayers([Layer(m, d), Layer(m, d)], 2, 1, 0), inner)


def stack():
    d = vf.pos("d")
    m = MATERIALS[2][1]("a")
    return Structure(MATERIALS[0][1]("f"), [Layer(m, d), RepeatedLayers([Layer(m, d + 1)], 2), TwistedLayer(m, d, 2, 40), VaryingMixtureLayer(MATERIALS[6][1]("b"), d, 2)], MATERIALS[0][1]("x"))


def ob_structures():
    def thick(s):
        s.layers[0].set_thickness(vf.pos("e"))

    def inner(s):
        s.layers[1].layers[0].material.dispersion_x.tag = "other"

    def front(s):
        s.front_material.dispersion_x.tag = "other"

    def more(s):
        s.layers.append(Layer(MATERIALS[0][1]("q"), vf.pos("e")))
    for n, c in (("thickness", thick), ("material", inner), ("front", front), ("layer list", more)):
        independent("structure " + n, stack(), c)

    def theta(x):
        x.set_theta(vf.real("th2", 0, 89.9))

    def wl(x):
        x.lbda *= 2
    for n, c in (("angle", theta), ("wavelengths", wl)):
        independent("experiment " + n, Experiment(stack(), lbda(), vf.real("th", 0, 89.9), [1, 0.5]), c)


def ob_results():
    def amp(r):
        r._jones_matrix_r *= 2

    def rng(r):
        r.as_delta_range(0, 360)

    def lamp(L):
        L.results[0]._jones_matrix_r *= np.array([[2, 1], [1, 1]])

    def lapp(L):
        L.append(result("c"))
    independent("result", result(), amp)
    independent("result delta range", result(), rng)
    for n, c in (("amplitudes", lamp), ("length", lapp)):
        independent("result list " + n, ResultList([result("a"), result("b")]), c)
        independent("average " + n, ResultList([result("a"), result("b")]).mean, c)
    for c in (ResultList, AveragedResultList):
        for how, cp in HOW:
            e = vf.accepted("%s of an empty list" % how, cp, c([]))
            vf.check(type(e) is c and len(e.results) == 0, "%s of an empty list is an empty list" % how)


def ob_evaluated():
    s = Structure(MATERIALS[0][1]("f"), [Layer(MATERIALS[0][1]("a"), vf.pos("d"))], MATERIALS[0][1]("x"))
    for name, r in (("2x2", s.evaluate(lbda(), vf.real("th", 0, 89.9), Solver2x2)), ("4x4", s.evaluate(lbda(), vf.real("th", 0, 89.9), Solver4x4, propagator=PropagatorLinear()))):
        for how, cp in HOW:
            c = vf.accepted("%s of an evaluated %s result" % (how, name), cp, r)
            vf.equal([c.psi, c.delta], [r.psi, r.delta], "%s of an evaluated %s result" % (how, name))


PROBES = ["foo", "foo_bar", "r_foo", "r_", "_", "r_p", "r_pss", "r_xs", "psi_34", "R_13", "Ψ_xx", "mean_", "a_b_c", "psi__pp", "_ipython_display_", "_repr_html_", "__array__", "__deepcopy__", "__getstate_x__", "__len_hint__", "shape", "dtype"]
DUNDER = ["__foo__", "__array_priority__", "__array_interface__", "__array_struct__", "__nothing", "__r_pp", "__nothing__", "__float__", "__mean__"]


def ob_probes():
    s = stack()
    things = [("dispersion", SymDisp("a")), ("index dispersion", SymIndex("a")), ("index view", SymDisp("a").as_index()), ("sum", SymDisp("a") + SymDisp("b")),
              ("Formula", D.Formula("eps = 1 + a", "lbda", {"a": P("a")}, {})), ("isotropic material", MATERIALS[0][1]("a")), ("mixture", MATERIALS[5][1]("a")),
              ("Layer", s.layers[0]), ("RepeatedLayers", s.layers[1]), ("TwistedLayer", s.layers[2]), ("VaryingMixtureLayer", s.layers[3]), ("structure", s),
              ("experiment", Experiment(s, lbda(), 60)), ("result", result()), ("result list", ResultList([result("a"), result("b")])),
              ("average", ResultList([result("a"), result("b")]).mean)]
    for n, c in closed_form():
        things.append((n, model(c, "p", 1 if len(c.rep_params_template) else 0)))
    for n, x in things:
        for a in PROBES + DUNDER:
            v = vf.accepted("probing a %s for %s" % (n, a), hasattr, x, a)
            vf.equal(v, False, "%s has no attribute %s" % (n, a))
            vf.equal(getattr(x, a, 7), 7, "%s without attribute %s gives the default" % (n, a))


def ob_probe_empty():
    """an empty list answers the interpreter's own questions like any other object"""
    for n, x in (("empty result list", ResultList([])), ("average of nothing", AveragedResultList([])), ("average of an empty list", ResultList([]).mean)):
        for a in DUNDER:
            v = vf.accepted("probing an %s for %s" % (n, a), hasattr, x, a)
            vf.equal(v, False, "%s has no attribute %s" % (n, a))


def ob_probe_bare():
    """objects without any state, as copying and unpickling create them"""
    for c in [Result, ResultList, AveragedResultList, Structure, Layer, Experiment, D.Cauchy, IsotropicMaterial]:
        x = c.__new__(c)
        for a in ("__setstate__", "__deepcopy__", "foo", "_missing"):
            v = vf.accepted("probing a bare %s for %s" % (vf.class_name(c), a), hasattr, x, a)
            vf.equal(v, False, "bare %s has no attribute %s" % (vf.class_name(c), a))
        vf.equal(getattr(x, "results", 7), 7, "bare %s has no results" % vf.class_name(c)) if c not in (ResultList, AveragedResultList) else None
    vf.accepted("probing a bare ResultList for its results", hasattr, ResultList.__new__(ResultList), "results")
    vf.accepted("probing a bare average for its results", hasattr, AveragedResultList.__new__(AveragedResultList), "results")
