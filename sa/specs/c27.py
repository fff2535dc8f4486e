import numpy as np
import vf
import elli
from elli import dispersions as D
from elli.dispersions import base_dispersion
from elli.dispersions.base_dispersion import BaseDispersion, DispersionFactory, IndexDispersion, Dispersion
from spec_common import lbda
from spec_c09 import DOC, MANDATORY, val, given, create



def by_name(n, args, kw):
    return DispersionFactory.get_dispersion(n, *args, **kw)


def ob_by_name():
    for n in DOC:
        single, rep = DOC[n]
        c = getattr(D, n)
        for args, kw in (([], {}), ([], {k: val(k) for k, v in single}), ([val(k) for k, v in single], {})):
            d = by_name(n, args, kw)
            e = c(*args, **kw)
            vf.check(type(d) is c, n + ": class of the created model")
            for k, v in single:
                vf.equal(d.single_params[k], e.single_params[k], n + ": parameter " + k)
            vf.check(len(d.rep_params) == 0, n + ": no repeated parameters yet")
            if rep:
                d.add(**{k: val(k) for k, v in rep})
                e.add(**{k: val(k) for k, v in rep})
                for k, v in rep:
                    vf.equal(d.rep_params[0][k], e.rep_params[0][k], n + ": repeated parameter " + k)
            if n not in ("Tanguy", "CodyLorentz") and kw:
                vf.equal(d.get_dielectric(lbda()), e.get_dielectric(lbda()), n + ": dielectric function")


def ob_tables():
    for n in MANDATORY:
        names = MANDATORY[n]
        kw = given(n)
        kw = {k: kw[k] for k in names}
        d = by_name(n, [], kw)
        vf.check(type(d) is getattr(D, n), n + ": class of the created model")
        for k in names:
            vf.equal(d.single_params[k], kw[k], n + ": parameter " + k)


def ob_rejects_parameters():
    """the model's own parameter checks apply"""
    for n in DOC:
        single, rep = DOC[n]
        vf.expect_raises(base_dispersion.InvalidParameters, n + ": unknown parameter", by_name, n, [], {"nonsense": 1})
        vf.expect_raises(base_dispersion.InvalidParameters, n + ": surplus parameters", by_name, n, [1] * (len(single) + 1), {})
    for n in MANDATORY:
        vf.expect_raises(base_dispersion.InvalidParameters, n + ": mandatory parameters", by_name, n, [], {})


def ob_fresh():
    """every call creates a new model"""
    for n in DOC:
        a, b = by_name(n, [], {}), by_name(n, [], {})
        vf.check(a is not b, n + ": two calls give two models")
        vf.disjoint([a.single_params, a.rep_params], [b.single_params, b.rep_params], n + ": two created models share no parameters")


def is_dispersion(v):
    return isinstance(v, type) and issubclass(v, BaseDispersion)


def ob_other_names():
    other = ["", " ", "cauchy", "CAUCHY", "Cauchy ", " Cauchy", "Cauchy()", "Cauchy.", "Nonsense", "np", "numpy", "pd", "ABC", "List", "Union", "sqrt", "utils", "elli",
             "table_index", "table_epsilon", "table_spectraray", "sellmeier", "formula", "base_dispersion", "TableSpectraRay", "SpectraRay", "Material", "IsotropicMaterial",
             "Structure", "Layer", "Solver2x2", "InvalidParameters", "DispersionFactory", "BaseDispersion.Cauchy", "elli.Cauchy", "dispersions.Cauchy", "read_nexus_psi_delta",
             "conversion_wavelength_energy", "__name__", "__file__", "__doc__", "__dict__", "__class__", "__path__", "__getattr__", "__init__", "get_dispersion", "type", "object", "dict",
             "Sellmeiers", "Lorentz", "Drude", "Tauc", "Cody", "Constant", "Epsilon", "Index", "ConstantRefractiveIndex2", "CauchyIndex", "TableIndex"]
    for n in other:
        vf.expect_raises(ValueError, "get_dispersion(%r) is refused" % n, by_name, n, [], {})
    for n in ("table_index", "TableSpectraRay", "Nonsense", "np", "__name__"):
        vf.expect_raises(ValueError, "get_dispersion(%r, ...) is refused" % n, by_name, n, ["x"], {})
        vf.expect_raises(ValueError, "get_dispersion(%r, lbda=...) is refused" % n, by_name, n, [], {"lbda": 1})


def ob_namespace():
    """every name of the dispersion package is either a dispersion or refused"""
    for n in vf.names_of(D):
        v = getattr(D, n)
        if not is_dispersion(v):
            vf.expect_raises(ValueError, "get_dispersion(%r) is refused" % n, by_name, n, [], {})


def ob_reachable():
    """every public model class of the package can be created by its name"""
    for c in vf.subclasses(BaseDispersion):
        n = vf.class_name(c)
        if n.startswith("Sym") or n in ("Dispersion", "IndexDispersion", "DispersionSum", "IndexDispersionSum", "AnonymousIndexDispersion", "FormulaParser", "Const"):
            continue
        vf.check(getattr(D, n, None) is c, n + " can be found by its name")


def ob_facade():
    vf.check(elli.DispersionFactory is DispersionFactory, "the factory is exported")
    d = elli.DispersionFactory.get_dispersion("Cauchy", 1.5, n1=val("n1"))
    vf.equal(d.single_params["n0"], 1.5, "positional parameter is passed on")
    vf.equal(d.single_params["n1"], val("n1"), "named parameter is passed on")
    d = elli.DispersionFactory().get_dispersion("EpsilonInf", eps=val("e"))
    vf.equal(d.single_params["eps"], val("e"), "factory instance")
    for n in ("Cauchy", "CauchyCustomExponent", "CauchyUrbach", "ConstantRefractiveIndex"):
        vf.check(isinstance(by_name(n, [], {}), IndexDispersion), n + " is created as refractive index dispersion")
    for n in ("Sellmeier", "LorentzEnergy", "EpsilonInf", "DrudeEnergy"):
        vf.check(isinstance(by_name(n, [], {}), Dispersion), n + " is created as dielectric function dispersion")
