"""C07: wavelength, energy, frequency and wavenumber units."""
import numpy as np
import scipy.constants as sc
import vf
import elli
from elli import utils
from elli.units import ureg
from elli.dispersions import LorentzEnergy, LorentzLambda, DrudeEnergy
from spec_common import lbda, SymDisp, SymIndex, SymMat
from spec_c17 import EV

HC = sc.value("Planck constant in eV/Hz") * sc.speed_of_light * 1e9
CONV = (("conversion_wavelength_energy", "conversion_wavelength_energy", lambda x: HC / x),
        ("conversion_wavelength_frequency", "conversion_wavelength_frequency", lambda x: sc.speed_of_light / (x * 1e-9)),
        ("conversion_wavelength_wavenumber", "conversion_wavelength_wavenumber", lambda x: 1e7 / x),
        ("conversion_frequency2energy", "conversion_energy2frequency", lambda x: x * sc.value("Planck constant in eV/Hz")),
        ("conversion_energy2frequency", "conversion_frequency2energy", lambda x: x / sc.value("Planck constant in eV/Hz")))


def ob_conversions():
    s, a, m = vf.pos("s"), vf.arr("a", (vf.size("N"),), "pos"), vf.arr("m", (vf.size("N"), 2), "pos")
    i = np.array([300, 400, 1000])
    for name, inverse, want in CONV:
        f, g = getattr(utils, name), getattr(utils, inverse)
        for v, lab in ((s, "number"), (a, "array"), (m, "table"), (i, "integers"), (500, "integer")):
            vf.equal(f(v), want(v), "%s of a %s" % (name, lab))
            vf.equal(g(f(v)), 1.0 * v, "%s undone by %s for a %s" % (name, inverse, lab))
        vf.frozen(name + " leaves its argument alone", [a], f, a)
    vf.equal(utils.conversion_wavelength_energy(500.0), EV / 500, "500 nm in electron volts")
    vf.equal(elli.conversion_wavelength_energy(s), HC / s, "the exported conversion")
    fr = utils.conversion_wavelength_frequency(s)
    vf.equal(utils.conversion_frequency2energy(fr), utils.conversion_wavelength_energy(s), "energy through the frequency")
    vf.equal(utils.conversion_wavelength_frequency(utils.conversion_energy2frequency(s)), utils.conversion_wavelength_energy(s), "wavelength through the frequency")


UNITS = (("nm", lambda x: x), ("nanometer", lambda x: x), ("um", lambda x: x / 1e3), ("micrometer", lambda x: x / 1e3), ("1 micrometer", lambda x: x / 1e3), ("angstrom", lambda x: x * 10),
         ("Angstroms", lambda x: x * 10), ("mm", lambda x: x / 1e6), ("m", lambda x: x * 1e-9), ("cm", lambda x: x * 1e-7), ("eV", lambda x: HC / x), ("meV", lambda x: 1e3 * HC / x), ("keV", lambda x: HC / x / 1e3),
         ("J", lambda x: sc.h * sc.c * 1e9 / x))


def ob_formula_units():
    lb = lbda()
    A, B = vf.pos("A"), vf.pos("B")
    for unit, to in UNITS:
        x = to(lb)
        d = elli.Formula("eps = A + B*E**2", "E", {"A": A, "B": B}, {}, unit)
        vf.equal(d.get_dielectric(lb), A + B * x ** 2, "permittivity formula in " + unit)
        d = elli.FormulaIndex("n = A + B/E", "E", {"A": A, "B": B}, {}, unit)
        vf.equal(d.get_refractive_index(lb), A + B / x, "index formula in " + unit)
        d = elli.Formula("eps = sum[A*E + B]", "E", {}, {"A": [A, vf.pos("A2")], "B": [B, vf.pos("B2")]}, unit)
        vf.equal(d.get_dielectric(lb), (A + vf.pos("A2")) * x + B + vf.pos("B2"), "sum formula in " + unit)
        s = vf.real("l0", 1, 20000)
        vf.equal(d.get_dielectric(s), (A + vf.pos("A2")) * to(s) + B + vf.pos("B2"), "single wavelength in " + unit)
    d = elli.Formula("eps = A + B*E**2", "E", {"A": A, "B": B}, {})
    vf.equal(d.get_dielectric(lb), A + B * lb ** 2, "formula without unit is in nanometres")
    d = elli.Formula("eps = A + B*E**2", "E", {"A": A, "B": B}, {}, None)
    vf.equal(d.get_dielectric(lb), A + B * lb ** 2, "formula with unit None is in nanometres")
    for unit in ("kg", "s"):
        vf.expect_raises(ValueError, "formula in %s refused" % unit, elli.Formula, "eps = A", "E", {"A": A}, {}, unit)


def ob_formula_same_model():
    """a model written in another unit is the same model"""
    lb = lbda()
    A, E0, g = vf.pos("A"), vf.pos("E0", 0.05, 50), vf.pos("g", 0.001, 20)
    ref = LorentzEnergy()
    ref.add(A=A, E=E0, gamma=g)
    want = ref.get_dielectric(lb)
    text = "eps = 1 + A/(E0**2 - x**2 - 1j*g*x)"
    for unit, f in (("eV", 1), ("meV", 1000)):
        d = elli.Formula(text, "x", {"A": A * f ** 2, "E0": E0 * f, "g": g * f}, {}, unit)
        vf.equal(d.get_dielectric(lb), want, "Lorentz oscillator written in " + unit)
    a, b = vf.pos("a", 0.1, 3), vf.pos("b", 0.01, 0.2)
    s = elli.Sellmeier()
    s.add(A=a, B=b)
    for unit, f in (("um", 1), ("nm", 1e6), ("angstrom", 1e8)):
        d = elli.Formula("eps = 1 + a*x**2/(x**2 - b)", "x", {"a": a, "b": b * f}, {}, unit)
        vf.equal(d.get_dielectric(lb), s.get_dielectric(lb), "Sellmeier model written in " + unit)


def ob_two_units_together():
    """formulas in different units do not disturb each other"""
    lb = lbda()
    A = vf.pos("A")
    e = elli.Formula("eps = A*x", "x", {"A": A}, {}, "eV")
    u = elli.Formula("eps = A*x", "x", {"A": A}, {}, "um")
    n = elli.Formula("eps = A*x", "x", {"A": A}, {})
    for k in range(2):
        vf.equal(e.get_dielectric(lb), A * HC / lb, "eV formula, reading %d" % k)
        vf.equal(u.get_dielectric(lb), A * lb / 1000, "um formula, reading %d" % k)
        vf.equal(n.get_dielectric(lb), A * lb, "nm formula, reading %d" % k)
    vf.equal((e + u).get_dielectric(lb), A * HC / lb + A * lb / 1000, "sum of formulas in eV and um")


def ob_quarter_wave():
    s = vf.real("l0", 1, 20000)
    n = SymIndex("q")
    m = elli.IsotropicMaterial(n)
    vf.equal(utils.get_qwp_thickness(m, s), s / (4 * np.real(np.emath.sqrt(m.get_tensor(s)[0, 0, 0]))), "quarter wave plate thickness")
    A = vf.pos("A", 1, 3)
    d = elli.Cauchy(n0=A, n1=0, n2=0)
    vf.equal(utils.get_qwp_thickness(elli.IsotropicMaterial(d), s), s / (4 * A), "quarter wave plate of constant index")
    u = elli.UniaxialMaterial(d, elli.Cauchy(n0=vf.pos("B", 1, 3)))
    vf.equal(utils.get_qwp_thickness(u, s), s / (4 * A), "quarter wave plate of a uniaxial material: first axis")


def ob_registry():
    for unit, f in (("nm", 1), ("um", 1000), ("angstrom", 0.1), ("Angstroms", 0.1), ("m", 1e9)):
        vf.equal(ureg(unit).to("nm").magnitude, f, unit + " in nanometres")
    vf.equal(ureg("eV").to("nm").magnitude, HC, "one electron volt in nanometres")
    vf.equal(ureg("nm").to("eV").magnitude, HC, "one nanometre in electron volts")
    vf.equal(ureg("1/cm").to("nm").magnitude, 1e7, "one inverse centimetre in nanometres")
