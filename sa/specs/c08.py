import numpy as np
import scipy.constants as sc
from scipy.special import dawsn, digamma, gamma as gammafn
from numpy.lib.scimath import sqrt
import vf
import elli
from elli import dispersions as D
from spec_common import lbda

HC = sc.speed_of_light * sc.value("Planck constant in eV/Hz") * 1e9


def P(name, lo=0.02, hi=30):
    return vf.real(name, lo, hi)


def views(d, lb, eps, name, index=False):
    """the views of one model agree; eps is the documented dielectric function (index: refractive index)"""
    if index:
        vf.equal(d.get_refractive_index(lb), eps, name + ": refractive index")
        vf.equal(d.refractive_index(lb), eps, name + ": refractive_index()")
        vf.equal(d.get_dielectric(lb), eps ** 2, name + ": dielectric function is the squared index")
        vf.equal(d.dielectric_function(lb), eps ** 2, name + ": dielectric_function()")
    else:
        vf.equal(d.get_dielectric(lb), eps, name + ": dielectric function")
        vf.equal(d.dielectric_function(lb), eps, name + ": dielectric_function()")
        vf.equal(d.get_refractive_index(lb) ** 2, eps, name + ": squared refractive index is the dielectric function")


def ob_cauchy():
    lb = lbda()
    n0, n1, n2, k0, k1, k2 = P("n0"), P("n1"), P("n2"), P("k0"), P("k1"), P("k2")
    d = D.Cauchy(n0=n0, n1=n1, n2=n2, k0=k0, k1=k1, k2=k2)
    want = n0 + 100 * n1 / lb ** 2 + 10 ** 7 * n2 / lb ** 4 + 1j * (k0 + 100 * k1 / lb ** 2 + 10 ** 7 * k2 / lb ** 4)
    views(d, lb, want, "Cauchy", True)
    lam = vf.pos("lam", 10, 30000)
    vf.equal(d.get_refractive_index(lam), n0 + 100 * n1 / lam ** 2 + 10 ** 7 * n2 / lam ** 4 + 1j * (k0 + 100 * k1 / lam ** 2 + 10 ** 7 * k2 / lam ** 4), "Cauchy: single wavelength")


def ob_cauchy_custom():
    lb = lbda()
    n0 = P("n0")
    f, e = [P("f1"), P("f2"), P("f3")], [P("e1", -3, 3), P("e2", -3, 3), P("e3", -3, 3)]
    d = D.CauchyCustomExponent(n0=n0)
    want = n0 + 0 * lb
    vf.equal(d.get_refractive_index(lb) + 0 * lb, n0 + 0 * lb, "CauchyCustomExponent: 0 terms")
    for k in range(3):
        d.add(f=f[k], e=e[k])
        want = want + f[k] * lb ** e[k]
        views(d, lb, want, "CauchyCustomExponent: %s terms" % (k + 1), True)


def ob_cauchy_urbach():
    lb = lbda()
    E = HC / lb
    n0, B, C, Dd, Eg, Eu = P("n0"), P("B"), P("C"), P("D"), P("Eg"), P("Eu")
    d = D.CauchyUrbach(n0=n0, B=B, C=C, D=Dd, Eg=Eg, Eu=Eu)
    views(d, lb, n0 + B * E ** 2 + C * E ** 4 + 1j * Dd * np.exp((E - Eg) / Eu), "CauchyUrbach", True)


def ob_constant():
    lb = lbda()
    n = vf.cplx("n")
    d = D.ConstantRefractiveIndex(n=n)
    vf.equal(d.get_refractive_index(lb), n, "ConstantRefractiveIndex: refractive index")
    vf.equal(d.get_dielectric(lb), n ** 2, "ConstantRefractiveIndex: dielectric function")
    e = vf.cplx("e")
    d = D.EpsilonInf(eps=e)
    vf.equal(d.get_dielectric(lb), e, "EpsilonInf: dielectric function")
    vf.equal(d.get_refractive_index(lb) ** 2, e, "EpsilonInf: refractive index")


def ob_drude_energy():
    lb = lbda()
    E = HC / lb
    A, g = P("A"), P("gamma")
    views(D.DrudeEnergy(A=A, gamma=g), lb, A / (E ** 2 - 1j * g * E), "DrudeEnergy")


def ob_drude_resistivity():
    lb = lbda()
    E = HC / lb
    rho, tau = P("rho"), P("tau")
    hbar = sc.value("Planck constant in eV/Hz") / (2 * np.pi)
    eps0 = sc.value("vacuum electric permittivity") / 100
    views(D.DrudeResistivity(rho_opt=rho, tau=tau), lb, hbar ** 2 / (eps0 * rho * (tau * E ** 2 - 1j * hbar * E)), "DrudeResistivity")


def ob_gaussian():
    lb = lbda()
    E = HC / lb
    d = D.Gaussian()
    want = 0 * lb
    vf.equal(d.get_dielectric(lb) + 0 * lb, 0 + 0 * lb, "Gaussian: 0 terms")
    for k in range(3):
        A, E0, s = P("A%s" % k), P("E%s" % k), P("s%s" % k)
        d.add(A=A, E=E0, sigma=s)
        c = 2 * np.sqrt(np.log(2))
        want = want + 2 * A / np.sqrt(np.pi) * (dawsn(c * (E + E0) / s) - dawsn(c * (E - E0) / s))
        want = want + 1j * A * (np.exp(-(c * (E - E0) / s) ** 2) - np.exp(-(c * (E + E0) / s) ** 2))
        views(d, lb, want, "Gaussian: %s terms" % (k + 1))


def ob_lorentz_energy():
    lb = lbda()
    E = HC / lb
    d = D.LorentzEnergy()
    vf.equal(d.get_dielectric(lb) + 0 * lb, 1 + 0 * lb, "LorentzEnergy: 0 terms")
    want = 1
    for k in range(3):
        A, E0, g = P("A%s" % k), P("E%s" % k), P("g%s" % k)
        d.add(A=A, E=E0, gamma=g)
        want = want + A / (E0 ** 2 - E ** 2 - 1j * g * E)
        views(d, lb, want, "LorentzEnergy: %s terms" % (k + 1))


def ob_lorentz_lambda():
    lb = lbda()
    d = D.LorentzLambda()
    vf.equal(d.get_dielectric(lb) + 0 * lb, 1 + 0 * lb, "LorentzLambda: 0 terms")
    want = 1
    for k in range(3):
        A, l0, g = P("A%s" % k), P("l%s" % k), P("g%s" % k)
        d.add(A=A, lambda_r=l0, gamma=g)
        want = want + A * lb ** 2 / (lb ** 2 - l0 ** 2 - 1j * g * lb)
        views(d, lb, want, "LorentzLambda: %s terms" % (k + 1))


def ob_poles():
    lb = lbda()
    E = HC / lb
    a, b, e = P("A_ir"), P("A_uv"), P("E_uv")
    views(D.Poles(A_ir=a, A_uv=b, E_uv=e), lb, a / E ** 2 + b / (e ** 2 - E ** 2), "Poles")


def ob_polynomial():
    lb = lbda()
    e0 = P("e0")
    d = D.Polynomial(e0=e0)
    vf.equal(d.get_dielectric(lb) + 0 * lb, e0 + 0 * lb, "Polynomial: 0 terms")
    want = e0
    for k in range(3):
        f, e = P("f%s" % k), P("e%s" % k, -3, 3)
        d.add(f=f, e=e)
        want = want + f * lb ** e
        views(d, lb, want, "Polynomial: %s terms" % (k + 1))


def ob_sellmeier():
    lb = lbda()
    u = lb / 1000
    d = D.Sellmeier()
    vf.equal(d.get_dielectric(lb) + 0 * lb, 1 + 0 * lb, "Sellmeier: 0 terms")
    want = 1
    for k in range(3):
        A, B = P("A%s" % k), P("B%s" % k)
        d.add(A=A, B=B)
        want = want + A * u ** 2 / (u ** 2 - B)
        views(d, lb, want, "Sellmeier: %s terms" % (k + 1))


def ob_sellmeier_custom():
    lb = lbda()
    u = lb / 1000
    d = D.SellmeierCustomExponent()
    want = 0
    for k in range(3):
        A, ea, B, eb = P("A%s" % k), P("ea%s" % k), P("B%s" % k), P("eb%s" % k)
        d.add(A=A, e_A=ea, B=B, e_B=eb)
        want = want + A * u ** ea / (u ** 2 - B ** eb)
        views(d, lb, want, "SellmeierCustomExponent: %s terms" % (k + 1))


def tl(E, Eg, A, E0, C):
    g2 = E0 ** 2 - C ** 2 / 2
    al = sqrt(4 * E0 ** 2 - C ** 2)
    aln = (Eg ** 2 - E0 ** 2) * E ** 2 + Eg ** 2 * C ** 2 - E0 ** 2 * (E0 ** 2 + 3 * Eg ** 2)
    aat = (E ** 2 - E0 ** 2) * (E0 ** 2 + Eg ** 2) + Eg ** 2 * C ** 2
    z4 = (E ** 2 - g2) ** 2 + al ** 2 * C ** 2 / 4
    e1 = A * C * aln / (2 * np.pi * z4 * al * E0) * np.log((E0 ** 2 + Eg ** 2 + al * Eg) / (E0 ** 2 + Eg ** 2 - al * Eg))
    e1 = e1 - A * aat / (np.pi * z4 * E0) * (np.pi - np.arctan((2 * Eg + al) / C) + np.arctan((al - 2 * Eg) / C))
    e1 = e1 + 2 * A * E0 * Eg / (np.pi * z4 * al) * (E ** 2 - g2) * (np.pi + 2 * np.arctan(2 * (g2 - Eg ** 2) / (al * C)))
    e1 = e1 - A * E0 * C * (E ** 2 + Eg ** 2) / (np.pi * z4 * E) * np.log(np.abs(E - Eg) / (E + Eg))
    e1 = e1 + 2 * A * E0 * C * Eg / (np.pi * z4) * np.log(np.abs(E - Eg) * (E + Eg) / np.sqrt((E0 ** 2 - Eg ** 2) ** 2 + Eg ** 2 * C ** 2))
    e2 = np.where(E > Eg, A * E0 * C * (E - Eg) ** 2 / ((E ** 2 - E0 ** 2) ** 2 + C ** 2 * E ** 2) / E, 0)
    return e1 + 1j * e2


def ob_tauc_lorentz():
    lb = lbda()
    E = HC / lb
    Eg = vf.real("Eg", 0.3, 5)
    d = D.TaucLorentz(Eg=Eg)
    want = 0
    for k in range(2):
        A, E0, C = vf.real("A%s" % k, 1, 500), vf.real("E%s" % k, 0.5, 9), vf.real("C%s" % k, 0.1, 20)
        d.add(A=A, E=E0, C=C)
        want = want + tl(E, Eg, A, E0, C)
        views(d, lb, want, "TaucLorentz: %s terms" % (k + 1))


def ob_cody_lorentz():
    lb = lbda()
    E = HC / lb
    Eg, A, Et, g, Ep, E0, Eu = P("Eg", 0.1, 6), P("A", 1, 500), P("Et", 0.1, 8), P("gam", 0.01, 9), P("Ep", 0.01, 9), P("E0", 0.1, 9), P("Eu", 0.01, 3)
    d = D.CodyLorentz(Eg=Eg, A=A, Et=Et, gamma=g, Ep=Ep, E0=E0, Eu=Eu)

    def G(x):
        return (x - Eg) ** 2 / ((x - Eg) ** 2 + Ep ** 2)

    def L(x):
        return A * E0 * g * x / ((x ** 2 - E0 ** 2) ** 2 + g ** 2 * x ** 2)

    def e2(x):
        return np.where(x > Et, G(x) * L(x), Et * G(Et) * L(Et) / x * np.exp((x - Et) / Eu))
    vf.equal(d.get_dielectric(lb).imag, e2(E), "CodyLorentz: imaginary part with the Urbach tail below Et")
    vf.equal(d.dielectric_function(lb).imag, e2(E), "CodyLorentz: dielectric_function()")


def ob_tanguy():
    lb = lbda()
    E = HC / lb
    A, gam, R, Eg, a, b = P("A"), P("gam"), P("R"), vf.real("Eg", 1, 3), P("a"), P("b")

    def xi(z):
        return sqrt(R / (Eg - z))

    def ev(g, d):
        z = E + 1j * gam
        return 1 + a / (b - E ** 2) + A * R ** (d / 2 - 1) / z ** 2 * (g(xi(z)) + g(xi(-z)) - 2 * g(xi(0 * E)))

    def g3(x):
        return 2 * np.log(x) - 2 * digamma(1 - x) - 1 / x

    def g2(x):
        return 2 * np.log(x) - 2 * digamma(0.5 - x)

    views(D.Tanguy(A=A, d=3, gamma=gam, R=R, Eg=Eg, a=a, b=b), lb, ev(g3, 3), "Tanguy: d=3")
    views(D.Tanguy(A=A, d=2, gamma=gam, R=R, Eg=Eg, a=a, b=b), lb, ev(g2, 2), "Tanguy: d=2")
    d = vf.real("d", 2.2, 2.8)

    def gd(x):
        D1 = d - 1
        return 2 * np.pi * gammafn(D1 / 2 + x) / gammafn(D1 / 2) ** 2 / gammafn(1 - D1 / 2 + x) / x ** (d - 2) * (1 / np.tan(np.pi * (D1 / 2 - x)) - 1 / np.tan(np.pi * D1))
    views(D.Tanguy(A=A, d=d, gamma=gam, R=R, Eg=Eg, a=a, b=b), lb, ev(gd, d), "Tanguy: fractional d")


def ob_sums():
    lb = lbda()
    E = HC / lb
    A, E0, g = P("A"), P("E0"), P("g")
    c = P("c")
    s = D.LorentzEnergy().add(A=A, E=E0, gamma=g) + D.EpsilonInf(eps=c)
    views(s, lb, 1 + A / (E0 ** 2 - E ** 2 - 1j * g * E) + c, "sum of two models")
    n0, n = P("n0"), P("n")
    s = D.Cauchy(n0=n0) + D.ConstantRefractiveIndex(n=n)
    views(s, lb, n0 + n + 0 * lb, "sum of two index models", True)


def ob_scalar():
    lam = vf.pos("lam", 10, 30000)
    A, B = P("A"), P("B")
    u = lam / 1000
    views(D.Sellmeier().add(A=A, B=B), lam, 1 + A * u ** 2 / (u ** 2 - B), "Sellmeier: single wavelength")
    E = HC / lam
    g = P("g")
    views(D.LorentzEnergy().add(A=A, E=B, gamma=g), lam, 1 + A / (B ** 2 - E ** 2 - 1j * g * E), "LorentzEnergy: single wavelength")


def ob_tables():
    from scipy.interpolate import interp1d
    lb = lbda()
    x = vf.arr("x", (vf.size("M"),), "pos", 10, 30000)
    y = vf.arr("y", (vf.size("M"),), "complex")
    views(D.Table(lbda=x, n=y), lb, interp1d(x, y, kind="linear")(lb), "Table", True)
    views(D.TableEpsilon(lbda=x, epsilon=y), lb, interp1d(x, y, kind="linear")(lb), "TableEpsilon")
    views(D.Table(lbda=x, n=y, kind="cubic"), lb, interp1d(x, y, kind="cubic")(lb), "Table, cubic", True)
    views(D.TableEpsilon(lbda=x, epsilon=y, kind="cubic"), lb, interp1d(x, y, kind="cubic")(lb), "TableEpsilon, cubic")


def ob_pseudo():
    from scipy.interpolate import interp1d
    lb = lbda()
    x = vf.arr("x", (vf.size("M"),), "pos", 10, 30000)
    psi = vf.arr("psi", (vf.size("M"),), "real", 5, 40)
    delta = vf.arr("delta", (vf.size("M"),), "real", 5, 170)
    ang = vf.real("ang", 40, 80)
    t = ang * np.pi / 180
    rho = np.tan(psi * np.pi / 180) * np.exp(-1j * delta * np.pi / 180)
    eps = np.sin(t) ** 2 * (1 + np.tan(t) ** 2 * ((1 - rho) / (1 + rho)) ** 2)
    views(D.PseudoDielectricFunction(angle=ang, lbda=x, psi=psi, delta=delta), lb, interp1d(x, eps, kind="cubic")(lb), "PseudoDielectricFunction")


def ob_as_index():
    lb = lbda()
    E = HC / lb
    A, E0, g = P("A"), P("E0"), P("g")
    d = D.LorentzEnergy().add(A=A, E=E0, gamma=g)
    i = d.as_index()
    want = sqrt(1 + A / (E0 ** 2 - E ** 2 - 1j * g * E))
    vf.equal(i.get_refractive_index(lb), want, "as_index: refractive index")
    vf.equal(i.get_dielectric(lb), 1 + A / (E0 ** 2 - E ** 2 - 1j * g * E), "as_index: dielectric function")


def ob_as_index_table():
    from scipy.interpolate import interp1d
    lb = lbda()
    x = vf.arr("x", (vf.size("M"),), "pos", 10, 30000)
    y = vf.arr("y", (vf.size("M"),), "complex")
    d = D.TableEpsilon(lbda=x, epsilon=y)
    i = vf.accepted("as_index of a table", d.as_index)
    vf.equal(i.get_refractive_index(lb) ** 2, interp1d(x, y, kind="linear")(lb), "as_index of a table: squared index")


def ob_integer_wavelengths():
    """wavelength grids given as integers or lists mean the same wavelengths"""
    n0, f, e = P("n0"), P("f"), P("e")
    A, B = P("A"), P("B")
    for lb, nm in (([300, 400, 700], "list"), (np.array([300, 400, 700]), "integer array")):
        fl = np.array([300.0, 400.0, 700.0])
        d = D.Sellmeier().add(A=A, B=B)
        v = vf.accepted("Sellmeier accepts a wavelength " + nm, d.get_dielectric, lb)
        vf.equal(v, d.get_dielectric(fl), "Sellmeier: " + nm)
        d = D.Cauchy(n0=n0, n1=f)
        v = vf.accepted("Cauchy accepts a wavelength " + nm, d.get_refractive_index, lb)
        vf.equal(v, d.get_refractive_index(fl), "Cauchy: " + nm)


def frames(d, label, lb, *default):
    """the tables of a model list its values over the wavelengths they are asked for (default: the range of the model)"""
    want = np.array(lb)
    for get, cols, val in ((d.get_dielectric_df, ["ϵ1", "ϵ2"], d.get_dielectric(want)), (d.get_refractive_index_df, ["n", "k"], d.get_refractive_index(want))):
        for kw, sign in (({}, 1), ({"conjugate": True}, -1), ({"conjugate": False}, 1)):
            f = vf.frozen("%s: %s table" % (label, cols[0]), [d, lb], get, *default, **kw)
            nm = "%s: %s table%s" % (label, cols[0], " conjugated" if sign < 0 else "")
            vf.equal(list(f.columns), cols, nm + ": columns")
            vf.equal(f.index.name, "Wavelength", nm + ": name of the index")
            vf.equal(np.array(f.index), want, nm + ": wavelengths")
            vf.equal(f[cols[0]].to_numpy(), np.array([v.real for v in val]), nm + ": real part")
            vf.equal(f[cols[1]].to_numpy(), np.array([sign * v.imag for v in val]), nm + ": imaginary part")


def ob_frames():
    lb = np.array([vf.pos("w%d" % i, 10, 30000) for i in range(3)])
    A, E0, g = P("A"), P("E0"), P("g")
    n0, n1, k0, c = P("n0"), P("n1"), P("k0"), P("c")
    lorentz = D.LorentzEnergy().add(A=A, E=E0, gamma=g)
    cauchy = D.Cauchy(n0=n0, n1=n1, k0=k0)
    for d, nm in ((lorentz, "LorentzEnergy"), (cauchy, "Cauchy"), (lorentz + c, "sum"), (cauchy + c, "index sum"), (lorentz.as_index(), "as_index")):
        frames(d, nm, lb, lb)
    x = np.array([vf.pos("x%d" % i, 10, 30000) for i in range(3)])
    y = np.array([vf.cplx("y%d" % i) for i in range(3)])
    for d, nm in ((D.Table(lbda=x, n=y), "Table"), (D.TableEpsilon(lbda=x, epsilon=y), "TableEpsilon")):
        frames(d, nm + " over its own range", x)
        frames(d, nm, lb, lb)
    for d, nm in ((lorentz, "LorentzEnergy"), (cauchy, "Cauchy")):
        f = d.get_dielectric_df()
        vf.equal(np.array(f.index), np.linspace(200, 1000, 801), nm + ": default range")
        vf.equal(np.array(d.get_refractive_index_df().index), np.linspace(200, 1000, 801), nm + ": default range of the index")
        vf.equal(d.get_dielectric(), d.get_dielectric(np.linspace(200, 1000, 801)), nm + ": default range of the dielectric function")
        vf.equal(d.get_refractive_index(), d.get_refractive_index(np.linspace(200, 1000, 801)), nm + ": default range of the refractive index")


def ob_many_terms():
    """a model with a dozen terms is its constant part plus its terms in any number"""
    lb = lbda()
    for name, cls, keys, kw, index in (
            ("CauchyCustomExponent", D.CauchyCustomExponent, ("f", "e"), {"n0": P("n0")}, True),
            ("Polynomial", D.Polynomial, ("f", "e"), {"e0": P("e0")}, False),
            ("LorentzEnergy", D.LorentzEnergy, ("A", "E", "gamma"), {}, False),
            ("LorentzLambda", D.LorentzLambda, ("A", "lambda_r", "gamma"), {}, False),
            ("Sellmeier", D.Sellmeier, ("A", "B"), {}, False),
            ("SellmeierCustomExponent", D.SellmeierCustomExponent, ("A", "e_A", "B", "e_B"), {}, False),
            ("Gaussian", D.Gaussian, ("A", "E", "sigma"), {}, False),
            ("TaucLorentz", D.TaucLorentz, ("A", "E", "C"), {"Eg": vf.real("Eg", 0.3, 5)}, False)):
        view = "refractive_index" if index else "dielectric_function"
        empty = getattr(cls(**kw), view)(lb) + 0 * lb
        want = empty
        d = cls(**kw)
        for k in range(12):
            p = {n: (1.5 + k / 4 if n == "E" and name == "TaucLorentz" else P("%s%d" % (n, k), 0.5, 2)) for n in keys}
            d.add(**p)
            want = want + getattr(cls(**kw).add(**p), view)(lb) - empty
        vf.equal(getattr(d, view)(lb), want, name + ": twelve terms")
        vf.check(len(d.rep_params) == 12, name + ": twelve terms are kept")
