import numpy as np
import vf
from numpy.lib.scimath import sqrt
import elli
from elli.solver2x2 import Solver2x2
from elli.solver4x4 import Solver4x4, PropagatorLinear, PropagatorExpm, PropagatorEig
from elli.structure import Structure, Layer, RepeatedLayers, InhomogeneousLayer
from elli.materials import IsotropicMaterial
from elli.experiment import Experiment
from spec_common import SymDisp, lbda

n_ = vf.size("N")


class Const(SymDisp):
    """dispersion given by a symbolic column of permittivities"""

    def __init__(self, eps):
        super().__init__("c")
        self.eps = eps

    def dielectric_function(self, lbda):
        return self.eps + 0 * lbda


class IsoArr(IsotropicMaterial):
    """isotropic material with known permittivity column"""

    def get_tensor(self, lbda):
        lb = np.atleast_1d(lbda)
        eps = np.zeros((lb.shape[0], 3, 3), dtype=np.complex128)
        e = self.dispersion_x.dielectric_function(lb)
        for i in range(3):
            eps[:, i, i] = e
        return eps


def mat(name, kind="pos", lo=1, hi=6):
    e = vf.arr(name, (n_,), kind, lo, hi)
    if kind == "complex":
        e = np.abs(np.real(e)) + 1j * np.abs(np.imag(e))
    return e, IsoArr(Const(e))


def kz(eps, eps0, s):
    """normal component over k0 with decaying or forward branch"""
    return sqrt(eps - eps0 * s ** 2 + 0j)


def airy(eps, d, s, lb):
    """amplitudes of the stack by recursion from the exit side"""
    q = [kz(e, eps[0], s) for e in eps]
    out = {}
    for pol in "ps":
        y = [e / k if pol == "p" else k for e, k in zip(eps, q)]           # admittance of the tangential electric field
        def r(a, b):
            return (y[a] - y[b]) / (y[a] + y[b])

        def t(a, b):
            return 2 * y[a] / (y[a] + y[b])
        m = len(eps) - 1
        # tangential field amplitudes
        R, T = r(m - 1, m), t(m - 1, m)
        for j in range(m - 2, -1, -1):
            ph = np.exp(1j * 2 * np.pi * q[j + 1] * d[j] / lb)
            D = 1 + r(j, j + 1) * R * ph ** 2
            R, T = (r(j, j + 1) + R * ph ** 2) / D, t(j, j + 1) * T * ph / D
        if pol == "p":
            # field amplitudes along the direction of p: E_t = E cos, reflected p field defined with opposite sign
            n = [sqrt(e + 0j) for e in eps]
            c0, c1 = q[0] / n[0], q[-1] / n[-1]
            R, T = -R, T * c0 / c1
        out[pol] = (R, T)
    return out


def compare(r, want, nm):
    z = np.zeros(n_)
    jr, jt = r._jones_matrix_r, r._jones_matrix_t
    vf.equal(jr[:, 0, 0], want["p"][0], nm + ": r_p")
    vf.equal(jr[:, 1, 1], want["s"][0], nm + ": r_s")
    vf.equal(jt[:, 0, 0], want["p"][1], nm + ": t_p")
    vf.equal(jt[:, 1, 1], want["s"][1], nm + ": t_s")
    cross(r, nm)


def cross(r, nm):
    z = np.zeros(n_)
    for i, j in ((0, 1), (1, 0)):
        vf.equal(r._jones_matrix_r[:, i, j], z, nm + ": no cross-polarised reflection %d%d" % (i, j))
        vf.equal(r._jones_matrix_t[:, i, j], z, nm + ": no cross-polarised transmission %d%d" % (i, j))


def ob_fresnel():
    ni, nt = vf.cplx("ni", 0.1, 9), vf.cplx("nt", 0.1, 9)
    a, b = vf.cplx("a", 0.1, 1.2), vf.cplx("b", 0.1, 1.2)
    rs, rp, ts, tp = Solver2x2.fresnel(ni, nt, a, b)
    ci, ct = np.cos(a), np.cos(b)
    vf.equal(rs, (ni * ci - nt * ct) / (ni * ci + nt * ct), "r_s")
    vf.equal(rp, (nt * ci - ni * ct) / (nt * ci + ni * ct), "r_p")
    vf.equal(ts, 2 * ni * ci / (ni * ci + nt * ct), "t_s")
    vf.equal(tp, 2 * ni * ci / (nt * ci + ni * ct), "t_p")
    rs2, rp2, ts2, tp2 = Solver2x2.fresnel(nt, ni, b, a)
    vf.equal(ts * ts2 - rs * rs2, 1, "Stokes relation s")
    vf.equal(tp * tp2 - rp * rp2, 1, "Stokes relation p")


def ob_forward_angle():
    n, th = vf.pos("n", 1, 4), vf.real("th", -1.5, 1.5)
    vf.check(Solver2x2.is_forward_angle(n + 0j, th + 0j), "real angles below 90 degrees travel forward")
    th = vf.real("th", 1.6, 4.6)
    vf.check(np.invert(Solver2x2.is_forward_angle(n + 0j, th + 0j)), "angles beyond 90 degrees travel backward")
    k = vf.pos("k", 0.1, 3)
    vf.check(Solver2x2.is_forward_angle(n + 1j * k, vf.real("u", 0, 0.1) + 0j), "decaying waves travel forward")


def stack(kinds, **kw):
    lb = lbda()
    ang = vf.real("ang", 0, 89.9)
    eps, mats = [], []
    for i, k in enumerate(kinds):
        e, m = mat("eps%d" % i, k) if k == "complex" else mat("eps%d" % i, "pos", 0.5, 25)
        eps.append(e)
        mats.append(m)
    d = [vf.pos("d%d" % i, 0.01, 1e5) for i in range(len(kinds) - 2)]
    s = Structure(mats[0], [Layer(m, t) for m, t in zip(mats[1:-1], d)], mats[-1])
    return Experiment(s, lb, ang), airy(eps, d, np.sin(ang * np.pi / 180), lb), eps, ang


def ob_bare_substrate():
    for k in (["pos", "pos"], ["pos", "complex"]):
        e, want, eps, ang = stack(k)
        compare(Solver2x2(e).calculate(), want, "substrate " + k[-1])


def ob_one_layer():
    for k in (["pos", "pos", "pos"], ["pos", "complex", "complex"]):
        e, want, eps, ang = stack(k)
        compare(Solver2x2(e).calculate(), want, "one layer " + k[-1])


def ob_two_layers():
    for k in (["pos", "pos", "pos", "pos"], ["pos", "complex", "pos", "complex"]):
        e, want, eps, ang = stack(k)
        compare(Solver2x2(e).calculate(), want, "two layers " + k[-1])


def ob_three_layers():
    e, want, eps, ang = stack(["pos", "pos", "complex", "pos", "complex"])
    compare(Solver2x2(e).calculate(), want, "three layers")


def ob_five_layers():
    e, want, eps, ang = stack(["pos", "pos", "complex", "pos", "pos", "pos", "complex"])
    compare(Solver2x2(e).calculate(), want, "five layers")


def ob_total_reflection():
    """exit medium thinner than the entry medium: the evanescent branch is chosen"""
    lb = lbda()
    e0, m0 = mat("eps0", "pos", 4, 5)
    e1, m1 = mat("eps1", "pos", 6, 9)
    e2, m2 = mat("eps2", "pos", 1, 1.3)
    ang = vf.real("ang", 0, 89.9)
    d = vf.pos("d", 0.1, 5000)
    r = Solver2x2(Experiment(Structure(m0, [Layer(m1, d)], m2), lb, ang)).calculate()
    compare(r, airy([e0, e1, e2], [d], np.sin(ang * np.pi / 180), lb), "total reflection")


def ob_frustrated():
    """evanescent inner layer"""
    lb = lbda()
    e0, m0 = mat("eps0", "pos", 4, 5)
    e1, m1 = mat("eps1", "pos", 1, 1.3)
    e2, m2 = mat("eps2", "pos", 6, 9)
    ang = vf.real("ang", 0, 89.9)
    d = vf.pos("d", 0.1, 5000)
    r = Solver2x2(Experiment(Structure(m0, [Layer(m1, d)], m2), lb, ang)).calculate()
    compare(r, airy([e0, e1, e2], [d], np.sin(ang * np.pi / 180), lb), "frustrated reflection")


def ob_normal_incidence():
    lb = lbda()
    e0, m0 = mat("eps0", "pos", 1, 2)
    e1, m1 = mat("eps1", "complex", 3, 9)
    e2, m2 = mat("eps2", "complex", 3, 9)
    d = vf.pos("d", 0.1, 5000)
    r = Solver2x2(Experiment(Structure(m0, [Layer(m1, d)], m2), lb, 0)).calculate()
    compare(r, airy([e0, e1, e2], [d], 0, lb), "normal incidence")
    vf.equal(r._jones_matrix_r[:, 0, 0], -r._jones_matrix_r[:, 1, 1], "s and p are equivalent at normal incidence")


def ob_zero_thickness_layer():
    lb = lbda()
    e0, m0 = mat("eps0", "pos", 1, 2)
    e1, m1 = mat("eps1", "pos", 3, 9)
    e2, m2 = mat("eps2", "complex", 3, 9)
    ang = vf.real("ang", 0, 89.9)
    r = Solver2x2(Experiment(Structure(m0, [Layer(m1, 0)], m2), lb, ang)).calculate()
    compare(r, airy([e0, e2], [], np.sin(ang * np.pi / 180), lb), "zero thickness")


def ob_repeated_layers():
    lb = lbda()
    ang = vf.real("ang", 0, 89.9)
    e, m = zip(*[mat("eps%d" % i, "pos", 2 + i, 3 + i) for i in range(4)])
    d1, d2 = vf.pos("d1", 0.1, 5000), vf.pos("d2", 0.1, 5000)
    s = Structure(m[0], [RepeatedLayers([Layer(m[1], d1), Layer(m[2], d2)], 2)], m[3])
    r = Solver2x2(Experiment(s, lb, ang)).calculate()
    compare(r, airy([e[0], e[1], e[2], e[1], e[2], e[3]], [d1, d2, d1, d2], np.sin(ang * np.pi / 180), lb), "repeated layers")


def power(eps, s):
    c = [sqrt(1 - eps[0] * s ** 2 / e + 0j) for e in eps]
    return np.real(sqrt(eps[-1] + 0j) * c[-1]) / np.real(sqrt(eps[0] + 0j) * c[0])


def ob_power_correction():
    for kinds in (["pos", "pos"], ["pos", "complex", "pos"], ["pos", "pos", "complex"], ["pos", "pos", "pos", "complex"]):
        e, want, eps, ang = stack(kinds)
        w = power(eps, np.sin(ang * np.pi / 180))
        vf.equal(Solver2x2(e).calculate()._power_correction, w, "2x2: exit over entry medium, %d layers, %s exit" % (len(kinds) - 2, kinds[-1]))
        vf.equal(Solver4x4(e, propagator=PropagatorLinear()).calculate()._power_correction, w, "4x4: exit over entry medium, %d layers, %s exit" % (len(kinds) - 2, kinds[-1]))


def ob_no_cross_talk_4x4():
    for nm, p in (("linear", PropagatorLinear()), ("expm", PropagatorExpm()), ("scipy", PropagatorExpm(backend="scipy"))):
        for kinds in (["pos", "pos"], ["pos", "pos", "complex"], ["pos", "complex", "pos", "pos"]):
            e, want, eps, ang = stack(kinds)
            cross(Solver4x4(e, propagator=p).calculate(), "4x4 %s, %d layers" % (nm, len(kinds) - 2))


def ob_no_cross_talk_eig():
    e, want, eps, ang = stack(["pos", "complex"])
    cross(Solver4x4(e, propagator=PropagatorEig()).calculate(), "4x4 eig, no layers")


def ob_4x4_substrate():
    for k in (["pos", "pos"], ["pos", "complex"]):
        e, want, eps, ang = stack(k)
        compare(Solver4x4(e).calculate(), want, "4x4 substrate " + k[-1])


def ob_4x4_one_layer():
    for k in (["pos", "pos", "pos"], ["pos", "complex", "complex"]):
        e, want, eps, ang = stack(k)
        compare(Solver4x4(e).calculate(), want, "4x4 one layer " + k[-1])


def ob_4x4_two_layers():
    e, want, eps, ang = stack(["pos", "pos", "complex", "pos"])
    compare(Solver4x4(e).calculate(), want, "4x4 two layers")


def ob_solver_choice():
    """evaluate() uses the solver asked for"""
    e, want, eps, ang = stack(["pos", "complex", "pos"])
    a = e.evaluate(Solver2x2)
    b = Solver2x2(e).calculate()
    vf.equal(a._jones_matrix_r, b._jones_matrix_r, "Experiment.evaluate(Solver2x2)")
    vf.equal(e.structure.evaluate(e.lbda, ang, solver=Solver2x2)._jones_matrix_t, b._jones_matrix_t, "Structure.evaluate(solver=Solver2x2)")
    c = e.evaluate(propagator=PropagatorLinear())
    d = Solver4x4(e, propagator=PropagatorLinear()).calculate()
    vf.equal(c._jones_matrix_r, d._jones_matrix_r, "Experiment.evaluate(propagator=...)")
    vf.equal(e.structure.evaluate(e.lbda, ang, propagator=PropagatorLinear())._jones_matrix_r, d._jones_matrix_r, "Structure.evaluate(propagator=...)")


def ob_many_layers():
    e, want, eps, ang = stack(["pos", "pos", "complex", "pos", "pos", "pos", "complex", "pos", "pos", "pos", "complex", "pos", "pos", "pos"])
    compare(Solver2x2(e).calculate(), want, "twelve layers")
