import numpy as np
import scipy.linalg
import vf
from numpy.lib.scimath import sqrt
import elli
from elli.solver4x4 import Solver4x4, Propagator, PropagatorLinear, PropagatorExpm, PropagatorEig
from elli.structure import Structure, Layer
from elli.materials import IsotropicMaterial
from elli.experiment import Experiment
from spec_common import SymMat, SymDisp, iso, lbda

n_ = vf.size("N")


def kx():
    return vf.arr("kx", (n_,), "complex", 0.01, 3)


def tensor(name="eps"):
    return vf.arr(name, (n_, 3, 3), "complex", 0.1, 30)


def iso_tensor(name="e"):
    e = vf.arr(name, (n_,), "complex", 0.1, 60)
    eps = np.zeros((n_, 3, 3), dtype=np.complex128)
    for i in range(3):
        eps[:, i, i] = e
    return eps


def generic_delta():
    return vf.arr("D", (n_, 4, 4), "complex", -2, 2)


def pair_delta():
    """fully symbolic pattern of an isotropic layer"""
    d = np.zeros((n_, 4, 4), dtype=np.complex128)
    for i, j in ((0, 3), (3, 0), (1, 2), (2, 1)):
        d[:, i, j] = vf.arr("D%d%d" % (i, j), (n_,), "complex", -2, 2)
    return d


def diag_delta():
    d = np.zeros((n_, 4, 4), dtype=np.complex128)
    for i in range(4):
        d[:, i, i] = vf.arr("D%d" % i, (n_,), "complex", -2, 2)
    return d


def known_delta():
    """known, distinct propagation constants"""
    d = np.zeros((n_, 4, 4), dtype=np.complex128)
    d[:, 0, 0] = 3
    d[:, 1, 1] = -2 + 1j
    d[:, 2, 2] = 1 - 1j
    d[:, 3, 3] = -5
    return d


def berreman(k, eps):
    """Berreman's matrix by eliminating Ez and Hz from Maxwell's equations, field vector (Ex, Ey, Hx, Hy), kx along x"""
    zz = eps[:, 2, 2]
    # Ez = -(kx Hy + ezx Ex + ezy Ey)/ezz, Hz = kx Ey, d/dz (Ex, Ey, Hx, Hy) = i k0 Delta
    ez = [-eps[:, 2, 0] / zz, -eps[:, 2, 1] / zz, 0 * zz, -k / zz]
    hz = [0 * zz, k + 0 * zz, 0 * zz, 0 * zz]
    one = [[0 * zz + (1 if i == j else 0) for j in range(4)] for i in range(4)]
    Ex, Ey, Hx, Hy = one
    Dx = [eps[:, 0, 0] * Ex[c] + eps[:, 0, 1] * Ey[c] + eps[:, 0, 2] * ez[c] for c in range(4)]
    Dy = [eps[:, 1, 0] * Ex[c] + eps[:, 1, 1] * Ey[c] + eps[:, 1, 2] * ez[c] for c in range(4)]
    return [[Hy[c] + k * ez[c] for c in range(4)],
            [-Hx[c] for c in range(4)],
            [-Dy[c] + k * hz[c] for c in range(4)],
            [Dx[c] for c in range(4)]]


def ob_berreman_general():
    k, eps = kx(), tensor()
    d = Solver4x4.build_delta_matrix(k, eps)
    want = berreman(k, eps)
    for i in range(4):
        for j in range(4):
            vf.equal(d[:, i, j], want[i][j], "infinitesimal matrix element %d%d" % (i, j))


def ob_berreman_inputs_kept():
    k, eps = kx(), tensor()
    vf.frozen("k_x and the tensor are only read", [k, eps], Solver4x4.build_delta_matrix, k, eps)


def ob_iso_halfspace_inverse():
    k, eps = kx(), iso_tensor()
    a = Solver4x4.transition_matrix_iso_halfspace(k, eps)
    b = Solver4x4.transition_matrix_iso_halfspace(k, eps, inv=True)
    p, q = a @ b, b @ a
    for i in range(4):
        for j in range(4):
            vf.equal(p[:, i, j], np.ones(n_) * (1 if i == j else 0), "L @ inv(L) element %d%d" % (i, j))
            vf.equal(q[:, i, j], np.ones(n_) * (1 if i == j else 0), "inv(L) @ L element %d%d" % (i, j))


def ob_iso_halfspace_modes():
    """columns are (s+, s-, p+, p-) plane waves of the medium, normalised to unit electric field for s and n for p"""
    k, eps = kx(), iso_tensor()
    L = Solver4x4.transition_matrix_iso_halfspace(k, eps)
    D = Solver4x4.build_delta_matrix(k, eps)
    e = eps[:, 0, 0]
    n = sqrt(e)
    c = sqrt(1 - (k / n) ** 2)
    DL = D @ L
    for col, sg, nm in ((0, 1, "s+"), (1, -1, "s-"), (2, 1, "p+"), (3, -1, "p-")):
        for i in range(4):
            vf.equal(DL[:, i, col], sg * n * c * L[:, i, col], "mode %s is an eigenvector, component %d" % (nm, i))
    vf.equal(L[:, 1, 0], np.ones(n_), "s+ has unit Ey")
    vf.equal(L[:, 1, 1], np.ones(n_), "s- has unit Ey")
    vf.equal(L[:, 0, 2], c, "p+ has Ex = cos")
    vf.equal(L[:, 0, 3], -c, "p- has Ex = -cos")


def propagators():
    return [("linear", PropagatorLinear()), ("expm automatic", PropagatorExpm()), ("expm scipy", PropagatorExpm(backend="scipy")), ("eig", PropagatorEig())]


def ob_identity_at_zero_thickness():
    lb = lbda()
    for nm, p in propagators():
        for what, d in (("any", generic_delta()), ("isotropic", pair_delta())):
            if nm == "eig" and what == "any":
                continue
            m = p.calculate_propagation(d, 0, lb)
            for i in range(4):
                for j in range(4):
                    vf.equal(m[:, i, j], np.ones(n_) * (1 if i == j else 0), "%s: zero thickness is the identity for %s layer, %d%d" % (nm, what, i, j))


def ob_identity_at_zero_thickness_eig():
    """w diag(1) inv(w) = 1 for any eigenvectors"""
    lb = lbda()
    m = PropagatorEig().calculate_propagation(known_delta(), 0, lb)
    for i in range(4):
        for j in range(4):
            vf.equal(m[:, i, j], np.ones(n_) * (1 if i == j else 0), "eig: zero thickness, %d%d" % (i, j))


def ob_exponent():
    lb = lbda()
    t = vf.real("t", -5000, 5000)
    phase = 2j * np.pi * t / lb
    d = generic_delta()
    m = PropagatorLinear().calculate_propagation(d, t, lb)
    for i in range(4):
        for j in range(4):
            vf.equal(m[:, i, j], (1 if i == j else 0) + phase * d[:, i, j], "linear: first order of the exponential, %d%d" % (i, j))
    d = diag_delta()
    for nm, p in propagators()[1:3]:
        m = p.calculate_propagation(d, t, lb)
        for i in range(4):
            for j in range(4):
                vf.equal(m[:, i, j], np.exp(phase * d[:, i, i]) if i == j else np.zeros(n_), "%s: exponential of i k0 d Delta, %d%d" % (nm, i, j))
    d = known_delta()
    for nm, p in propagators()[1:]:
        m = p.calculate_propagation(d, t, lb)
        for i in range(4):
            for j in range(4):
                vf.equal(m[:, i, j], np.exp(phase * d[:, i, i]) if i == j else np.zeros(n_), "%s: known propagation constants, %d%d" % (nm, i, j))


def ob_exponent_coupled():
    """exponential of a layer with coupled field pairs, and inverse for the opposite thickness"""
    lb = lbda()
    t = vf.real("t", -5000, 5000)
    phase = 2j * np.pi * t / lb
    d = pair_delta()
    for nm, p in propagators()[1:3]:
        m = p.calculate_propagation(d, t, lb)
        for i, j in ((0, 3), (1, 2)):
            w = sqrt(d[:, i, j] * d[:, j, i])
            vf.equal(m[:, i, i], np.cosh(phase * w), "%s: diagonal %d" % (nm, i))
            vf.equal(m[:, j, j], np.cosh(phase * w), "%s: diagonal %d" % (nm, j))
            vf.equal(m[:, i, j], d[:, i, j] * np.sinh(phase * w) / w, "%s: coupling %d%d" % (nm, i, j))
            vf.equal(m[:, j, i], d[:, j, i] * np.sinh(phase * w) / w, "%s: coupling %d%d" % (nm, j, i))


def ob_opposite_thickness():
    lb = lbda()
    t = vf.real("t", -5000, 5000)
    d = generic_delta()
    p = PropagatorLinear()
    s = p.calculate_propagation(d, t, lb) + p.calculate_propagation(d, -t, lb)
    for i in range(4):
        for j in range(4):
            vf.equal(s[:, i, j], np.ones(n_) * (2 if i == j else 0), "linear: opposite thicknesses cancel to first order, %d%d" % (i, j))
    for nm, p in propagators()[1:]:
        d = known_delta()
        q = p.calculate_propagation(d, t, lb) @ p.calculate_propagation(d, -t, lb)
        for i in range(4):
            vf.equal(q[:, i, i], np.ones(n_), "%s: opposite thicknesses cancel, %d" % (nm, i))


def ob_propagation_inputs_kept():
    lb = lbda()
    t = vf.real("t", -5000, 5000)
    for nm, p in propagators():
        d = known_delta()
        vf.frozen("%s: Delta and wavelengths are only read" % nm, [d, lb, p], p.calculate_propagation, d, t, lb)


def ob_backends():
    vf.expect_raises(ValueError, "unknown backend refused", PropagatorExpm, "numpy")
    vf.accepted("torch backend", PropagatorExpm, "torch")
    vf.accepted("scipy backend", PropagatorExpm, "scipy")


class Rec(Propagator):
    """symbolic propagator: a matrix of unknown functions of the layer's Delta matrix and thickness"""

    def calculate_propagation(self, delta, thickness, lbda):
        m = np.zeros((lbda.shape[0], 4, 4), dtype=np.complex128)
        for i in range(4):
            for j in range(4):
                m[:, i, j] = vf.app("P%d%d" % (i, j), delta[:, 3, 0], thickness, lbda)
        return m


def ob_layer_order():
    """m = inv(L_front) P1(-d1) P2(-d2) L_back"""
    lb = lbda()
    ang = vf.real("ang", 0, 89.9)
    d1, d2 = vf.pos("d1", 0.1, 5000), vf.pos("d2", 0.1, 5000)
    f, a, b, g = iso("F"), SymMat("A"), SymMat("B"), iso("G")
    s = Structure(f, [Layer(a, d1), Layer(b, d2)], g)
    r = Solver4x4(Experiment(s, lb, ang), propagator=Rec()).calculate()
    k = f.get_refractive_index(lb)[:, 0, 0] * np.sin(ang * np.pi / 180)
    p = Rec()
    m1 = p.calculate_propagation(Solver4x4.build_delta_matrix(k, a.get_tensor(lb)), -d1, lb)
    m2 = p.calculate_propagation(Solver4x4.build_delta_matrix(k, b.get_tensor(lb)), -d2, lb)
    m = Solver4x4.transition_matrix_iso_halfspace(k, f.get_tensor(lb), inv=True) @ m1 @ m2 @ Solver4x4.transition_matrix_iso_halfspace(k, g.get_tensor(lb))
    check_amplitudes(r, m)


def check_amplitudes(r, m):
    """(s+, s-, p+, p-)_front = m (s+, 0, p+, 0)_back"""
    ss, sp, ps, pp = m[:, 0, 0], m[:, 0, 2], m[:, 2, 0], m[:, 2, 2]
    det = ss * pp - sp * ps
    t = [[ss / det, -ps / det], [-sp / det, pp / det]]          # (p, s) x (p, s)
    for i in range(2):
        for j in range(2):
            vf.equal(r._jones_matrix_t[:, i, j], t[i][j], "transmitted amplitude %d%d" % (i, j))
    rows = [3, 1]
    for i in range(2):
        for j in range(2):
            vf.equal(r._jones_matrix_r[:, i, j], m[:, rows[i], 2] * t[0][j] + m[:, rows[i], 0] * t[1][j], "reflected amplitude %d%d" % (i, j))


def ob_no_layers():
    lb = lbda()
    ang = vf.real("ang", 0, 89.9)
    f, g = iso("F"), iso("G")
    r = Solver4x4(Experiment(Structure(f, [], g), lb, ang), propagator=Rec()).calculate()
    k = f.get_refractive_index(lb)[:, 0, 0] * np.sin(ang * np.pi / 180)
    m = Solver4x4.transition_matrix_iso_halfspace(k, f.get_tensor(lb), inv=True) @ Solver4x4.transition_matrix_iso_halfspace(k, g.get_tensor(lb))
    check_amplitudes(r, m)


def cross(v, w, i, j):
    return v[:, i] * w[:, j] - v[:, j] * w[:, i]


def halfspace(name, diag, k):
    eps = np.zeros((n_, 3, 3), dtype=np.complex128)
    for i in range(3):
        eps[:, i, i] = diag[i]
    return Solver4x4.build_delta_matrix(k, eps)


def ob_general_halfspace():
    """every column is an eigenvector; forward and backward, s-like and p-like modes sit in their columns"""
    zero = np.zeros(n_)
    k1 = np.ones(n_) * 0.5
    cases = (("uniaxial", (4, 9, 4), zero), ("biaxial", (9, 4, 2.25), zero), ("oblique", (4, 9, 4), k1), ("absorbing", (4 + 1j, 9 + 2j, 4), k1), ("metal", (-9 + 1j, -4 + 0.5j, -9), k1))
    for nm, diag, k in cases:
        D = halfspace(nm, diag, k)
        p = Solver4x4.transition_matrix_halfspace(D)
        Dp = D @ p
        q2 = {"s": diag[1] - k ** 2, "p": diag[0] * (1 - k ** 2 / diag[2])}
        for c, pol, sg in ((0, "s", 1), (1, "s", -1), (2, "p", 1), (3, "p", -1)):
            q = sg * sqrt(q2[pol] + 0j)
            for i in range(4):
                vf.equal(Dp[:, i, c], q * p[:, i, c], "%s: column %d is the %s wave travelling %s, component %d" % (nm, c, pol, "forward" if sg > 0 else "backward", i))
            vf.check(np.any(np.abs(p[:, :, c]) > 0), "%s: column %d is not zero" % (nm, c))


def ob_general_halfspace_unresolved():
    """whatever the eigenvectors are, columns are multiples of eigenvectors"""
    D = generic_delta()
    vf.frozen("Delta is only read", [D], Solver4x4.transition_matrix_halfspace, D)


def ob_anisotropic_exit():
    """a structure on an anisotropic substrate uses the general exit matrix of that substrate"""
    lb = lbda()
    ang = vf.real("ang", 0, 89.9)
    f, g = iso("F"), SymMat("G")

    class S(Solver4x4):
        @staticmethod
        def transition_matrix_halfspace(delta):
            m = np.zeros((delta.shape[0], 4, 4), dtype=np.complex128)
            for i in range(4):
                for j in range(4):
                    m[:, i, j] = vf.app("L%d%d" % (i, j), delta[:, 3, 0], delta[:, 0, 3])
            return m
    r = S(Experiment(Structure(f, [], g), lb, ang), propagator=Rec()).calculate()
    k = f.get_refractive_index(lb)[:, 0, 0] * np.sin(ang * np.pi / 180)
    m = Solver4x4.transition_matrix_iso_halfspace(k, f.get_tensor(lb), inv=True) @ S.transition_matrix_halfspace(Solver4x4.build_delta_matrix(k, g.get_tensor(lb)))
    check_amplitudes(r, m)
