import numpy as np
import pandas as pd
import vf
from numpy.lib.scimath import sqrt
import elli
from elli.utils import calc_rho, calc_pseudo_diel, convert_psi_delta_to_isotropic_mueller_matrix
from elli.result import Result
from spec_common import result, lbda, Exp


def rho_matrix(r):
    return r._jones_matrix_r / r._jones_matrix_r[:, 1, 1][:, None, None]


def ob_matrix_relation():
    r = result()
    vf.equal(np.tan(np.deg2rad(r.psi_matrix)) * np.exp(-1j * np.deg2rad(r.delta_matrix)), rho_matrix(r), "rho_matrix = tan(psi_matrix) exp(-i delta_matrix)")
    rt = r._jones_matrix_t / r._jones_matrix_t[:, 1, 1][:, None, None]
    vf.equal(np.tan(np.deg2rad(r.psi_matrix_t)) * np.exp(-1j * np.deg2rad(r.delta_matrix_t)), rt, "rho_matrix_t = tan(psi_matrix_t) exp(-i delta_matrix_t)")


def ob_vector_relation():
    r = result()
    v = np.dot(rho_matrix(r), r.experiment.jones_vector)
    rho = v[:, 0] / v[:, 1]
    vf.equal(r.rho, rho, "rho is the ratio of the reflected field components")
    vf.equal(np.tan(np.deg2rad(r.psi)) * np.exp(-1j * np.deg2rad(r.delta)), rho, "rho = tan(psi) exp(-i delta)")
    m = r._jones_matrix_t / r._jones_matrix_t[:, 1, 1][:, None, None]
    v = np.dot(m, r.experiment.jones_vector)
    rho = v[:, 0] / v[:, 1]
    vf.equal(r.rho_t, rho, "rho_t is the ratio of the transmitted field components")
    vf.equal(np.tan(np.deg2rad(r.psi_t)) * np.exp(-1j * np.deg2rad(r.delta_t)), rho, "rho_t = tan(psi_t) exp(-i delta_t)")


def ob_rho_independent_of_scale():
    """rho does not depend on the intensity or phase of the incident light"""
    e = vf.arr("jv", (2,), "complex", -2, 2)
    c = vf.cplx("c")
    a, b = result("", e), result("", c * e)
    vf.equal(b.rho, a.rho, "scaling the Jones vector leaves rho")
    vf.equal(b.rho_matrix, a.rho_matrix, "scaling the Jones vector leaves rho_matrix")


def ob_intensity():
    r = result()
    jr, jt, pw = r._jones_matrix_r, r._jones_matrix_t, r._power_correction
    for i in range(2):
        for j in range(2):
            vf.equal(r.R_matrix[:, i, j], np.abs(jr[:, i, j]) ** 2, "R[%d%d] is the squared amplitude" % (i, j))
            vf.equal(r.T_matrix[:, i, j], np.abs(jt[:, i, j]) ** 2 * pw, "T[%d%d] carries the power correction once" % (i, j))
            vf.equal(r.Rc_matrix[:, i, j], np.abs(r.jones_matrix_rc[:, i, j]) ** 2, "Rc[%d%d]" % (i, j))
            vf.equal(r.Tc_matrix[:, i, j], np.abs(r.jones_matrix_tc[:, i, j]) ** 2 * pw, "Tc[%d%d]" % (i, j))
    vf.equal(r.R, (np.abs(jr[:, 0, 0]) ** 2 + np.abs(jr[:, 1, 1]) ** 2) / 2, "R for unpolarised light")
    vf.equal(r.T, (np.abs(jt[:, 0, 0]) ** 2 + np.abs(jt[:, 1, 1]) ** 2) * pw / 2, "T for unpolarised light")


def ob_default_power_correction():
    lb = lbda()
    jr, jt = vf.arr("Jr", (vf.size("N"), 2, 2), "complex", -2, 2), vf.arr("Jt", (vf.size("N"), 2, 2), "complex", -2, 2)
    r = Result(Exp(lb, np.array([1, 1])), jr, jt)
    vf.equal(r.T_matrix[:, 0, 1], np.abs(jt[:, 0, 1]) ** 2, "without power correction the transmittance is the squared amplitude")
    r = Result(Exp(vf.arr("li", (vf.size("N"),), "posint", 10, 30000), np.array([1, 1])), jr, jt)
    vf.equal(r.T_matrix[:, 1, 1], np.abs(jt[:, 1, 1]) ** 2, "also for integer wavelengths")


def ob_circular_reflection():
    r = result()
    j = r._jones_matrix_r
    pp, ps, sp, ss = j[:, 0, 0], j[:, 0, 1], j[:, 1, 0], j[:, 1, 1]
    # incoming basis e_L/R = (p -+ i s)/sqrt2 in the source's convention: columns (1, i), (1, -i); reflected basis (-1, -i), (-1, i)
    rc = r.jones_matrix_rc
    want = {(0, 0): -(pp + 1j * ps - 1j * sp + ss) / 2, (0, 1): -(pp - 1j * ps - 1j * sp - ss) / 2,
            (1, 0): -(pp + 1j * ps + 1j * sp - ss) / 2, (1, 1): -(pp - 1j * ps + 1j * sp + ss) / 2}
    for k in want:
        vf.equal(rc[:, k[0], k[1]], want[k], "circular reflection %d%d" % k)


def ob_circular_transmission():
    r = result()
    j = r._jones_matrix_t
    pp, ps, sp, ss = j[:, 0, 0], j[:, 0, 1], j[:, 1, 0], j[:, 1, 1]
    tc = r.jones_matrix_tc
    want = {(0, 0): (pp + 1j * ps - 1j * sp + ss) / 2, (0, 1): (pp - 1j * ps - 1j * sp - ss) / 2,
            (1, 0): (pp + 1j * ps + 1j * sp - ss) / 2, (1, 1): (pp - 1j * ps + 1j * sp + ss) / 2}
    for k in want:
        vf.equal(tc[:, k[0], k[1]], want[k], "circular transmission %d%d" % k)


def ob_mueller_general():
    """elements of the Mueller matrix of a Jones matrix, normalised to M11"""
    r = result()
    m = r.mueller_matrix
    j = r._jones_matrix_r
    a, b, c, d = j[:, 0, 0], j[:, 0, 1], j[:, 1, 0], j[:, 1, 1]
    cj = np.conjugate
    A, B, C, D = np.abs(a) ** 2, np.abs(b) ** 2, np.abs(c) ** 2, np.abs(d) ** 2
    n = (A + B + C + D) / 2
    want = [[(A + B + C + D) / 2, (A - B + C - D) / 2, np.real(a * cj(b) + c * cj(d)), -np.imag(a * cj(b) + c * cj(d))],
            [(A + B - C - D) / 2, (A - B - C + D) / 2, np.real(a * cj(b) - c * cj(d)), -np.imag(a * cj(b) - c * cj(d))],
            [np.real(a * cj(c) + b * cj(d)), np.real(a * cj(c) - b * cj(d)), np.real(a * cj(d) + b * cj(c)), -np.imag(a * cj(d) - b * cj(c))],
            [np.imag(a * cj(c) + b * cj(d)), np.imag(a * cj(c) - b * cj(d)), np.imag(a * cj(d) + b * cj(c)), np.real(a * cj(d) - b * cj(c))]]
    for i in range(4):
        for k in range(4):
            vf.equal(m[:, i, k], want[i][k] / n, "Mueller element %d%d" % (i + 1, k + 1))


def ob_mueller_isotropic():
    """N, C, S form for a diagonal Jones matrix"""
    lb = lbda()
    rp, rs = vf.arr("rp", (vf.size("N"),), "complex", -2, 2), vf.arr("rs", (vf.size("N"),), "complex", -2, 2)
    J = np.zeros((lb.shape[0], 2, 2), dtype=complex)
    J[:, 0, 0] = rp
    J[:, 1, 1] = rs
    r = Result(Exp(lb, np.array([1, 1])), J, J)
    psi, delta = np.deg2rad(r.psi), np.deg2rad(r.delta)
    N, C, S = np.cos(2 * psi), np.sin(2 * psi) * np.cos(delta), np.sin(2 * psi) * np.sin(delta)
    o, l = 0 * N, 0 * N + 1
    want = [[l, -N, o, o], [-N, l, o, o], [o, o, C, S], [o, o, -S, C]]
    for i in range(4):
        for k in range(4):
            vf.equal(r.mueller_matrix[:, i, k], want[i][k], "NCS element %d%d" % (i + 1, k + 1))


def ob_pseudo_dielectric():
    """Fresnel reflection of a bare substrate gives back the substrate"""
    ang = vf.real("ang", 0, 89.9)
    eps = vf.cplx("eps", 0.1, 100)
    th = np.deg2rad(ang)
    q = sqrt(eps - np.sin(th) ** 2)
    rp = (eps * np.cos(th) - q) / (eps * np.cos(th) + q)
    rs = (np.cos(th) - q) / (np.cos(th) + q)
    vf.equal(calc_pseudo_diel(rp / rs, ang, output="epsi"), eps, "pseudo dielectric function of a bare substrate")
