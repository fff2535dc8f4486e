import numpy as np
import vf
import elli
from elli import utils
from elli.structure import Structure, Layer, TwistedLayer
from elli.solver2x2 import Solver2x2
from elli.solver4x4 import Solver4x4, PropagatorLinear
from elli.materials import IsotropicMaterial, BiaxialMaterial, UniaxialMaterial
from elli.experiment import Experiment
from elli.dispersions import PseudoDielectricFunction
from numpy.lib.scimath import sqrt
from spec_common import SymDisp, SymMat, lbda, result
from spec_c12 import mat, airy

RAD = np.pi / 180


def amplitudes(theta, solver, layers=1):
    lb = lbda()
    stack = [mat("e%d" % i) for i in range(layers + 2)]
    d = [vf.real("d%d" % i, 0.1, 5000) for i in range(layers)]
    s = Structure(stack[0][1], [Layer(stack[i + 1][1], d[i]) for i in range(layers)], stack[-1][1])
    kw = {"propagator": PropagatorLinear()} if solver is Solver4x4 else {}
    return s.evaluate(lb, theta, solver=solver, **kw), [e for e, m in stack], d


def agree(r, want, label):
    for pol in want:
        R, T = want[pol]
        vf.equal(getattr(r, "r_" + 2 * pol), R, "%s: r_%s" % (label, pol))
        vf.equal(getattr(r, "t_" + 2 * pol), T, "%s: t_%s" % (label, pol))


def ob_incident_angle():
    """refraction in every layer follows n sin(theta) with theta in degrees"""
    th = vf.real("th", 0, 89.9)
    for solver in (Solver2x2, Solver4x4):
        n = 0 if solver is Solver4x4 else 2
        r, eps, d = amplitudes(th, solver, n)
        want = airy(eps, d, np.sin(th * RAD), lbda())
        agree(r, want, vf.class_name(solver) + " at the incident angle")
    # experiment given directly, and re-set afterwards
    for solver in (Solver2x2,):
        lb = lbda()
        (e0, m0), (e1, m1) = mat("a"), mat("b")
        ex = Experiment(Structure(m0, [], m1), lb, 10)
        ex.set_theta(th)
        want = airy([e0, e1], [], np.sin(th * RAD), lb)
        r = ex.evaluate(solver)
        agree(r, want, "angle set later")
        vf.equal(r.experiment.theta_i, th, "the recorded incident angle is in degrees")
        vf.equal(ex.theta_i, th, "evaluating leaves the angle alone")


def ob_named_incident_angles():
    """0, 30, 45 and 60 degrees have known sines"""
    for th, s2 in ((0, 0), (30, 0.25), (45, 0.5), (60, 0.75), (60.0, 0.75)):
        r, eps, d = amplitudes(th, Solver2x2, 1)
        want = airy(eps, d, sqrt(s2), lbda())
        agree(r, want, "at %s degrees" % th)


def ob_snell_list():
    th = vf.real("th", 0, 89.9)
    lb = lbda()
    (e0, m0), (e1, m1), (e2, m2) = mat("a"), mat("b"), mat("c")
    s = Solver2x2(Experiment(Structure(m0, [Layer(m1, 10)], m2), lb, th))
    vf.equal(s.theta_i, th, "the solver keeps the angle in degrees")
    vf.equal(s.experiment.theta_i, th, "the solver's experiment keeps the angle in degrees")


def ob_reduced_wavenumber():
    """the 4x4 method conserves n sin(theta) in every layer"""
    th = vf.real("th", 0, 89.9)
    lb = lbda()
    e0, m0 = mat("a")
    l, b = SymMat("L"), SymMat("B")
    d = vf.real("d", 0.1, 50)
    r = Structure(m0, [Layer(l, d)], mat("b")[1]).evaluate(lb, th, solver=Solver4x4, propagator=PropagatorLinear())
    eb = mat("b")[0]
    kx = sqrt(e0 + 0j) * np.sin(th * RAD)
    def full(e):
        t = np.zeros((lb.shape[0], 3, 3), dtype=complex)
        for i in range(3):
            t[:, i, i] = e
        return t
    m = Solver4x4.transition_matrix_iso_halfspace(kx, full(eb))
    m = PropagatorLinear().calculate_propagation(Solver4x4.build_delta_matrix(kx, l.get_tensor(lb)), -d, lb) @ m
    m = Solver4x4.transition_matrix_iso_halfspace(kx, full(e0), inv=True) @ m
    # column s: only s leaves
    det = m[:, 2, 2] * m[:, 0, 0] - m[:, 2, 0] * m[:, 0, 2]
    vf.equal(r.t_pp * det, m[:, 0, 0], "t_pp follows the reduced wavenumber of the incident angle")
    vf.equal(r.t_ss * det, m[:, 2, 2], "t_ss follows the reduced wavenumber of the incident angle")


def close(a, b, label):
    vf.equal(a, b, label)


def ob_rotations():
    a, b, c = vf.real("a", -400, 400), vf.real("b", -400, 400), vf.real("c", -400, 400)
    r = a * RAD
    z = utils.rotation_v_theta(utils.E_Z, a)
    vf.equal(z, np.array([[np.cos(r), -np.sin(r), 0], [np.sin(r), np.cos(r), 0], [0, 0, 1]]), "rotation about z by degrees")
    x = utils.rotation_v_theta(utils.E_X, a)
    vf.equal(x, np.array([[1, 0, 0], [0, np.cos(r), -np.sin(r)], [0, np.sin(r), np.cos(r)]]), "rotation about x by degrees")
    y = utils.rotation_v_theta(utils.E_Y, a)
    vf.equal(y, np.array([[np.cos(r), 0, np.sin(r)], [0, 1, 0], [-np.sin(r), 0, np.cos(r)]]), "rotation about y by degrees")
    e = utils.rotation_euler(a, b, c)
    def rz(t):
        t = t * RAD
        return np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])
    def rx(t):
        t = t * RAD
        return np.array([[1, 0, 0], [0, np.cos(t), -np.sin(t)], [0, np.sin(t), np.cos(t)]])
    vf.equal(e, rz(a) @ rx(b) @ rz(c), "Euler angles in degrees")
    vf.equal(utils.rotation_euler(a, 0, 0), rz(a), "precession only")
    vf.equal(utils.rotation_euler(0, b, 0), rx(b), "nutation only")
    vf.equal(utils.rotation_euler(0, 0, c), rz(c), "third angle only")


def ob_twist():
    for n in (1, 2, 3):
        lb = lbda()
        m = SymMat("m")
        ang = vf.real("ang", -400, 400)
        d = vf.real("d", 1, 5000)
        prof = TwistedLayer(m, d, n, ang).get_permittivity_profile(lb)
        for i in range(n):
            t = ang * (2 * i + 1) / (2 * n) * RAD
            R = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])
            vf.equal(prof[i][1], R @ m.get_tensor(lb) @ R.T, "twist of slice %d of %d, angle in degrees" % (i, n))
    l = TwistedLayer(SymMat("m"), 10, 2, 30)
    l.set_angle(vf.real("ang", -400, 400))
    vf.equal(l.angle, vf.real("ang", -400, 400), "the twist angle is kept in degrees")


def ob_psi_delta():
    """psi and delta of a result are degrees"""
    for tag in ("", "2"):
        r = result(tag)
        for s in ("", "_t"):
            rho, psi, delta = getattr(r, "rho" + s), getattr(r, "psi" + s), getattr(r, "delta" + s)
            vf.equal(np.tan(psi * RAD), np.abs(rho), "tan(psi%s) in degrees is |rho|" % s)
            vf.equal(np.tan(psi * RAD) * np.exp(-1j * delta * RAD), rho, "tan(psi%s) exp(-i delta) in degrees is rho" % s)
        for s in ("", "_t"):
            rho, psi, delta = getattr(r, "rho_matrix" + s), getattr(r, "psi_matrix" + s), getattr(r, "delta_matrix" + s)
            vf.equal(np.tan(psi * RAD) * np.exp(-1j * delta * RAD), rho, "psi_matrix%s and delta_matrix%s in degrees" % (s, s))
        for k in ("pp", "sp", "ps", "ss"):
            vf.equal(getattr(r, "psi_" + k), np.arctan(np.abs(getattr(r, "rho_" + k))) / RAD, "psi_%s is in degrees" % k)
            vf.equal(np.exp(-1j * getattr(r, "delta_" + k) * RAD), np.exp(1j * np.angle(getattr(r, "rho_" + k))), "delta_%s is in degrees" % k)


def ob_pseudo():
    n = 4
    x = vf.arr("x", (n,), "pos", 10, 30000)
    psi, delta = vf.arr("psi", (n,), "real", 0.1, 89.9), vf.arr("delta", (n,), "real", -180, 360)
    a = vf.real("ang", 0, 89.9)
    d = PseudoDielectricFunction(angle=a, lbda=x, psi=psi, delta=delta)
    e = PseudoDielectricFunction(angle=a + 360, lbda=x, psi=psi, delta=delta + 360)
    lb = lbda()
    vf.equal(d.dielectric_function(lb), e.dielectric_function(lb), "pseudo dielectric function has period 360 degrees")


def ob_periods():
    """a full turn is 360 degrees"""
    a, b, c = vf.real("a", -400, 400), vf.real("b", -400, 400), vf.real("c", -400, 400)
    v = [vf.real("v0"), vf.real("v1"), vf.real("v2")]
    vf.equal(utils.rotation_v_theta(v, a + 360), utils.rotation_v_theta(v, a), "rotation_v_theta has period 360 degrees")
    vf.equal(utils.rotation_euler(a + 360, b, c), utils.rotation_euler(a, b, c), "rotation_euler p")
    vf.equal(utils.rotation_euler(a, b + 360, c), utils.rotation_euler(a, b, c), "rotation_euler n")
    vf.equal(utils.rotation_euler(a, b, c - 360), utils.rotation_euler(a, b, c), "rotation_euler r")
    th = vf.real("th", 0, 89.9)
    r, _, _ = amplitudes(th, Solver2x2, 1)
    q, _, _ = amplitudes(360 + th, Solver2x2, 1)
    for k in ("r_pp", "r_ss", "t_pp", "t_ss"):
        vf.equal(getattr(r, k), getattr(q, k), "2x2 incident angle has period 360 degrees: " + k)
