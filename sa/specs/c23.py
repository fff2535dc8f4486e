import numpy as np
import vf
import elli
from elli.experiment import Experiment
from elli.structure import Structure
from elli.solver2x2 import Solver2x2
from spec_common import iso, lbda


def exp(vector=None):
    return Experiment(Structure(iso("A"), [], iso("B")), lbda(), vf.real("ang", 0, 89.9), vector)


def stokes(j):
    """Stokes vector of a Jones vector with the handedness V = 2 Im(conj(Ex) Ey)"""
    a, b = j[0], j[1]
    return [np.abs(a) ** 2 + np.abs(b) ** 2, np.abs(a) ** 2 - np.abs(b) ** 2, 2 * np.real(np.conj(a) * b), 2 * np.imag(np.conj(a) * b)]


def same_state(j, S, label):
    """j describes the polarisation S up to intensity and common phase"""
    got = stokes(j)
    for i in range(1, 4):
        vf.equal(got[i] * S[0], got[0] * S[i], label + ", S%d" % i)


def ob_jones_to_stokes():
    a, b = vf.cplx("a", -50, 50), vf.cplx("b", -50, 50)
    e = exp([a, b])
    want = stokes([a, b])
    for i in range(4):
        vf.equal(e.stokes_vector[i], want[i], "S%d of a Jones vector" % i)
    vf.equal(e.jones_vector[0], a, "Jones vector kept, x")
    vf.equal(e.jones_vector[1], b, "Jones vector kept, y")
    vf.equal(vf.shape_of(e.stokes_vector), (4,), "Stokes vector has four elements")


def ob_fully_polarised_stokes():
    """S0 = |(S1, S2, S3)|, anywhere except exactly vertical"""
    u, v, w = vf.real("S1", -1, 1), vf.real("S2", -1, 1), vf.real("S3", -1, 1)
    for sg in (1, -1):
        S = [np.sqrt(u ** 2 + v ** 2 + w ** 2), u, sg * v, w]
        e = exp(S)
        same_state(e.jones_vector, S, "polarised Stokes vector, U %s 0" % (">" if sg > 0 else "<"))
        vf.equal(np.abs(e.jones_vector[0]) ** 2 + np.abs(e.jones_vector[1]) ** 2, 1, "unit intensity, U %s 0" % (">" if sg > 0 else "<"))
        for i in range(4):
            vf.equal(e.stokes_vector[i], S[i], "Stokes vector kept, U %s 0, S%d" % (">" if sg > 0 else "<", i))


def ob_partially_polarised_stokes():
    """the Jones vector is the state of the polarised part"""
    u, v, w, d = vf.real("S1", -1, 1), vf.real("S2", -1, 1), vf.real("S3", -1, 1), vf.pos("d", 0.001, 50)
    p = np.sqrt(u ** 2 + v ** 2 + w ** 2)
    e = exp([p * (1 + d), u, v, w])
    same_state(e.jones_vector, [p, u, v, w], "partially polarised Stokes vector")
    e = exp([2, -1, 0, 0])
    vf.equal(e.jones_vector[0], 0, "partially vertical light, x")
    vf.equal(e.jones_vector[1], 1, "partially vertical light, y")


def ob_round_trip():
    """Jones -> Stokes -> Jones gives the same state"""
    a, b = vf.cplx("a", 0.01, 50), vf.cplx("b", -50, 50)
    e = exp([a, b])
    f = exp(e.stokes_vector)
    x, y = f.jones_vector[0], f.jones_vector[1]
    vf.equal(x * b, y * a, "same ratio of the components")


def ob_named_states():
    h = np.sqrt(0.5)
    for nm, S, J in (("horizontal", [1, 1, 0, 0], [1, 0]), ("vertical", [1, -1, 0, 0], [0, 1]), ("diagonal", [1, 0, 1, 0], [h, h]),
                     ("anti-diagonal", [1, 0, -1, 0], [h, -h]), ("circular +", [1, 0, 0, 1], [h, h * 1j]), ("circular -", [1, 0, 0, -1], [h, -h * 1j]),
                     ("intense vertical", [7, -7, 0, 0], [0, 1]), ("intense diagonal", [3, 0, 3, 0], [h, h])):
        e = exp(S)
        for i in range(2):
            vf.equal(e.jones_vector[i], J[i], nm + " light, component %d" % i)
        e = exp(J)
        for i in range(4):
            vf.equal(e.stokes_vector[i], S[i] / S[0], nm + " light, S%d of the Jones vector" % i)


def ob_default_is_diagonal():
    e = exp()
    h = np.sqrt(0.5)
    for i in range(2):
        vf.equal(e.jones_vector[i], h, "default is diagonal, component %d" % i)
    e.set_vector([1, 0])
    e.set_vector(None)
    for i in range(2):
        vf.equal(e.jones_vector[i], h, "None selects the default, component %d" % i)


def ob_last_vector_wins():
    a, b = vf.cplx("a", -50, 50), vf.cplx("b", -50, 50)
    e = exp([1, -1, 0, 0])
    e.set_vector([a, b])
    want = stokes([a, b])
    for i in range(4):
        vf.equal(e.stokes_vector[i], want[i], "Stokes vector follows, S%d" % i)
    vf.equal(e.jones_vector[0], a, "Jones vector replaced")
    e.set_vector([1, -1, 0, 0])
    vf.equal(e.jones_vector[0], 0, "Jones vector follows")
    vf.equal(e.stokes_vector[1], -1, "Stokes vector replaced")


def ob_wrong_shapes():
    for bad in ([], [1], [1, 0, 0], [1, 0, 0, 0, 0], 1, [[1, 0]], [[1, 0], [0, 1]], [[1], [0]], [[1, 0, 0, 0]]):
        n = str(bad)
        vf.expect_raises(ValueError, "neither Jones nor Stokes vector: " + n, exp, bad)
        e = exp([1, -1, 0, 0])
        vf.expect_raises(ValueError, "rejected when set later: " + n, e.set_vector, bad)


def ob_rejected_leaves_state():
    e = exp([1, -1, 0, 0])
    try:
        e.set_vector([1, 0, 0])
    except ValueError:
        pass
    vf.equal(e.jones_vector[0], 0, "Jones vector unchanged by a rejected vector, x")
    vf.equal(e.jones_vector[1], 1, "Jones vector unchanged by a rejected vector, y")
    vf.equal(e.stokes_vector[1], -1, "Stokes vector unchanged by a rejected vector")


def ob_inputs_kept():
    v = np.array([vf.cplx("a", -50, 50), vf.cplx("b", -50, 50)])
    e = exp()
    vf.frozen("the given Jones vector is only read", [v], e.set_vector, v)
    s = np.array([1.0, 0.6, 0.8, 0])
    vf.frozen("the given Stokes vector is only read", [s], e.set_vector, s)


def ob_used_by_result():
    """the state an experiment was given is the one its result uses"""
    a, b = vf.cplx("a", 0.01, 50), vf.cplx("b", 0.01, 50)
    r = Solver2x2(exp([a, b])).calculate()
    j = r._jones_matrix_r
    vf.equal(r.rho, j[:, 0, 0] * a / (j[:, 1, 1] * b), "rho of an isotropic sample scales with the incident ratio")
