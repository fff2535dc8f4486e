import numpy as np
import vf
import elli
from elli.result import Result
from elli.experiment import Experiment
from elli.solver2x2 import Solver2x2
from elli.solver4x4 import Solver4x4, PropagatorLinear, PropagatorExpm, PropagatorEig
from elli.structure import Structure, Layer, RepeatedLayers, TwistedLayer, VaryingMixtureLayer
from elli.materials import IsotropicMaterial, UniaxialMaterial, VCAMaterial, BruggemanEMA
from elli.utils import rotation_euler
from spec_common import SymDisp, SymIndex, iso, lbda

NAMES = ["rho", "psi", "delta", "rho_t", "psi_t", "delta_t", "R", "T", "mueller_matrix", "jones_matrix_r", "jones_matrix_t", "jones_matrix_rc", "R_matrix", "T_matrix", "delta_matrix", "Tc_matrix"]


def cauchy(a):
    return elli.Cauchy(n0=vf.pos("n0" + a, 0.2, 6), n1=vf.pos("n1" + a, 0.01, 300))


def solvers(aniso=False):
    out = [("4x4 linear", Solver4x4, {"propagator": PropagatorLinear()}), ("4x4", Solver4x4, {})]
    if not aniso:
        out.append(("2x2", Solver2x2, {}))
    return out


class World:
    def __init__(self, kind):
        self.lb = lbda()
        self.ang = vf.real("ang", 0, 89.9)
        self.d = [cauchy("a"), cauchy("b"), cauchy("c")]
        a, b, c = [x.get_mat() for x in self.d]
        self.mats = [a, b, c]
        self.layer = Layer(b, vf.pos("t", 0.1, 5000))
        self.extra = Layer(c, vf.pos("u", 0.1, 5000))
        self.layers = [self.layer]
        if kind == "repeated":
            self.rep = RepeatedLayers([self.layer, self.extra], 2)
            self.layers = [self.rep]
        self.structure = Structure(a, self.layers, c)
        self.jones = np.array([vf.cplx("jx", 0.01, 20), vf.cplx("jy", 0.01, 20)])
        self.exp = Experiment(self.structure, self.lb, self.ang, self.jones)


def change_dispersion(w):
    for d in w.d:
        d.single_params["n0"] = 7
        d.single_params["n1"] = 9


def change_dispersion_of_material(w):
    w.mats[1].set_dispersion(elli.Cauchy(n0=5))
    w.mats[2].set_dispersion(elli.Cauchy(n0=5))
    w.mats[0].set_dispersion(elli.Cauchy(n0=5))


def change_rotation(w):
    w.mats[1].set_rotation(rotation_euler(10, 20, 30))


def change_layer(w):
    w.layer.set_thickness(999)
    w.layer.set_material(w.mats[2])


def change_layers(w):
    w.layers.append(w.extra)
    w.structure.set_layers([])


def change_halfspaces(w):
    w.structure.set_front_material(w.mats[2])
    w.structure.set_back_material(w.mats[0])


def change_experiment(w):
    w.exp.set_theta(3)
    w.exp.set_vector([1, 0])
    w.exp.set_lbda([1, 2, 3])
    w.exp.set_structure(Structure(w.mats[2], [], w.mats[2]))


def change_arrays(w):
    w.lb[:] = 7
    w.jones[0] = 0
    w.jones[1] = 5


CHANGES = [change_dispersion, change_dispersion_of_material, change_rotation, change_layer, change_layers, change_halfspaces, change_experiment, change_arrays]


def snapshot(kind):
    for snm, cls, kw in solvers():
        for ch in CHANGES:
            if snm == "4x4" and ch not in (change_dispersion, change_arrays, change_experiment):
                continue
            w = World(kind)
            r = w.exp.evaluate(cls, **kw)
            want = {}
            for n in NAMES:
                want[n] = getattr(r, n)
            keep = vf.clone(r.experiment)
            ch(w)
            for n in NAMES:
                vf.equal(getattr(r, n), want[n], "%s: %s after %s" % (snm, n, ch.__name__))
            vf.equal(r.experiment, keep, "%s: recorded experiment after %s" % (snm, ch.__name__))


def ob_snapshot():
    snapshot("plain")


def ob_snapshot_repeated():
    snapshot("repeated")


def ob_late_reading():
    """quantities first read after the change are those of the evaluated experiment"""
    for snm, cls, kw in solvers()[::2]:
        w = World("plain")
        ref = w.exp.evaluate(cls, **kw)
        want = {}
        for n in NAMES:
            want[n] = getattr(ref, n)
        r = w.exp.evaluate(cls, **kw)
        for ch in CHANGES:
            ch(w)
        for n in NAMES:
            vf.equal(getattr(r, n), want[n], "%s: %s first read after all changes" % (snm, n))


def ob_recorded_experiment():
    for snm, cls, kw in solvers():
        w = World("plain")
        r = w.exp.evaluate(cls, **kw)
        e = r.experiment
        vf.equal(e.theta_i, w.ang, snm + ": recorded angle")
        vf.equal(e.lbda, w.lb, snm + ": recorded wavelengths")
        vf.equal(e.jones_vector, w.jones, snm + ": recorded Jones vector")
        vf.equal(e.stokes_vector, w.exp.stokes_vector, snm + ": recorded Stokes vector")
        p, q = e.structure.get_permittivity_profile(w.lb), w.structure.get_permittivity_profile(w.lb)
        vf.equal(len(p), len(q), snm + ": recorded structure has all layers")
        for i in range(len(q)):
            vf.equal(p[i][0], q[i][0], snm + ": recorded thickness %d" % i)
            vf.equal(p[i][1], q[i][1], snm + ": recorded tensor %d" % i)
        vf.disjoint(r, [w.exp, w.structure, w.lb, w.jones, w.layers, w.d, w.mats], snm + ": nothing shared with the caller")


def ob_nothing_shared_structure_evaluate():
    for snm, cls, kw in solvers():
        w = World("repeated")
        r = w.structure.evaluate(w.lb, w.ang, solver=cls, **kw)
        vf.disjoint(r, [w.structure, w.lb, w.layers, w.d, w.mats], snm + ": nothing shared with the caller")
        vf.equal(r.experiment.theta_i, w.ang, snm + ": recorded angle")
        vf.equal(r.experiment.lbda, w.lb, snm + ": recorded wavelengths")


def ob_nothing_shared_anisotropic():
    lb = lbda()
    x, y, z = cauchy("x"), cauchy("y"), elli.Sellmeier().add(vf.pos("A", 1, 2), vf.pos("B", 0.01, 0.05))
    u = UniaxialMaterial(x, y)
    R = rotation_euler(10, 20, 30)
    u.set_rotation(R)
    mix = VCAMaterial(u, z.get_mat(), vf.real("f", 0, 1))
    s = Structure(x.get_mat(), [Layer(u, 10), TwistedLayer(u, 20, 3, 90), VaryingMixtureLayer(mix, 10, 2), Layer(mix, 5)], y.get_mat())
    e = Experiment(s, lb, 30)
    r = e.evaluate(Solver4x4, propagator=PropagatorLinear())
    vf.disjoint(r, [e, s, lb, u, mix, R, x, y, z], "nothing shared with an anisotropic structure")
    ps = r.experiment.structure.get_permittivity_profile(lb)
    want = [(a, b) for a, b in s.get_permittivity_profile(lb)]
    x.single_params["n0"] = 9
    z.rep_params[0]["A"] = 9
    z.add(1, 2)
    R[0, 0] = 0
    mix.set_fraction(0)
    ps2 = r.experiment.structure.get_permittivity_profile(lb)
    for i in range(len(want)):
        vf.equal(ps2[i][1], want[i][1], "recorded tensor %d after changing the constituents" % i)


def ob_results_independent():
    """two evaluations of one experiment do not share state"""
    for snm, cls, kw in solvers():
        w = World("plain")
        r1, r2 = w.exp.evaluate(cls, **kw), w.exp.evaluate(cls, **kw)
        vf.disjoint(r1, r2, snm + ": results of two evaluations share nothing")


def ob_scalar_wavelength():
    w = World("plain")
    for snm, cls, kw in solvers():
        r = w.structure.evaluate(500, w.ang, solver=cls, **kw)
        a = r.R
        change_dispersion(w)
        vf.equal(r.R, a, snm + ": single wavelength")
        w = World("plain")


def ob_integer_wavelengths():
    w = World("plain")
    lb = np.array([400, 500])
    for snm, cls, kw in solvers():
        e = Experiment(w.structure, lb, w.ang)
        r = e.evaluate(cls, **kw)
        a = r.R
        vf.disjoint(r, [e, lb], snm + ": integer wavelengths are not shared")
        lb[0] = 1
        vf.equal(r.experiment.lbda[0], 400, snm + ": recorded wavelengths after changing the array")
        lb[0] = 400
