import numpy as np
import vf
import elli
from elli.materials import Material, MixtureMaterial, IsotropicMaterial, UniaxialMaterial, BiaxialMaterial
from elli.dispersions.base_dispersion import Dispersion, IndexDispersion, BaseDispersion


class SymMat(Material):
    """material with a fully symbolic 3x3 tensor depending on the wavelength"""

    def __init__(self, name):
        self.name = name

    def get_tensor(self, lbda):
        lb = np.atleast_1d(lbda)
        eps = np.zeros((lb.shape[0], 3, 3), dtype=np.complex128)
        for i in range(3):
            for j in range(3):
                eps[:, i, j] = vf.app(self.name + str(i) + str(j), lb)
        return eps


class SymMix(MixtureMaterial):
    """mixture whose tensor is a symbolic function of wavelength and fraction"""

    def get_tensor_fraction(self, lbda, fraction):
        lb = np.atleast_1d(lbda)
        eps = np.zeros((lb.shape[0], 3, 3), dtype=np.complex128)
        for i in range(3):
            for j in range(3):
                eps[:, i, j] = vf.app("mix" + str(i) + str(j), lb, fraction)
        return eps


class SymDisp(Dispersion):
    single_params_template = {"a": 0}
    rep_params_template = {}

    def __init__(self, name):
        super().__init__()
        self.tag = name

    def dielectric_function(self, lbda):
        return vf.app("eps_" + self.tag, lbda)


class SymIndex(IndexDispersion):
    single_params_template = {"a": 0}
    rep_params_template = {}

    def __init__(self, name):
        super().__init__()
        self.tag = name

    def refractive_index(self, lbda):
        return vf.app("n_" + self.tag, lbda)


def lbda(name="lbda"):
    return vf.arr(name, (vf.size("N"),), "pos", 10, 30000)


def iso(name):
    return IsotropicMaterial(SymDisp(name))


def rotz(a):
    """right-handed rotation by a degrees about z"""
    r = a * np.pi / 180
    return np.array([[np.cos(r), -np.sin(r), 0], [np.sin(r), np.cos(r), 0], [0, 0, 1]])


class Exp:
    """stand-in for an evaluated experiment"""

    def __init__(self, lb, jones, stokes=None, theta=None):
        self.lbda = lb
        self.jones_vector = jones
        self.stokes_vector = stokes
        self.theta_i = theta
        self.structure = None


def jarr(name):
    """symbolic complex 2x2 matrix per wavelength"""
    return vf.arr(name, (vf.size("N"), 2, 2), "complex", -2, 2)


def result(tag="", jones=None):
    """result with fully symbolic amplitudes"""
    from elli.result import Result
    lb = lbda()
    if jones is None:
        jones = vf.arr("jv" + tag, (2,), "complex", -2, 2)
    r = Result(Exp(lb, jones), jarr("Jr" + tag), jarr("Jt" + tag), vf.arr("pw" + tag, (vf.size("N"),), "real", 0, 2))
    return r
