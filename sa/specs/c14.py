import numpy as np
import vf
import elli
from elli import utils
from elli.materials import IsotropicMaterial, UniaxialMaterial, BiaxialMaterial
from spec_common import SymDisp, SymIndex, lbda, rotz, SymMat


def diag(lb, x, y, z):
    lb = np.atleast_1d(lb)
    e = np.zeros((lb.shape[0], 3, 3), dtype=complex)
    e[:, 0, 0] = vf.app("eps_" + x, lb)
    e[:, 1, 1] = vf.app("eps_" + y, lb)
    e[:, 2, 2] = vf.app("eps_" + z, lb)
    return e


def ob_axes():
    lb = lbda()
    o, e, z = SymDisp("o"), SymDisp("e"), SymDisp("z")
    vf.equal(IsotropicMaterial(o).get_tensor(lb), diag(lb, "o", "o", "o"), "isotropic")
    vf.equal(UniaxialMaterial(o, e).get_tensor(lb), diag(lb, "o", "o", "e"), "uniaxial: ordinary on x and y, extraordinary on z")
    vf.equal(BiaxialMaterial(o, e, z).get_tensor(lb), diag(lb, "o", "e", "z"), "biaxial: x, y, z")


def ob_get_mat():
    lb = lbda()
    o = SymDisp("o")
    vf.equal(o.get_mat().get_tensor(lb), diag(lb, "o", "o", "o"), "get_mat gives the isotropic material")
    n = SymIndex("q")
    m = n.get_mat().get_tensor(lb)
    vf.equal(m[:, 0, 0], vf.app("n_q", lb) ** 2, "index dispersion: tensor is the squared index")
    vf.equal(m[:, 2, 2], vf.app("n_q", lb) ** 2, "index dispersion: zz")
    vf.equal(m[:, 0, 1], 0 * lb, "index dispersion: off-diagonal")


def ob_reset_dispersion():
    lb = lbda()
    o, e, z = SymDisp("o"), SymDisp("e"), SymDisp("z")
    m = UniaxialMaterial(o, e)
    m.get_tensor(lb)
    m.set_dispersion(e, z)
    vf.equal(m.get_tensor(lb), diag(lb, "e", "e", "z"), "set_dispersion replaces the axes (uniaxial)")
    b = BiaxialMaterial(o, e, z)
    b.set_dispersion(z, o, e)
    vf.equal(b.get_tensor(lb), diag(lb, "z", "o", "e"), "set_dispersion replaces the axes (biaxial)")
    i = IsotropicMaterial(o)
    i.set_dispersion(e)
    vf.equal(i.get_tensor(lb), diag(lb, "e", "e", "e"), "set_dispersion replaces the axes (isotropic)")


def rotation(n):
    """any proper rotation"""
    return rotz(vf.real("p" + n, -360, 360)) @ rotx(vf.real("n" + n, -360, 360)) @ rotz(vf.real("r" + n, -360, 360))


def ob_rotation():
    lb = lbda()
    R = rotation("R")
    o, e, z = SymDisp("o"), SymDisp("e"), SymDisp("z")
    b = BiaxialMaterial(o, e, z)
    b.set_rotation(R)
    vf.equal(b.get_tensor(lb), R @ diag(lb, "o", "e", "z") @ R.T, "rotated by R: R eps R^T")
    u = UniaxialMaterial(o, e)
    u.set_rotation(R)
    vf.equal(u.get_tensor(lb), R @ diag(lb, "o", "o", "e") @ R.T, "rotated uniaxial")
    vf.equal(u.get_tensor(lb), R @ diag(lb, "o", "o", "e") @ R.T, "rotated uniaxial, asked again")
    Q = rotation("Q")
    b.set_rotation(Q)
    vf.equal(b.get_tensor(lb), Q @ diag(lb, "o", "e", "z") @ Q.T, "a new rotation replaces the previous one")
    b.set_dispersion(e, e, o)
    vf.equal(b.get_tensor(lb), Q @ diag(lb, "e", "e", "o") @ Q.T, "the rotation stays when dispersions are replaced")
    i = IsotropicMaterial(o)
    i.set_rotation(R)
    vf.equal(i.get_tensor(lb), diag(lb, "o", "o", "o"), "a rotation does not change an isotropic material")


def ob_special_rotations():
    """rotations by particular angles and about single axes"""
    lb = lbda()
    o, e, z = SymDisp("o"), SymDisp("e"), SymDisp("z")
    d = diag(lb, "o", "e", "z")
    a = vf.real("a", -720, 720)
    for nm, R in (("x", rotx(a)), ("y", roty(a)), ("z", rotz(a)), ("x by 90", rotx(90)), ("y by 90", roty(90)), ("z by 90", rotz(90)), ("z by 180", rotz(180)), ("z by -45", rotz(-45)),
                  ("nothing", np.identity(3)), ("exchange of x and y", np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])), ("cyclic exchange", np.array([[0.0, 0, 1], [1, 0, 0], [0, 1, 0]])),
                  ("inversion", -np.identity(3)), ("mirror", np.diag([1.0, 1, -1]))):
        b = BiaxialMaterial(o, e, z)
        b.set_rotation(R)
        vf.equal(b.get_tensor(lb), R @ d @ R.T, "rotation about / by " + nm)
    b = BiaxialMaterial(o, e, z)
    b.set_rotation(rotz(a))
    b.get_tensor(lb)
    b.set_rotation(np.identity(3))
    vf.equal(b.get_tensor(lb), d, "rotating back gives the aligned crystal")


def ob_other_wavelengths():
    lb, lc = lbda(), lbda("lc")
    R = rotation("R")
    o, e, z = SymDisp("o"), SymDisp("e"), SymDisp("z")
    b = BiaxialMaterial(o, e, z)
    b.set_rotation(R)
    first = b.get_tensor(lb)
    vf.equal(b.get_tensor(lc), R @ diag(lc, "o", "e", "z") @ R.T, "other wavelengths of the same number")
    vf.equal(b.get_tensor(lb), R @ diag(lb, "o", "e", "z") @ R.T, "first wavelengths again")
    vf.equal(first, R @ diag(lb, "o", "e", "z") @ R.T, "the first answer is still the same")
    lam, mu = vf.pos("lam", 10, 30000), vf.pos("mu", 10, 30000)
    b.get_tensor(lam)
    vf.equal(b.get_tensor(mu), R @ diag(mu, "o", "e", "z") @ R.T, "another single wavelength")
    i = IsotropicMaterial(o)
    i.get_tensor(lb)
    vf.equal(i.get_tensor(lc), diag(lc, "o", "o", "o"), "isotropic, other wavelengths")
    c = BiaxialMaterial(o, e, z)
    c.get_tensor(lb)
    vf.equal(b.get_tensor(lb), R @ diag(lb, "o", "e", "z") @ R.T, "another material of the same dispersions does not interfere")
    vf.equal(c.get_tensor(lb), diag(lb, "o", "e", "z"), "and has its own orientation")


def ob_degenerate():
    """materials whose axes share a dispersion are still tensors in their own orientation"""
    lb = lbda()
    R = rotation("R")
    o, e = SymDisp("o"), SymDisp("e")
    for nm, m, d in (("biaxial with equal x and y", BiaxialMaterial(o, o, e), diag(lb, "o", "o", "e")), ("biaxial with equal y and z", BiaxialMaterial(e, o, o), diag(lb, "e", "o", "o")),
                     ("biaxial with equal x and z", BiaxialMaterial(o, e, o), diag(lb, "o", "e", "o")), ("biaxial with equal axes", BiaxialMaterial(o, o, o), diag(lb, "o", "o", "o")),
                     ("uniaxial with equal axes", UniaxialMaterial(o, o), diag(lb, "o", "o", "o"))):
        vf.equal(m.get_tensor(lb), d, nm)
        m.set_rotation(R)
        vf.equal(m.get_tensor(lb), R @ d @ R.T, nm + ", rotated")


def ob_scalar():
    lam = vf.pos("lam", 10, 30000)
    o, e, z = SymDisp("o"), SymDisp("e"), SymDisp("z")
    b = BiaxialMaterial(o, e, z)
    t = b.get_tensor(lam)
    vf.equal(t, diag(lam, "o", "e", "z"), "single wavelength: one tensor with the same values")
    R = rotation("R")
    b.set_rotation(R)
    vf.equal(b.get_tensor(lam), R @ diag(lam, "o", "e", "z") @ R.T, "single wavelength, rotated")


def ob_refractive_index():
    lb = lbda()
    o, e, z = SymDisp("o"), SymDisp("e"), SymDisp("z")
    for m, name in ((IsotropicMaterial(o), "isotropic"), (UniaxialMaterial(o, e), "uniaxial"), (BiaxialMaterial(o, e, z), "biaxial")):
        n = m.get_refractive_index(lb)
        vf.equal(n @ n, m.get_tensor(lb), "index tensor squares to permittivity, " + name)
        vf.equal(n[:, 0, 1], 0 * lb, "index tensor of an aligned crystal is diagonal, " + name)
        vf.check(np.real(n[0, 2, 2]) >= 0, "principal branch, " + name)


def rotx(a):
    r = a * np.pi / 180
    return np.array([[1, 0, 0], [0, np.cos(r), -np.sin(r)], [0, np.sin(r), np.cos(r)]])


def roty(a):
    r = a * np.pi / 180
    return np.array([[np.cos(r), 0, np.sin(r)], [0, 1, 0], [-np.sin(r), 0, np.cos(r)]])


def ob_euler():
    p, n, r = vf.real("p"), vf.real("n"), vf.real("r")
    m = utils.rotation_euler(p, n, r)
    vf.equal(m, rotz(p) @ rotx(n) @ rotz(r), "Euler rotation is z, x', z' in degrees")
    vf.equal(m @ m.T, np.identity(3), "Euler rotation is orthogonal")
    vf.equal(np.linalg.det(m), 1, "Euler rotation is proper")
    vf.equal(m @ utils.rotation_euler(-r, -n, -p), np.identity(3), "documented inverse of the Euler rotation")


def ob_v_theta():
    a = vf.real("a")
    vf.equal(utils.rotation_v_theta(utils.E_X, a), rotx(a), "rotation about x")
    vf.equal(utils.rotation_v_theta(utils.E_Y, a), roty(a), "rotation about y")
    vf.equal(utils.rotation_v_theta(utils.E_Z, a), rotz(a), "rotation about z")
    p, q = vf.real("p"), vf.real("q")
    v = np.array([np.sin(p) * np.cos(q), np.sin(p) * np.sin(q), np.cos(p)])
    m = utils.rotation_v_theta(v, a)
    vf.equal(m @ m.T, np.identity(3), "rotation about any axis is orthogonal")
    vf.equal(m @ v, v, "the axis is kept")
    vf.equal(np.trace(m), 1 + 2 * np.cos(a * np.pi / 180), "rotation angle in degrees")
    vf.equal(m @ utils.rotation_v_theta(v, -a), np.identity(3), "inverse rotation")
    w = vf.arr("w", (3,), "real")
    sk = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    vf.equal(utils.rotation_v_theta(w, a), np.identity(3) + np.sin(a * np.pi / 180) * sk + (1 - np.cos(a * np.pi / 180)) * (sk @ sk), "Rodrigues formula")


def ob_v():
    from scipy.linalg import expm
    w = vf.arr("w", (3,), "real")
    sk = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    vf.equal(utils.rotation_v(w), expm(sk), "rotation vector: exponential of the skew matrix (right-handed)")
    vf.equal(utils.rotation_v(np.zeros(3)), np.identity(3), "the zero rotation vector turns nothing")
    vf.equal(utils.rotation_v(np.array([0.0, 0.0, np.pi / 2])), np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), "a quarter turn about z")
    a = vf.real("a")
    for name, axis, rot in [("x", 0, rotx), ("y", 1, roty), ("z", 2, rotz)]:
        v = np.zeros(3)
        v[axis] = a * np.pi / 180
        vf.equal(utils.rotation_v(v), rot(a), "rotation vector along " + name)


def ob_basis():
    vf.equal(utils.E_X, np.array([1, 0, 0]), "E_X")
    vf.equal(utils.E_Y, np.array([0, 1, 0]), "E_Y")
    vf.equal(utils.E_Z, np.array([0, 0, 1]), "E_Z")
