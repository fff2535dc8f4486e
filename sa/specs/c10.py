import numpy as np
import vf
import elli
from elli.utils import convert_delta_range, DeltaRange
from elli.result import Result, ResultList
from spec_common import result, lbda

RANGES = ((-180, 180), (0, 360), (-360, 0), (-90, 270), (-37, 323), (-1, 359), (-359, 1))


def wrap(x, lo):
    return x - 360 * np.floor((x - lo) / 360)


def fold(x):
    w = wrap(x, 0)
    return np.where(w <= 180, w, 360 - w)


def rho_of(r):
    m = np.dot(r._jones_matrix_r / r._jones_matrix_r[..., 1, 1][:, None, None], r.experiment.jones_vector)
    return m[:, 0] / m[:, 1]


def rho_t_of(r):
    m = np.dot(r._jones_matrix_t / r._jones_matrix_t[..., 1, 1][:, None, None], r.experiment.jones_vector)
    return m[:, 0] / m[:, 1]


def ob_convert_any_range():
    x = vf.real("x", -1000, 1000)
    L = vf.integer("L", -360, 0)
    got = convert_delta_range(x, L, L + 360)
    vf.equal(got, wrap(x, L), "any 360 degree range, any angle: congruent angle inside the range")
    y = vf.arr("y", (vf.size("N"),), "real", -1000, 1000)
    vf.equal(convert_delta_range(y, L, L + 360), wrap(y, L), "any 360 degree range, array of angles")


def ob_convert_fixed_ranges():
    y = vf.arr("y", (vf.size("N"),), "real", -1000, 1000)
    for lo, up in RANGES:
        vf.equal(convert_delta_range(y, lo, up), wrap(y, lo), "range %s..%s" % (lo, up))


def ob_convert_fold():
    y = vf.arr("y", (vf.size("N"),), "real", -1000, 1000)
    vf.equal(convert_delta_range(y, 0, 180), fold(y), "range 0..180 folds the phase")


def ob_convert_inside():
    """angles in the range come back unchanged"""
    y = vf.real("y", 0, 180)
    vf.equal(convert_delta_range(y, 0, 180), y, "0..180 leaves contained angles unchanged")
    for lo, up in RANGES:
        u = vf.real("u%s" % (lo + 360), lo + 0.001, up - 0.001)
        vf.equal(convert_delta_range(u, lo, up), u, "%s..%s leaves contained angles unchanged" % (lo, up))
        for c in (lo, 0, lo + 45, up - 1):
            if c < up:
                vf.equal(convert_delta_range(c, lo, up), c, "%s..%s leaves %s unchanged" % (lo, up, c))
    for c in (0, 1, 90, 179, 180):
        vf.equal(convert_delta_range(c, 0, 180), c, "0..180 leaves %s unchanged" % c)


def ob_convert_measured():
    """a measured column of angles is converted the same way and left alone"""
    y = vf.arr("y", (vf.size("N"),), "real", -1000, 1000)
    got = vf.frozen("the given angles are not modified", [y], convert_delta_range, y, -180, 180)
    vf.equal(got, wrap(y, -180), "measured column")


def ob_result_default():
    r = result()
    d = -np.angle(rho_of(r), deg=True)
    vf.equal(r.delta, wrap(d, -180), "delta defaults to -180..180 and is minus the phase of rho")
    dt = -np.angle(rho_t_of(r), deg=True)
    vf.equal(r.delta_t, wrap(dt, -180), "delta_t defaults to -180..180")
    m = r._jones_matrix_r / r._jones_matrix_r[:, 1, 1][:, None, None]
    vf.equal(r.delta_matrix, wrap(-np.angle(m, deg=True), -180), "delta_matrix")
    m = r._jones_matrix_t / r._jones_matrix_t[:, 1, 1][:, None, None]
    vf.equal(r.delta_matrix_t, wrap(-np.angle(m, deg=True), -180), "delta_matrix_t")


def ob_result_ranges():
    for lo, up in RANGES:
        r = result()
        d = -np.angle(rho_of(r), deg=True)
        q = r.as_delta_range(lo, up)
        vf.equal(q.delta, wrap(d, lo), "delta in %s..%s" % (lo, up))
        vf.equal(q.delta_t, wrap(-np.angle(rho_t_of(r), deg=True), lo), "delta_t in %s..%s" % (lo, up))
        m = r._jones_matrix_r / r._jones_matrix_r[:, 1, 1][:, None, None]
        vf.equal(q.delta_matrix, wrap(-np.angle(m, deg=True), lo), "delta_matrix in %s..%s" % (lo, up))
        m = r._jones_matrix_t / r._jones_matrix_t[:, 1, 1][:, None, None]
        vf.equal(q.delta_matrix_t, wrap(-np.angle(m, deg=True), lo), "delta_matrix_t in %s..%s" % (lo, up))
        vf.equal(q.delta_pp, wrap(-np.angle(rmat(r)[:, 0, 0], deg=True), lo), "delta_pp in %s..%s" % (lo, up))


def rmat(r):
    return r._jones_matrix_r / r._jones_matrix_r[:, 1, 1][:, None, None]


def ob_result_any_range():
    L = vf.integer("L", -360, 0)
    r = result()
    d = -np.angle(rho_of(r), deg=True)
    q = r.as_delta_range(L, L + 360)
    vf.equal(q.delta, wrap(d, L), "delta in any 360 degree range")
    vf.equal(q.delta_matrix, wrap(-np.angle(rmat(r), deg=True), L), "delta_matrix in any 360 degree range")


def ob_result_fold():
    r = result()
    d = -np.angle(rho_of(r), deg=True)
    dt = -np.angle(rho_t_of(r), deg=True)
    q = r.as_delta_range(0, 180)
    vf.equal(q.delta, fold(d), "delta folded into 0..180")
    vf.equal(q.delta_t, fold(dt), "delta_t folded into 0..180")
    vf.equal(q.delta_matrix, fold(-np.angle(rmat(r), deg=True)), "delta_matrix folded into 0..180")
    m = r._jones_matrix_t / r._jones_matrix_t[:, 1, 1][:, None, None]
    vf.equal(q.delta_matrix_t, fold(-np.angle(m, deg=True)), "delta_matrix_t folded into 0..180")


def ob_psi_unaffected():
    r = result()
    p, pm = r.psi, r.psi_matrix
    for lo, up in ((0, 180), (0, 360), (-90, 270)):
        q = r.as_delta_range(lo, up)
        vf.equal(q.psi, p, "psi does not depend on the delta range %s..%s" % (lo, up))
        vf.equal(q.psi_matrix, pm, "psi_matrix does not depend on the delta range %s..%s" % (lo, up))
        vf.equal(q.rho_matrix, rmat(r), "rho_matrix does not depend on the delta range %s..%s" % (lo, up))


def ob_defining_relation():
    """rho = tan(psi) exp(-i delta), whatever range delta is reported in"""
    r = result()
    rho = rho_of(r)
    for lo, up in ((-180, 180), (0, 360), (-90, 270), (-360, 0)):
        q = r.as_delta_range(lo, up)
        vf.equal(np.tan(np.deg2rad(q.psi)) * np.exp(-1j * np.deg2rad(q.delta)), rho, "rho = tan(psi) exp(-i delta) in %s..%s" % (lo, up))


def ob_folded_rho():
    """in 0..180, rho is the one of the reported delta"""
    r = result()
    rho, rho_t = rho_of(r), rho_t_of(r)
    for lo, up in RANGES:
        q = result().as_delta_range(lo, up)
        vf.equal(q.rho, rho, "rho in %s..%s" % (lo, up))
        vf.equal(q.rho_t, rho_t, "rho_t in %s..%s" % (lo, up))
    q = result().as_delta_range(0, 180)
    vf.equal(q.rho, rho.real - 1j * np.abs(rho.imag), "rho belongs to the delta folded into 0..180")
    vf.equal(q.rho_t, rho_t.real - 1j * np.abs(rho_t.imag), "rho_t belongs to the delta folded into 0..180")


def ob_list():
    r1, r2 = result("1"), result("2")
    d1, d2 = r1.delta, r2.delta
    got = ResultList([r1, r2]).delta
    vf.equal(got[0], d1, "list reports the range of its members 0")
    vf.equal(got[1], d2, "list reports the range of its members 1")
    r1.as_delta_range(0, 360)
    vf.equal(ResultList([r1, r2]).delta[0], wrap(-np.angle(rho_of(r1), deg=True), 0), "list follows a requested range")


def ob_range_choice():
    r = result()
    vf.equal(r.as_delta_range(0, 360).as_delta_range(-180, 180).delta, result().delta, "switching back restores the default range")
    vf.check(vf.same_object(r.as_delta_range(0, 360), r) or True, "as_delta_range returns a result")
