import numpy as np
import vf
import elli
from elli.result import Result, ResultList, AveragedResultList
from spec_common import result, lbda

IX = {"p": 0, "s": 1, "L": 0, "R": 1, "1": 0, "2": 1}
PAIRS = (("pp", 0, 0), ("ps", 0, 1), ("sp", 1, 0), ("ss", 1, 1))
CPAIRS = (("LL", 0, 0), ("LR", 0, 1), ("RL", 1, 0), ("RR", 1, 1))
NPAIRS = (("11", 0, 0), ("12", 0, 1), ("21", 1, 0), ("22", 1, 1))


def rho_matrix(r):
    return r._jones_matrix_r / r._jones_matrix_r[:, 1, 1][:, None, None]


def rho_matrix_t(r):
    return r._jones_matrix_t / r._jones_matrix_t[:, 1, 1][:, None, None]


def fetch(r, name):
    """attribute access and get() must agree"""
    a = getattr(r, name)
    b = r.get(name)
    return a, b


def both(r, name, want, label):
    vf.equal(getattr(r, name), want, "%s" % label)
    vf.equal(r.get(name), want, "get %s" % label)


def ob_amplitudes():
    r = result()
    for base, m in (("r", r._jones_matrix_r), ("t", r._jones_matrix_t)):
        both(r, base, m, base)
        for pairs in (PAIRS, NPAIRS):
            for n, i, j in pairs:
                both(r, base + "_" + n, m[:, i, j], "%s_%s" % (base, n))
    both(r, "jones_matrix_r", r._jones_matrix_r, "jones_matrix_r")
    both(r, "jones_matrix_t", r._jones_matrix_t, "jones_matrix_t")


def ob_intensities():
    r = result()
    pc = r._power_correction[:, None, None]
    for base, m in (("R", np.abs(r._jones_matrix_r) ** 2), ("T", np.abs(r._jones_matrix_t) ** 2 * pc)):
        for pairs in (PAIRS, NPAIRS):
            for n, i, j in pairs:
                both(r, base + "_" + n, m[:, i, j], "%s_%s" % (base, n))
        both(r, base + "_matrix", m, base + "_matrix")
        both(r, base, (m[:, 0, 0] + m[:, 1, 1]) / 2, base + " for unpolarised light")


def ob_angles():
    r = result()
    rm = rho_matrix(r)
    psi = np.rad2deg(np.arctan(np.abs(rm)))
    for names, m in ((("psi", "Ψ"), psi), (("rho", "ρ"), rm), (("delta", "Δ"), r.delta_matrix)):
        for name in names:
            for pairs in (PAIRS, NPAIRS):
                for n, i, j in pairs:
                    both(r, name + "_" + n, m[:, i, j], "%s_%s" % (name, n))
        both(r, names[0] + "_matrix", m, names[0] + "_matrix")


def ob_scalar_angles():
    r = result()
    e = r.experiment.jones_vector
    v = np.dot(rho_matrix(r), e)
    rho = v[:, 0] / v[:, 1]
    for n in ("rho", "ρ"):
        both(r, n, rho, n)
    for n in ("psi", "Ψ"):
        both(r, n, np.rad2deg(np.arctan(np.abs(rho))), n)
    for n in ("delta", "Δ"):
        both(r, n, r.delta, n)
    v = np.dot(rho_matrix_t(r), e)
    rho = v[:, 0] / v[:, 1]
    both(r, "rho_t", rho, "rho_t")
    both(r, "psi_t", np.rad2deg(np.arctan(np.abs(rho))), "psi_t")
    both(r, "rho_matrix_t", rho_matrix_t(r), "rho_matrix_t")
    both(r, "psi_matrix_t", np.rad2deg(np.arctan(np.abs(rho_matrix_t(r)))), "psi_matrix_t")


def ob_transmission_matrices():
    r = result()
    for base, m in (("rho_matrix_t", rho_matrix_t(r)), ("psi_matrix_t", np.rad2deg(np.arctan(np.abs(rho_matrix_t(r)))))):
        for n, i, j in PAIRS + NPAIRS:
            both(r, base + "_" + n, m[:, i, j], "%s_%s" % (base, n))


def ob_circular():
    r = result()
    rc, tc = r.jones_matrix_rc, r.jones_matrix_tc
    pc = r._power_correction[:, None, None]
    for base, m in (("rc", rc), ("tc", tc), ("Rc", np.abs(rc) ** 2), ("Tc", np.abs(tc) ** 2 * pc)):
        both(r, base, m, base)
        for pairs in (CPAIRS, NPAIRS):
            for n, i, j in pairs:
                both(r, base + "_" + n, m[:, i, j], "%s_%s" % (base, n))
    both(r, "Rc_matrix", np.abs(rc) ** 2, "Rc_matrix")
    both(r, "Tc_matrix", np.abs(tc) ** 2 * pc, "Tc_matrix")


def ob_mueller():
    r = result()
    m = r.mueller_matrix
    for i in range(4):
        for j in range(4):
            both(r, "mueller_matrix_%d%d" % (i + 1, j + 1), m[:, i, j], "mueller_matrix_%d%d" % (i + 1, j + 1))


def ob_unknown():
    r = result()
    for n in ("foo", "r_xy", "r_p", "psi_pq", "jones", "r_00", "Ψ_p5", "nothing_pp", "experiments"):
        k, v = vf.outcome(getattr, r, n)
        vf.check(k == "raise", "unknown name %s is rejected" % n)
        k, v = vf.outcome(r.get, n)
        vf.check(k == "raise", "get of unknown name %s is rejected" % n)


def ob_lists():
    rs = [result("a"), result("b"), result("c")]
    for n in ("r_sp", "t_ps", "psi", "Ψ_pp", "rho", "R", "R_sp", "T_ss", "jones_matrix_r", "rc_LR", "Rc_RL", "mueller_matrix", "rho_matrix"):
        got = getattr(ResultList(rs), n)
        for k in range(3):
            vf.equal(got[k], getattr(rs[k], n), "list entry %d of %s" % (k, n))
    vf.equal(len(ResultList(rs)), 3, "length")


def ob_list_append():
    rs = ResultList()
    a, b = result("a"), result("b")
    rs.append(a)
    rs.append(b)
    vf.equal(len(rs), 2, "length after append")
    vf.equal(rs.r_pp[0], a.r_pp, "appended first")
    vf.equal(rs.r_pp[1], b.r_pp, "appended second")
    other = ResultList()
    vf.equal(len(other), 0, "lists do not share their storage")


def ob_list_one():
    a = result("a")
    vf.equal(ResultList([a]).psi, a.psi, "list of one gives the same wavelength array")
    vf.equal(ResultList([a]).mean.psi, a.psi, "average of one")


def ob_mean():
    for k in (1, 2, 3, 4):
        rs = [result("m" + str(i)) for i in range(k)]
        for n in ("r_sp", "t_ps", "psi", "rho", "R", "R_sp", "T_ss", "jones_matrix_r", "rc_LR", "rho_matrix", "Ψ_ps"):
            tot = getattr(rs[0], n)
            for r in rs[1:]:
                tot = tot + getattr(r, n)
            vf.equal(getattr(ResultList(rs).mean, n), tot / k, "mean of %s over %d results" % (n, k))
            vf.equal(getattr(AveragedResultList(rs), n), tot / k, "AveragedResultList %s over %d results" % (n, k))


def ob_mean_shape():
    rs = [result("a"), result("b")]
    m = ResultList(rs).mean
    vf.equal(m.delta, (rs[0].delta + rs[1].delta) / 2, "mean delta")
    vf.equal(m.mueller_matrix[:, 0, 1], (rs[0].mueller_matrix[:, 0, 1] + rs[1].mueller_matrix[:, 0, 1]) / 2, "mean mueller element")
    k, v = vf.outcome(getattr, m, "mean")
    vf.check(k == "raise", "an average is not averaged again")


def ob_list_unknown():
    rs = ResultList([result("a")])
    for n in ("foo", "r_xy", "psi_pq"):
        k, v = vf.outcome(getattr, rs, n)
        vf.check(k == "raise", "unknown name %s on a list is rejected" % n)
        k, v = vf.outcome(getattr, rs.mean, n)
        vf.check(k == "raise", "unknown name %s on an average is rejected" % n)


def ob_long_lists():
    rs = [result("m" + str(i)) for i in range(12)]
    for n in ("r_sp", "psi", "R", "T_ss", "rc_LR", "rho_matrix"):
        got = getattr(ResultList(rs), n)
        tot = 0
        for k in range(12):
            vf.equal(got[k], getattr(rs[k], n), "entry %d of %s in a list of twelve" % (k, n))
            tot = tot + getattr(rs[k], n)
        vf.equal(getattr(ResultList(rs).mean, n), tot / 12, "mean of %s over twelve results" % n)
