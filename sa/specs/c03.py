import numpy as np
import vf
import elli
from elli.result import Result, ResultList, AveragedResultList
from spec_common import result

PROPS = ["rho", "rho_t", "psi", "psi_t", "delta", "delta_t", "rho_matrix", "rho_matrix_t", "psi_matrix", "psi_matrix_t", "delta_matrix", "delta_matrix_t",
         "mueller_matrix", "jones_matrix_r", "jones_matrix_t", "jones_matrix_rc", "jones_matrix_tc", "R", "R_matrix", "T", "T_matrix", "Rc_matrix", "Tc_matrix"]
NAMES = ["r", "t", "rc", "tc", "Rc", "Tc", "r_ps", "t_sp", "rc_LR", "tc_RL", "R_pp", "T_ss", "Rc_LL", "Tc_RR", "psi_pp", "delta_ps", "rho_sp", "Ψ_pp", "Δ_pp", "ρ_ss",
         "r_12", "R_21", "jones_matrix_r_ps", "psi_matrix_pp", "delta_matrix_ps", "R_matrix_ps", "mueller_matrix_12"]

FOLDED = ["rho", "rho_t"]   # kept consistent with the folded phase when the delta range is 0..180


def angle(n):
    return "delta" in n or "Δ" in n


def names():
    out = list(PROPS)
    for n in vf.names_of(Result):
        if not n.startswith("_") and n not in out and n not in ("get", "as_delta_range") and isinstance(vf.class_value(Result, n), property):
            out.append(n)
    return out + NAMES


def ob_single_reads():
    for n in names():
        r = result()
        r.as_delta_range(0, 360)
        a = vf.frozen("reading %s leaves the result" % n, [r], getattr, r, n)
        vf.equal(getattr(r, n), a, "reading %s twice" % n)


def ob_get():
    for n in names():
        r = result()
        vf.frozen("get(%s) leaves the result" % n, [r], r.get, n)


def ob_any_order():
    """reading everything, forwards and backwards, gives what a fresh result gives"""
    r = result()
    fresh = {}
    for n in names():
        fresh[n] = getattr(result(), n)
    for n in names():
        getattr(r, n)
    for n in names():
        vf.equal(getattr(r, n), fresh[n], "%s after reading everything" % n)
    for n in names()[::-1]:
        vf.equal(getattr(r, n), fresh[n], "%s after reading everything twice, backwards" % n)


def ob_delta_range():
    for lo, up in ((0, 360), (-90, 270), (0, 180)):
        r = result()
        keep = vf.clone(r)
        before = {}
        for n in names():
            before[n] = getattr(r, n)
        r.as_delta_range(lo, up)
        vf.equal(r._jones_matrix_r, keep._jones_matrix_r, "stored reflection amplitudes after as_delta_range(%d, %d)" % (lo, up))
        vf.equal(r._jones_matrix_t, keep._jones_matrix_t, "stored transmission amplitudes after as_delta_range(%d, %d)" % (lo, up))
        fresh = result().as_delta_range(lo, up)
        for n in names():
            if angle(n) or n in FOLDED:
                vf.equal(getattr(r, n), getattr(fresh, n), "%s read after as_delta_range(%d, %d) on a used result" % (n, lo, up))
            else:
                vf.equal(getattr(r, n), before[n], "%s does not depend on the delta range %d..%d" % (n, lo, up))
        r.as_delta_range(-180, 180)
        for n in [x for x in names() if angle(x) or x in FOLDED]:
            vf.equal(getattr(r, n), before[n], "%s read after returning from %d..%d" % (n, lo, up))


def ob_list_reads():
    for n in names():
        a, b = result("a"), result("b")
        L = ResultList([a, b])
        x = vf.frozen("reading %s of a list" % n, [L], getattr, L, n)
        vf.equal(getattr(L, n), x, "reading %s of a list twice" % n)


def ob_average_reads():
    for n in names():
        a, b = result("a"), result("b")
        L = ResultList([a, b])
        m = vf.frozen("reading mean", [L], getattr, L, "mean")
        x = vf.frozen("reading %s of an average" % n, [L, m], getattr, m, n)
        vf.equal(getattr(m, n), x, "reading %s of an average twice" % n)
        vf.equal(getattr(L.mean, n), x, "reading %s of another average" % n)
        vf.equal(len(L), 2, "length after reading %s" % n)


def ob_list_follows():
    """lists and averages follow appended results"""
    a, b, c = result("a"), result("b"), result("c")
    L = ResultList()
    L.append(a)
    L.psi
    L.mean.psi
    L.append(b)
    vf.equal(len(L), 2, "length after appending")
    vf.equal(L.psi, np.array([a.psi, b.psi]), "list after appending")
    vf.equal(L.mean.psi, (a.psi + b.psi) / 2, "average after appending")
    M = ResultList()
    vf.equal(len(M), 0, "a new list is empty")


def ob_results_kept():
    a, b = result("a"), result("b")
    given = [a, b]
    L = ResultList(given)
    vf.frozen("reading a list leaves its results", [given, a, b], getattr, L, "delta_matrix")
    vf.frozen("averaging leaves its results", [given, a, b], getattr, L.mean, "delta_matrix")
