import numpy as np
import pandas as pd
import vf
from numpy.lib.scimath import sqrt
import elli
from elli.utils import calc_rho, calc_pseudo_diel, convert_psi_delta_to_isotropic_mueller_matrix
from elli.result import Result
from spec_common import result, lbda, Exp


def ob_pseudo_dielectric_table():
    n = vf.size("N")
    rho = pd.Series(vf.arr("rho", (n,), "complex", -2, 2), index=lbda())
    ang = vf.real("ang", 0, 89.9)
    th = np.deg2rad(ang)
    e = np.sin(th) ** 2 * (1 + np.tan(th) ** 2 * ((1 - rho.values) / (1 + rho.values)) ** 2)
    got = calc_pseudo_diel(rho, ang)
    vf.equal(list(got.columns), ["ϵ1", "ϵ2"], "columns")
    vf.equal(got["ϵ1"].values, e.real, "first column is the real part")
    vf.equal(got["ϵ2"].values, e.imag, "second column is the imaginary part")
    vf.equal(got.index.values, lbda(), "wavelengths kept")
    vf.equal(calc_pseudo_diel(rho, ang, "epsi").values, e, "complex output")
    got = calc_pseudo_diel(rho, ang, "n")
    vf.equal(got["n"].values, sqrt(e).real, "n")
    vf.equal(got["k"].values, sqrt(e).imag, "k")


def ob_calc_rho():
    n = vf.size("N")
    psi, delta = vf.arr("psi", (n,), "real", 0, 90), vf.arr("delta", (n,), "real", -180, 360)
    df = pd.DataFrame({"Ψ": psi, "Δ": delta}, index=lbda())
    rho = calc_rho(df)
    vf.equal(rho.values, np.tan(np.deg2rad(psi)) * np.exp(-1j * np.deg2rad(delta)), "calc_rho = tan(psi) exp(-i delta)")
    vf.equal(rho.index.values, lbda(), "wavelengths kept")


def ob_isotropic_mueller_table():
    psi = {(50, 400): vf.real("p1", 5, 85), (50, 500): vf.real("p2", 5, 85), (60, 400): vf.real("p3", 5, 85), (60, 500): vf.real("p4", 5, 85)}
    dl = {k: vf.real("d%s%s" % k, -180, 180) for k in psi}
    keys = list(psi)
    df = pd.DataFrame({"Ψ": [psi[k] for k in keys], "Δ": [dl[k] for k in keys]},
                      index=pd.MultiIndex.from_tuples(keys, names=["Angle of Incidence", "Wavelength"]))
    before = df.copy()
    M = vf.frozen("the given table is left as it is", [df], convert_psi_delta_to_isotropic_mueller_matrix, df)
    vf.check(list(M.columns) == ["M%d%d" % (i, j) for i in (1, 2, 3, 4) for j in (1, 2, 3, 4)], "Mueller table has the sixteen elements as columns")
    vf.check(list(M.index.names) == ["Angle of Incidence", "Wavelength"], "Mueller table is indexed by angle and wavelength")
    vf.check([tuple(t) for t in M.index] == keys, "Mueller table keeps the rows")
    for k in keys:
        p, d = np.deg2rad(psi[k]), np.deg2rad(dl[k])
        N, C, S = np.cos(2 * p), np.sin(2 * p) * np.cos(d), np.sin(2 * p) * np.sin(d)
        want = [[1, -N, 0, 0], [-N, 1, 0, 0], [0, 0, C, S], [0, 0, -S, C]]
        for i in range(4):
            for j in range(4):
                vf.equal(M.loc[k, "M%d%d" % (i + 1, j + 1)], want[i][j], "isotropic Mueller table M%d%d at %s" % (i + 1, j + 1, k))
