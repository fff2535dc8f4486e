import numpy as np
import pandas as pd
import h5py
import vf
import vf_io
import elli
from elli.importer.nexus import NexusGroupNames, read_nexus_psi_delta, read_nexus_rho
from elli.importer.spectraray import read_spectraray_psi_delta, read_spectraray_rho, read_spectraray_mmatrix
from elli.importer.woollam import read_woollam_psi_delta, read_woollam_rho, scale_to_nm
from elli.importer.accurion import read_accurion_psi_delta

EV = 1239.8419843320026
NAMES = ["Angle of Incidence", "Wavelength"]


class Cells:
    """numerals standing for symbolic measured values"""

    def __init__(self):
        self.n = 0

    def num(self, name, lo, hi):
        self.n += 1
        t = "%d.%04d" % (lo + 1 + self.n % (hi - lo - 2), 1000 + self.n)
        v = vf.real(name, lo, hi)
        return vf.numeral(t, v), v


def write(path, lines, encoding="utf-8", end="\n"):
    vf_io.register(path, end.join(lines) + end, encoding)
    return path


def wrap180(d):
    return np.mod(d + 180, 360) - 180


def rho(p, d):
    return np.tan(np.deg2rad(p)) * np.exp(-1j * np.deg2rad(d))


def check_names(df, label):
    vf.equal(list(df.index.names), NAMES, label + ": index names")
    vf.equal(sorted(df.columns), sorted(["Ψ", "Δ"]), label + ": columns")


def rows_of(df, keys, label, ordered=True):
    """the index holds exactly the given (angle, wavelength) pairs; returns the row label for each"""
    got = list(df.index)
    vf.equal(len(got), len(keys), label + ": number of rows")
    for i, (g, k) in enumerate(zip(got, keys)):
        vf.equal(float(g[0]), float(k[0]), label + ": angle of row %d" % i)
        vf.equal(float(g[1]), float(k[1]), label + ": wavelength of row %d" % i)


def check_values(df, rows, label, delta=lambda d: d):
    for i, (p, d) in enumerate(rows):
        r = df.iloc[i]
        vf.equal(r["Ψ"], p, label + ": psi of row %d" % i)
        vf.equal(r["Δ"], delta(d), label + ": delta of row %d" % i)


def check_rho(s, keys, rows, label, delta=lambda d: d):
    rows_of(s, keys, label)
    for i, (p, d) in enumerate(rows):
        vf.equal(s.iloc[i], rho(p, delta(d)), label + ": rho of row %d" % i)


# ------------------------------------------------------------------ woollam
UNITS = [("nm", lambda x: x, ["400.0", "500.0"]), ("Angstroms", lambda x: x / 10, ["4000.0", "5000.0"]), ("eV", lambda x: EV / x, ["2.5", "3.5"]),
         ("um", lambda x: 1000 * x, ["0.4", "0.5"]), ("microns", lambda x: 1000 * x, ["0.4", "0.5"]), ("1/cm", lambda x: 1e7 / x, ["15000.0", "20000.0"])]


def wvase(cells, unit, wls, aois, extra=True, path="/data/wvase.dat", encoding="utf-8"):
    lines = ["some sample", "VASEmethod[EllipsometerType=5]", "Original[x.dat]", unit]
    keys, rows = [], []
    for a in aois:
        for w in wls:
            p, pv = cells.num("psi", 0, 90) if False else cells.num("psi_%s_%s" % (a, w), 0, 90)
            d, dv = cells.num("delta_%s_%s" % (a, w), -90, 270)
            pe, _ = cells.num("pe_%s_%s" % (a, w), 0, 9)
            de, _ = cells.num("de_%s_%s" % (a, w), 0, 9)
            lines.append("\t".join([w, a, p, d, pe, de]))
            keys.append((float(a), float(w)))
            rows.append((pv, dv))
    if extra:
        lines.append("\t".join(["dpolE", wls[0], aois[0], "1.5", "0.9"]))
        lines.append("\t".join(["dpolE", wls[1], aois[0], "1.6", "0.8"]))
    return write(path, lines, encoding), keys, rows


def ob_wvase():
    c = Cells()
    for unit, conv, wls in UNITS:
        for extra in (False, True):
            path, keys, rows = wvase(c, unit, wls, ["55.0", "65.0"], extra)
            keys = [(a, conv(w)) for a, w in keys]
            lab = "wvase file in %s%s" % (unit, " with depolarisation rows" if extra else "")
            df = vf.accepted(lab + " read", read_woollam_psi_delta, path)
            check_names(df, lab)
            rows_of(df, keys, lab)
            check_values(df, rows, lab)


def ob_wvase_one_angle():
    c = Cells()
    path, keys, rows = wvase(c, "nm", ["700.0", "400.0", "500.0"], ["70.0"], False)
    df = vf.accepted("wvase file read", read_woollam_psi_delta, path)
    for i, k in enumerate(keys):
        vf.equal(df.loc[k, "Ψ"], rows[i][0], "wvase: psi found by angle and wavelength %d" % i)
        vf.equal(df.loc[k, "Δ"], rows[i][1], "wvase: delta found by angle and wavelength %d" % i)
    vf.equal(len(df), 3, "wvase: number of rows")


def complete_ease(cells, unit, wls, aois, path="/data/cease.dat", encoding="utf-8"):
    lines = ["2nm SiO2 on Si", "VASEmethod[EllipsometerType=4 , CompleteEASE=6.37]", unit]
    keys, rows, extra = [], [], []
    for w in wls:
        for a in aois:
            p, pv = cells.num("psi_%s_%s" % (a, w), 0, 90)
            d, dv = cells.num("delta_%s_%s" % (a, w), 0, 360)
            pe, _ = cells.num("pe_%s_%s" % (a, w), 0, 9)
            de, _ = cells.num("de_%s_%s" % (a, w), 0, 9)
            lines.append("\t".join(["E", w, a, p, d, pe, de]))
            extra.append("\t".join(["dPolE", w, a, "0.5", "0.1"]))
            keys.append((float(a), float(w)))
            rows.append((pv, dv))
    return write(path, lines + extra, encoding), keys, rows


def ob_complete_ease():
    c = Cells()
    for unit, conv, wls in [("nm", lambda x: x, ["400.0", "500.0"]), ("Angstroms", lambda x: x / 10, ["4000.0", "5000.0"]), ("eV", lambda x: EV / x, ["2.5", "3.5"])]:
        path, keys, rows = complete_ease(c, unit, wls, ["55.0", "65.0", "75.0"])
        df = vf.accepted("complete ease file in %s read" % unit, read_woollam_psi_delta, path)
        lab = "complete ease file in " + unit
        check_names(df, lab)
        keys = [(a, conv(w)) for a, w in keys]
        rows_of(df, keys, lab)
        check_values(df, rows, lab)


def ob_woollam_signs():
    """values of either sign, wherever in the file they appear"""
    head = ["sample", "VASEmethod[EllipsometerType=4]", "Angstroms"]
    for first in range(4):
        for lead in ("E\t", ""):
            lines, want = [], []
            for i in range(4):
                d = "-%d.2500" % (10 + i) if i == first or first == 3 else "%d.2500" % (10 + i)
                lines.append("%s%d.0\t65.0\t%d.5000\t%s\t0.1000\t0.2000" % (lead, 4000 + 100 * i, 20 + i, d))
                want.append((20.5 + i, float(d)))
            lab = "%s file, delta negative %s" % ("complete ease" if lead else "wvase", "throughout" if first == 3 else "in row %d" % first)
            df = vf.accepted(lab + " read", read_woollam_psi_delta, write("/data/signs%d%d.dat" % (first, len(lead)), head + lines))
            rows_of(df, [(65.0, 400.0 + 10 * i) for i in range(4)], lab)
            check_values(df, want, lab)


def ob_woollam_rho():
    c = Cells()
    path, keys, rows = complete_ease(c, "Angstroms", ["4000.0", "5000.0"], ["55.0", "65.0"])
    check_rho(read_woollam_rho(path), [(a, w / 10) for a, w in keys], rows, "woollam rho")


def ob_woollam_refusals():
    vf.expect_raises(NotImplementedError, "tan/cos format refused", read_woollam_psi_delta, write("/data/trig.dat", ["nm  TRIG", "300 70  .245    .123"]))
    vf.expect_raises(ValueError, "file without data refused", read_woollam_psi_delta, write("/data/none.dat", ["a", "b", "c"]))


def table(wls, aois):
    idx = pd.MultiIndex.from_product([aois, wls], names=NAMES)
    n = len(idx)
    return pd.DataFrame({"Ψ": vf.arr("psi", (n,), "real", -10, 100), "Δ": vf.arr("delta", (n,), "real", -180, 180)}, index=idx)


def ob_scale_to_nm():
    for unit, conv in [("nm", lambda x: x), ("nm\n", lambda x: x), ("angstroms", lambda x: x / 10), ("m", lambda x: x * 1e9), ("mm", lambda x: x * 1e6),
                       ("um", lambda x: x * 1e3), ("eV", lambda x: EV / x), ("meV", lambda x: 1000 * EV / x), ("1/cm", lambda x: 1e7 / x), ("THz", lambda x: 299792.458 / x),
                       ("Hz", lambda x: 299792458e9 / x), ("1/nm", lambda x: 1 / x)]:
        df = table([2.0, 4.0, 5.0], [50.0, 60.0])
        ref = table([2.0, 4.0, 5.0], [50.0, 60.0])
        got = scale_to_nm(unit, df)
        rows_of(got, [(a, conv(w)) for a in (50.0, 60.0) for w in (2.0, 4.0, 5.0)], "scale_to_nm(%r)" % unit)
        vf.equal(got["Ψ"].values, ref["Ψ"].values, "scale_to_nm(%r) keeps psi" % unit)
        vf.equal(got["Δ"].values, ref["Δ"].values, "scale_to_nm(%r) keeps delta" % unit)
        vf.equal(list(got.index.names), NAMES, "scale_to_nm(%r) keeps the names" % unit)
    for unit in ("foo", "kg", "s^2"):
        got = vf.accepted("unknown unit %s tolerated" % unit, scale_to_nm, unit, table([2.0, 4.0], [50.0]))
        rows_of(got, [(50.0, 2.0), (50.0, 4.0)], "scale_to_nm(%r) leaves the axis alone" % unit)


# ------------------------------------------------------------------ spectraray
def spectraray(cells, wls, aois, path="/data/sr.txt", encoding="utf-8", end="\n", dec=".", sep=" "):
    lines = [sep.join([";", "WAVELENGTH"] + [a + sep + a for a in aois]) + sep]
    val = {}
    for w in wls:
        cols = [w]
        for a in aois:
            p, pv = cells.num("psi_%s_%s" % (a, w), 0, 90)
            d, dv = cells.num("delta_%s_%s" % (a, w), 0, 360)
            cols += [p, d]
            val[(float(a), float(w))] = (pv, dv)
        lines.append(sep.join(cols) + sep)
    return write(path, lines, encoding, end), val


def ob_spectraray():
    for wls, aois in ((["400.5", "500.5", "600.5"], ["50.2"]), (["400.5", "500.5"], ["50.2", "60.2", "70.2"]), (["700.5", "400.5", "500.5"], ["70.2", "50.2"]),
                      (["95.5", "400.5", "1000.5"], ["9.5", "50.2"])):
        path, val = spectraray(Cells(), wls, aois)
        lab = "spectraray file with %d angles, wavelengths %s" % (len(aois), ",".join(wls))
        df = vf.accepted(lab + " read", read_spectraray_psi_delta, path)
        check_names(df, lab)
        keys = sorted(val)
        rows_of(df, keys, lab)
        check_values(df, [val[k] for k in keys], lab, wrap180)


def ob_spectraray_separators():
    """columns separated by single tabs, each line ending in a separator as the instrument writes it"""
    for wls, aois in ((["400.5", "500.5", "600.5"], ["50.2"]), (["400.5", "500.5"], ["50.2", "60.2", "70.2"])):
        path, val = spectraray(Cells(), wls, aois, sep="\t")
        lab = "tab separated spectraray file with %d angles" % len(aois)
        for sep in ("\t", "\\t", "\\s+"):
            df = vf.accepted(lab + " read with %r" % sep, read_spectraray_psi_delta, path, sep=sep)
            keys = sorted(val)
            check_names(df, lab)
            rows_of(df, keys, lab)
            check_values(df, [val[k] for k in keys], lab, wrap180)


def ob_spectraray_rho():
    path, val = spectraray(Cells(), ["400.5", "500.5"], ["50.2", "60.2"])
    keys = sorted(val)
    check_rho(read_spectraray_rho(path), keys, [val[k] for k in keys], "spectraray rho")


def ob_spectraray_mmatrix():
    c = Cells()
    wls = ["400.5", "500.5", "600.5"]
    lines = ["; WAVELENGTH " + " ".join(["70.2"] * 16)]
    want = []
    for w in wls:
        cols = [w]
        row = []
        for i in range(4):
            for j in range(4):
                t, v = c.num("m%d%d_%s" % (i, j, w), -1, 1) if False else ("%d.%05d" % (0, 10001 + 7 * c.n), None)
                c.n += 1
                v = vf.real("m%d%d_%s" % (i, j, w), -1, 1)
                vf.numeral(t, v)
                cols.append(t)
                row.append(v)
        lines.append(" ".join(cols) + " ")
        want.append(row)
    df = vf.accepted("spectraray Mueller file read", read_spectraray_mmatrix, write("/data/mm.txt", lines))
    names = ["M%d%d" % (i + 1, j + 1) for i in range(4) for j in range(4)]
    vf.equal(list(df.columns), names, "Mueller columns")
    vf.equal(df.index.name, "Wavelength", "Mueller index name")
    vf.equal(df.index.values, np.array([400.5, 500.5, 600.5]), "Mueller wavelengths")
    for i in range(4):
        for j in range(4):
            vf.equal(df["M%d%d" % (i + 1, j + 1)].values, np.array([want[r][4 * i + j] for r in range(3)]), "Mueller element %d%d" % (i + 1, j + 1))


# ------------------------------------------------------------------ accurion
def accurion(cells, rows, path="/data/x.ds.dat", encoding="utf-8", order=("#ROIidx", "AOI", "Lambda", "Bandwidth", "Delta", "Psi")):
    unit = {"#ROIidx": "#-", "AOI": "deg", "Lambda": "nm", "Bandwidth": "nm", "Delta": "deg", "Psi": "deg"}
    lines = ["\t".join(order), "\t".join([unit[o] for o in order])]
    val = {}
    for a, w in rows:
        p, pv = cells.num("psi_%s_%s" % (a, w), 0, 90)
        d, dv = cells.num("delta_%s_%s" % (a, w), 0, 360)
        x = {"#ROIidx": "0", "AOI": a, "Lambda": w, "Bandwidth": "6.1", "Delta": d, "Psi": p}
        lines.append("\t".join([x[o] for o in order]))
        val[(float(a), float(w))] = (pv, dv)
    return write(path, lines, encoding, "\r\n"), val


def ob_accurion():
    for rows in ([("40.0", "365.0"), ("40.0", "370.0"), ("50.0", "365.0"), ("50.0", "370.0")], [("50.0", "370.0"), ("40.0", "1000.0"), ("50.0", "365.0"), ("40.0", "365.0")], [("40.0", "365.0")]):
        for order in (("#ROIidx", "AOI", "Lambda", "Bandwidth", "Delta", "Psi"), ("#ROIidx", "Psi", "Delta", "Lambda", "AOI", "Bandwidth")):
            path, val = accurion(Cells(), rows, order=order)
            lab = "accurion file %d rows (%s)" % (len(rows), order[1])
            df = vf.accepted(lab + " read", read_accurion_psi_delta, path)
            check_names(df, lab)
            keys = sorted(val)
            rows_of(df, keys, lab)
            check_values(df, [val[k] for k in keys], lab, wrap180)


# ------------------------------------------------------------------ nexus
def nexus(kind, aois, wls, path="/data/x.nxs", entry="entry", instrument="instrument", sample="sample"):
    n, m = len(aois), len(wls)
    L, N = h5py.Leaf, h5py.Node
    if kind == "legacy":
        data = vf.arr("nx", (1, 1, n, 2, m), "real", -400, 400)
        tree = N({entry: N({
            instrument: N({"spectrometer": N({"wavelength": L(np.array([10 * w for w in wls]))}), "angle_of_incidence": L(np.array(aois))}),
            sample: N({"measured_data": L(data), "data_type": L(b"psi/delta")})})})
        return path, tree, lambda i, j: (data[0, 0, i, 0, j], data[0, 0, i, 1, j])
    data = vf.arr("nx", (n, 2, m), "real", -400, 400)
    tree = N({entry: N({
        instrument: N({"angle_of_incidence": L(np.array(aois))}), sample: N({}),
        "data_collection": N({"wavelength_spectrum": L(np.array([10 * w for w in wls])), "measured_data": L(data), "data_type": L(b"Psi/Delta")})})})
    return path, tree, lambda i, j: (data[i, 0, j], data[i, 1, j])


def ob_nexus():
    for kind in ("legacy", "nx_opt"):
        for aois, wls in (([50.0, 60.0], [400.0, 500.0, 600.0]), ([70.0], [400.0, 500.0]), ([50.0, 60.0, 70.0], [500.0])):
            path, tree, at = nexus(kind, aois, wls)
            h5py.register(path, tree)
            lab = "nexus %s file %dx%d" % (kind, len(aois), len(wls))
            df = vf.accepted(lab + " read", read_nexus_psi_delta, path)
            check_names(df, lab)
            keys = [(a, w) for a in aois for w in wls]
            rows = [at(i, j) for i in range(len(aois)) for j in range(len(wls))]
            rows_of(df, keys, lab)
            check_values(df, rows, lab)
            check_rho(read_nexus_rho(path), keys, rows, lab + " as rho")


def ob_nexus_group_names():
    for kind in ("legacy", "nx_opt"):
        path, tree, at = nexus(kind, [50.0], [400.0, 500.0], "/data/y.nxs", "e1", "inst", "smp")
        h5py.register(path, tree)
        df = vf.accepted("nexus %s with own group names read" % kind, read_nexus_psi_delta, path, NexusGroupNames("e1", "smp", "inst"))
        rows_of(df, [(50.0, 400.0), (50.0, 500.0)], "nexus %s with own group names" % kind)
        check_values(df, [at(0, 0), at(0, 1)], "nexus %s with own group names" % kind)
        vf.expect_raises(ValueError, "nexus %s: wrong group names refused" % kind, read_nexus_psi_delta, path)
        vf.expect_raises(ValueError, "nexus %s: invalid group names refused" % kind, read_nexus_psi_delta, path, "e1")


def ob_nexus_refusals():
    path, tree, at = nexus("legacy", [50.0], [400.0, 500.0])
    tree.children["entry"].children["sample"].children["data_type"].value = b"Mueller matrix"
    h5py.register(path, tree)
    vf.expect_raises(NotImplementedError, "other nexus data refused", read_nexus_psi_delta, path)


def ob_nexus_unsorted():
    """angles and wavelengths in any order keep their own values"""
    for kind in ("legacy", "nx_opt"):
        for aois, wls in (([70.0, 50.0, 60.0], [400.0, 500.0]), ([60.0, 50.0], [600.0, 400.0, 500.0]), ([50.0, 60.0], [600.0, 500.0]), ([55.5, 45.25, 65.75, 60.0], [500.0])):
            path, tree, at = nexus(kind, aois, wls, "/data/u.nxs")
            h5py.register(path, tree)
            lab = "nexus %s file, angles %s, wavelengths %s" % (kind, aois, wls)
            df = vf.accepted(lab + " read", read_nexus_psi_delta, path)
            keys = [tuple(k) for k in df.index]
            vf.check(sorted(keys) == sorted([(a, w) for a in aois for w in wls]), lab + ": rows")
            for i, a in enumerate(aois):
                for j, w in enumerate(wls):
                    k = keys.index((a, w))
                    vf.equal(df["Ψ"].iloc[k], at(i, j)[0], lab + ": psi at %s, %s" % (a, w))
                    vf.equal(df["Δ"].iloc[k], at(i, j)[1], lab + ": delta at %s, %s" % (a, w))
