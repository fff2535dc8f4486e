"""C18: files are closed and process-wide state restored on every way out of a library call."""
import warnings
import numpy as np
import pandas as pd
import h5py
import vf
import vf_io
import elli
from elli.units import ureg
from elli.utils import calc_rho
from elli.materials import VCAMaterial, LooyengaEMA, MaxwellGarnettEMA, BruggemanEMA, IsotropicMaterial, UniaxialMaterial
from elli.importer.nexus import NexusGroupNames, read_nexus_psi_delta, read_nexus_rho, read_nexus_materials
from elli.importer.spectraray import read_spectraray_psi_delta, read_spectraray_rho, read_spectraray_mmatrix
from elli.importer.woollam import read_woollam_psi_delta, read_woollam_rho, scale_to_nm
from elli.importer.accurion import read_accurion_psi_delta
from elli.dispersions.table_spectraray import TableSpectraRay
from elli.dispersions.formula import Formula, FormulaIndex
from spec_common import lbda, iso, SymMat
from spec_c17 import Cells, write, wvase, complete_ease, spectraray, accurion, nexus, table
from spec_c22 import ROOT, database, numbers, page
from spec_c32 import single, repeated, function, tabulated, dispersion, entry, L, N

ENCODINGS = ("utf-8", "utf-16", "iso-8859-1", "cp1252")


def attempt(label, fn, *args):
    """call fn, whatever comes of it; afterwards everything is as it was before"""
    state, filters = vf.process_state(), list(warnings.filters)
    units = vf.clone(ureg)
    vf_io.reset()
    out = None
    try:
        out = fn(*args)
    except Exception:
        pass
    except KeyboardInterrupt:
        pass
    vf.check(vf_io.still_open() == [], label + ": files closed")
    vf.check(vf_io.WRONG == [], label + ": decoded with the encoding of the file")
    vf.equal(vf.process_state(), state, label + ": settings")
    vf.equal(warnings.filters, filters, label + ": warning filters")
    vf.equal(ureg.__dict__, units.__dict__, label + ": unit registry")
    return out


def faults(label, path, fn, *args, limit=14):
    """the n-th operation on the file fails, for every n"""
    for exc, name in ((OSError, "an I/O error"), (KeyboardInterrupt, "an interrupt")):
        for n in range(limit):
            vf_io.arm(path, n, exc)
            attempt("%s, operation %d fails with %s" % (label, n, name), fn, *args)
            if not vf_io.disarm():
                break


# ------------------------------------------------------------------ measurement files
def ob_woollam():
    for enc in ENCODINGS:
        path, keys, rows = wvase(Cells(), "nm", ["400.0", "500.0"], ["55.0"], True, "/data/w.dat", enc)
        for fn in (read_woollam_psi_delta, read_woollam_rho):
            df = attempt("wvase file in %s" % enc, fn, path)
            vf.check(df is not None and len(df) == 2, "wvase file in %s: complete" % enc)
        path, keys, rows = complete_ease(Cells(), "eV", ["2.0", "3.0"], ["55.0"], "/data/c.dat", enc)
        for fn in (read_woollam_psi_delta, read_woollam_rho):
            df = attempt("CompleteEASE file in %s" % enc, fn, path)
            vf.check(df is not None and len(df) == 2, "CompleteEASE file in %s: complete" % enc)


def ob_woollam_refused():
    for what, lines in (("tan cos", ["sample", "nm  TRIG", "300 70  .245    .123"]), ("no data", ["a", "b", "c"]), ("empty", []), ("unknown unit", ["x", "parsec2", "400.0\t55.0\t1.5\t2.5\t0.1\t0.1"]),
                        ("no header", ["400.0\t55.0\t1.5\t2.5\t0.1\t0.1"])):
        for enc in ENCODINGS[:2]:
            path = write("/data/r.dat", lines, enc)
            attempt("Woollam file (%s) in %s" % (what, enc), read_woollam_psi_delta, path)
            attempt("Woollam file (%s) in %s as rho" % (what, enc), read_woollam_rho, path)
    attempt("missing Woollam file", read_woollam_psi_delta, "/data/missing.dat")


def ob_woollam_faults():
    path, keys, rows = wvase(Cells(), "nm", ["400.0"], ["55.0"], False, "/data/wf.dat")
    faults("wvase file", path, read_woollam_psi_delta, path)
    path, keys, rows = complete_ease(Cells(), "nm", ["400.0"], ["55.0"], "/data/cf.dat")
    faults("CompleteEASE file", path, read_woollam_rho, path)


def ob_spectraray():
    for enc in ENCODINGS:
        path, val = spectraray(Cells(), ["400.5", "500.5"], ["50.2"], "/data/s.txt", enc)
        for fn in (read_spectraray_psi_delta, read_spectraray_rho):
            df = attempt("SpectraRay file in %s" % enc, fn, path)
            vf.check(df is not None and len(df) == 2, "SpectraRay file in %s: complete" % enc)
        row = " ".join(["400.5"] + ["0.%d" % (100 + i) for i in range(16)]) + " "
        df = attempt("SpectraRay Mueller file in %s" % enc, read_spectraray_mmatrix, write("/data/sm.txt", ["; WAVELENGTH " + " ".join(["70.2"] * 16), row], enc))
        vf.check(df is not None and len(df) == 1, "SpectraRay Mueller file in %s: complete" % enc)


def ob_spectraray_refused():
    for what, lines in (("empty", []), ("header only", ["; WAVELENGTH 50.2 50.2"]), ("words", ["; WAVELENGTH a a", "400.5 20.1 30.1"]), ("missing columns", ["; WAVELENGTH 50.2 50.2 60.2 60.2", "400.5 20.1 30.1"])):
        path = write("/data/sx.txt", lines, "iso-8859-1")
        for fn in (read_spectraray_psi_delta, read_spectraray_rho, read_spectraray_mmatrix):
            attempt("SpectraRay file (%s), %s" % (what, fn.__name__), fn, path)
    for fn in (read_spectraray_psi_delta, read_spectraray_rho, read_spectraray_mmatrix):
        attempt("missing SpectraRay file, %s" % fn.__name__, fn, "/data/missing.txt")


def ob_spectraray_faults():
    path, val = spectraray(Cells(), ["400.5", "500.5"], ["50.2"], "/data/sf.txt")
    faults("SpectraRay file", path, read_spectraray_psi_delta, path)
    row = " ".join(["400.5"] + ["0.%d" % (100 + i) for i in range(16)]) + " "
    path = write("/data/smf.txt", ["; WAVELENGTH " + " ".join(["70.2"] * 16), row])
    faults("SpectraRay Mueller file", path, read_spectraray_mmatrix, path)


def ob_accurion():
    for enc in ENCODINGS:
        path, val = accurion(Cells(), [("40.0", "365.0"), ("50.0", "365.0")], "/data/a.dat", enc)
        df = attempt("Accurion file in %s" % enc, read_accurion_psi_delta, path)
        vf.check(df is not None and len(df) == 2, "Accurion file in %s: complete" % enc)
    attempt("Accurion file without columns", read_accurion_psi_delta, write("/data/ax.dat", ["a\tb", "-\t-", "1.5\t2.5"], "cp1252"))
    attempt("Accurion file with words", read_accurion_psi_delta, write("/data/ay.dat", ["AOI\tLambda\tDelta\tPsi", "deg\tnm\tdeg\tdeg", "1.5\tx\t1.5\t2.5"], "cp1252"))
    attempt("missing Accurion file", read_accurion_psi_delta, "/data/missing.dat")
    path, val = accurion(Cells(), [("40.0", "365.0")], "/data/af.dat")
    faults("Accurion file", path, read_accurion_psi_delta, path)


# ------------------------------------------------------------------ NeXus files
def ob_nexus():
    for kind in ("legacy", "nx_opt"):
        path, tree, at = nexus(kind, [50.0, 60.0], [400.0, 500.0], "/data/n.nxs")
        h5py.register(path, tree)
        for fn in (read_nexus_psi_delta, read_nexus_rho):
            df = attempt("NeXus %s, %s" % (kind, fn.__name__), fn, path)
            vf.check(df is not None and len(df) == 4, "NeXus %s, %s: usable after the file is closed" % (kind, fn.__name__))
        attempt("NeXus %s with other names" % kind, read_nexus_psi_delta, path, NexusGroupNames("a", "b", "c"))
        attempt("NeXus %s with wrong names" % kind, read_nexus_psi_delta, path, "a")


def drop(tree, *keys):
    for k in keys[:-1]:
        tree = tree.children[k]
    del tree.children[keys[-1]]


def ob_nexus_refused():
    cuts = {"legacy": (("entry",), ("entry", "sample"), ("entry", "sample", "data_type"), ("entry", "sample", "measured_data"), ("entry", "instrument", "angle_of_incidence"), ("entry", "instrument", "spectrometer")),
            "nx_opt": (("entry", "data_collection"), ("entry", "data_collection", "data_type"), ("entry", "data_collection", "measured_data"), ("entry", "data_collection", "wavelength_spectrum"),
                       ("entry", "instrument", "angle_of_incidence"))}
    for kind in cuts:
        for cut in cuts[kind]:
            path, tree, at = nexus(kind, [50.0], [400.0, 500.0], "/data/nr.nxs")
            drop(tree, *cut)
            h5py.register(path, tree)
            attempt("NeXus %s without %s" % (kind, "/".join(cut)), read_nexus_psi_delta, path)
    path, tree, at = nexus("legacy", [50.0], [400.0, 500.0], "/data/nr.nxs")
    tree.children["entry"].children["sample"].children["data_type"].value = b"Mueller matrix"
    h5py.register(path, tree)
    attempt("NeXus of other data", read_nexus_psi_delta, path)
    attempt("missing NeXus file", read_nexus_psi_delta, "/data/missing.nxs")
    attempt("missing NeXus file as rho", read_nexus_rho, "/data/missing.nxs")


def ob_nexus_faults():
    for kind in ("legacy", "nx_opt"):
        path, tree, at = nexus(kind, [50.0], [400.0], "/data/nf.nxs")
        h5py.register(path, tree)
        faults("NeXus %s" % kind, path, read_nexus_psi_delta, path)


FORMULA = ("eps = eps_inf + sum[A * lambda**2 / (lambda**2 - B**2)]", "eps")


def parts():
    f = function(FORMULA[0], FORMULA[1], {"e": single("eps_inf", vf.pos("e")), "a": repeated("A", [vf.pos("A", 0.1, 3)]), "b": repeated("B", [vf.pos("B", 0.01, 0.1)], "micrometer")})
    t = tabulated("wavelength", np.array([300.0, 400.0, 900.0]), "refractive_index", vf.arr("y", (3,), "complex"), units="nanometer")
    e = tabulated("energy", np.array([4.0, 3.0, 1.0]), "dielectric_function", vf.arr("ye", (3,), "complex"), units="eV")
    return f, t, e


def ob_nexus_materials():
    for i, part in enumerate(parts()):
        for axes in (("x",), ("x", "z"), ("x", "y", "z")):
            path = "/data/m.nxs"
            h5py.register(path, N({"e": entry(**{"dispersion_" + a: dispersion(f=part) for a in axes})}))
            lab = "material file %d with %s" % (i, ",".join(axes))
            attempt(lab, read_nexus_materials, path)
            got = vf.accepted(lab + " read", read_nexus_materials, path)
            attempt(lab + " evaluated", got["e"].get_tensor, lbda())
            vf.accepted(lab + ": usable after the file is closed", got["e"].get_tensor, lbda())


def ob_nexus_materials_refused():
    f, t, e = parts()
    bad = {"no x axis": entry(dispersion_z=dispersion(f=f)), "no dispersion": entry(dispersion_x=dispersion()), "energy formula": entry(dispersion_x=dispersion(
        f=function("eps = 1 + 0 * E", "eps", {}, energy_identifier=L(b"E")))), "unknown representation": entry(dispersion_x=dispersion(f=function("eps = 1 + 0 * lambda", "chi", {}))),
        "broken formula": entry(dispersion_x=dispersion(f=function("eps = 1 + (lambda", "eps", {}))), "no axis": entry(dispersion_x=dispersion(t=tabulated("time", np.array([1.0, 2.0]), "refractive_index", np.array([1.0, 2.0])))),
        "no values": entry(dispersion_x=dispersion(t=tabulated("wavelength", np.array([1.0, 2.0]), "other", np.array([1.0, 2.0])))), "two tables": entry(dispersion_x=dispersion(t=t, u=e)),
        "foreign unit": entry(dispersion_x=dispersion(f=function(FORMULA[0], "eps", {"e": single("eps_inf", 1.0), "a": repeated("A", [1.0]), "b": repeated("B", [1.0])}, unit="bogus")))}
    for k in bad:
        h5py.register("/data/mr.nxs", N({"e": bad[k]}))
        attempt("material file (%s)" % k, read_nexus_materials, "/data/mr.nxs")
    attempt("missing material file", read_nexus_materials, "/data/missing.nxs")


def ob_nexus_materials_faults():
    f, t, e = parts()
    for k, p in (("table", t), ("function", f)):
        h5py.register("/data/mf.nxs", N({"e": entry(dispersion_x=dispersion(f=p))}))
        faults("material file with a %s" % k, "/data/mf.nxs", read_nexus_materials, "/data/mf.nxs", limit=60)


# ------------------------------------------------------------------ tables and database
ARRAY = ["some header", "Units=Wavelength,Epsilon", "Begin of array", "400.0 2.5 0.5", "500.0 2.25 0.25", "End of array", "rest"]


def ob_spectraray_table():
    loader = TableSpectraRay("/tab/")
    for unit in ("Wavelength", "Energy"):
        lines = list(ARRAY)
        lines[1] = "Units=%s,Epsilon" % unit
        write("/tab/t.asc", lines)
        attempt("SpectraRay table over %s" % unit, loader.load_dispersion_table, "t.asc")
        faults("SpectraRay table over %s" % unit, "/tab/t.asc", loader.load_dispersion_table, "t.asc", limit=20)
    for what, lines in (("empty", []), ("without units", [ARRAY[0]] + ARRAY[2:]), ("without array", ARRAY[:2]), ("of words", ARRAY[:3] + ["a b c"] + ARRAY[5:]), ("unclosed", ARRAY[:5])):
        write("/tab/x.asc", lines)
        attempt("SpectraRay table %s" % what, loader.load_dispersion_table, "x.asc")
    attempt("missing SpectraRay table", loader.load_dispersion_table, "missing.asc")


def record(kind="tabulated nk"):
    return {"type": kind, "data": "0.4 1.5 0.1\n0.5 1.4 0.2\n"}


def ob_database():
    for enc in ENCODINGS[:1] + ("ascii",):
        attempt("database with records in %s" % enc, database, [[record()], [{"type": "formula 9", "coefficients": "1 2 3"}], [record("tabulated zz")], [{"type": "formula 1", "coefficients": "1 x"}]], enc)
        db = database([[record()], [{"type": "formula 9", "coefficients": "1 2 3"}], [record("tabulated zz")], [{"type": "formula 1", "coefficients": "1 x"}]], enc)
        for page_ in ("P0", "P1", "P2", "P3", "P9"):
            for fn in (db.get_dispersion, db.get_mat, db.get_reference, db.get_comment):
                attempt("%s of %s in %s" % (fn.__name__, page_, enc), fn, "B", page_)
        attempt("unknown book", db.get_mat, "nothing", "P0")
        for fuzzy in (True, False):
            attempt("search, fuzzy %s" % fuzzy, db.search, "B", "book", None, fuzzy)
            attempt("search with a wrong filter, fuzzy %s" % fuzzy, db.search, "B", "book", "wrong", fuzzy)
            attempt("search in an unknown column, fuzzy %s" % fuzzy, db.search, "B", "colour", None, fuzzy)


def ob_database_faults():
    db = database([[record()]])
    path = [p for p in vf_io.FILES if p.startswith(ROOT + "data/")][-1]
    for fn in (db.get_dispersion, db.get_reference, db.get_comment):
        faults(fn.__name__, path, fn, "B", "P0")
    faults("catalog", ROOT + "catalog-nk.yml", elli.db.RII)
    vf_io.register(ROOT + "catalog-nk.yml", [{"SHELF": "main"}], "utf-8")
    attempt("broken catalog", elli.db.RII)
    del vf_io.FILES[path]
    attempt("missing page", db.get_mat, "B", "P0")
    del vf_io.FILES[ROOT + "catalog-nk.yml"]
    attempt("missing catalog", elli.db.RII)


# ------------------------------------------------------------------ evaluations
class Failing:
    """a material whose evaluation fails"""

    def get_tensor(self, lbda):
        raise RuntimeError("no data")


class Wrong:
    """a material whose evaluation does not fit"""

    def get_tensor(self, lbda):
        return "tensor"


def failing(kind):
    m = iso("x")
    m.get_tensor = (Failing() if kind == "failing" else Wrong()).get_tensor
    return m


def ob_mixtures():
    lb = lbda()
    f = vf.real("f", 0, 1)
    good = {"host": lambda: iso("h"), "guest": lambda: iso("g")}
    for cls in (VCAMaterial, LooyengaEMA, MaxwellGarnettEMA, BruggemanEMA):
        attempt(cls.__name__, cls(iso("h"), iso("g"), f).get_tensor, lb)
        attempt(cls.__name__ + " index", cls(iso("h"), iso("g"), f).get_refractive_index, lb)
        for kind in ("failing", "wrong"):
            attempt("%s, %s host" % (cls.__name__, kind), cls(failing(kind), iso("g"), f).get_tensor, lb)
            attempt("%s, %s guest" % (cls.__name__, kind), cls(iso("h"), failing(kind), f).get_tensor, lb)
        attempt(cls.__name__ + " with a wrong fraction", cls(iso("h"), iso("g"), f).get_tensor_fraction, lb, "half")
        attempt(cls.__name__ + " of absent wavelengths", cls(iso("h"), iso("g"), f).get_tensor_fraction, None, f)


def ob_units():
    for unit in ("nm", "eV", "um", "1/cm", "THz", "foo", "kg", "s^2", "", "2 nm", "Angstroms"):
        attempt("scale_to_nm(%r)" % unit, scale_to_nm, unit, table([2.0, 4.0], [50.0]))
        attempt("scale_to_nm(%r) of a flat table" % unit, scale_to_nm, unit, pd.DataFrame({"Ψ": [1.0, 2.0]}, index=[3.0, 4.0]))
    for unit in ("nm", "um", "eV", "1/cm", "foo", "kg", ""):
        for cls, lhs in ((Formula, "eps"), (FormulaIndex, "n")):
            d = attempt("%s in %r" % (cls.__name__, unit), cls, "%s = c + 0 * lambda" % lhs, "lambda", {"c": 2.0}, {}, unit)
            if d is not None:
                attempt("%s in %r evaluated" % (cls.__name__, unit), d.get_dielectric, lbda())
    for text in ("eps = ", "eps = a +", "n = 1", "eps = sum[", "eps = lambda lambda", "x"):
        attempt("Formula(%r)" % text, Formula, text, "lambda", {}, {}, "nm")


def ob_parser():
    from elli.formula_parser.parser import parse_formula
    for text in ("eps = A * lambda", "eps = ", "eps = 1 +", "eps = sum[a * lambda]", "eps = sin(lambda)", "eps = (", "eps == 2", ""):
        attempt("parse %r" % text, parse_formula, text)


def ob_solvers():
    lb = np.array([400.0, 500.0])
    for name, n in (("transparent", 1.5), ("absorbing", 1.5 + 0.25j), ("active", 1.5 - 0.25j)):
        for solver in (elli.Solver2x2, elli.Solver4x4):
            for layers in ([], [elli.Layer(IsotropicMaterial(elli.ConstantRefractiveIndex(n=n)), vf.pos("d"))]):
                s = elli.Structure(elli.AIR, layers, IsotropicMaterial(elli.ConstantRefractiveIndex(n=n)))
                attempt("%s with %d layers, %s" % (name, len(layers), solver.__name__), s.evaluate, lb, 70, solver)
    for kind in ("failing", "wrong"):
        for solver in (elli.Solver2x2, elli.Solver4x4):
            attempt("%s substrate, %s" % (kind, solver.__name__), elli.Structure(elli.AIR, [], failing(kind)).evaluate, lb, 70, solver)
            attempt("%s layer, %s" % (kind, solver.__name__), elli.Structure(elli.AIR, [elli.Layer(failing(kind), 20)], elli.AIR).evaluate, lb, 70, solver)
