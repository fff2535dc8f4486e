"""C32: material files (NeXus dispersions, SpectraRay tables) are read as the materials they describe."""
import numpy as np
import h5py
import vf
import vf_io
import elli
from scipy.interpolate import interp1d
from elli.materials import IsotropicMaterial, UniaxialMaterial, BiaxialMaterial
from elli.dispersions import TableEpsilon, Table
from elli.dispersions.base_dispersion import DispersionSum, IndexDispersionSum
from elli.importer.nexus import read_nexus_materials
from elli.dispersions.table_spectraray import TableSpectraRay
from spec_common import lbda
from spec_c17 import Cells, write, EV

L, N = h5py.Leaf, h5py.Node
RII = {"dispersion": "NXdispersion", "function": "NXdispersion_function", "table": "NXdispersion_table", "single": "NXdispersion_single_parameter",
       "repeated": "NXdispersion_repeated_parameter"}
UNITS = (("micrometer", 1, lambda x: x / 1000), ("nanometer", 1, lambda x: x), ("nm", 1, lambda x: x), ("um", 1, lambda x: x / 1000), ("angstrom", 1, lambda x: 10 * x),
         ("mm", 1, lambda x: x / 1e6))


def single(name, value, units=""):
    return N({"name": L(name.encode("utf-8")), "value": L(value, units=units)}, NX_class=RII["single"])


def repeated(name, values, units=""):
    return N({"name": L(name.encode("utf-8")), "values": L(np.array(values), units=units)}, NX_class=RII["repeated"])


def function(formula, representation, params, unit="micrometer", factor=1, identifier="lambda", **extra):
    ch = {"convention": L(b"n + ik"), "model_name": L(b"model"), "formula": L(formula.encode("utf-8")), "representation": L(representation.encode("utf-8")),
          "wavelength_identifier": L(identifier.encode("utf-8")), "wavelength_unit": L(factor, units=unit), "wavelength_min": L(0.2, units=unit), "wavelength_max": L(9.0, units=unit)}
    ch.update(params)
    ch.update(extra)
    return N({k: v for k, v in ch.items() if v is not None}, NX_class=RII["function"])


def tabulated(axis, xs, kind, ys, **attrs):
    return N({"convention": L(b"n + ik"), axis: L(xs, **attrs), kind: L(ys)}, NX_class=RII["table"])


def dispersion(**parts):
    ch = {"model_name": L(b"model"), "plot": N({"wavelength": L(np.array([0.1, 0.2])), "refractive_index": L(np.array([7.0, 8.0]))}, NX_class="NXdata"),
          "reference": N({"text": L(b"somebody")})}
    ch.update(parts)
    return N(ch, NX_class=RII["dispersion"])


def entry(**axes):
    return N(axes, NX_class="NXentry")


def load(label, path="/data/mat.nxs", **entries):
    h5py.register(path, N(entries))
    return vf.accepted(label + ": read", read_nexus_materials, path)


def sellmeier(k):
    bs = [vf.pos("b%d" % i, 0.001, 50) for i in range(k)]
    cs = [vf.pos("c%d" % i, 0.01, 0.15) for i in range(k)]
    return bs, cs, lambda u: sum([b * u ** 2 / (u ** 2 - c) for b, c in zip(bs, cs)])


A = vf.pos("A", 0.01, 30)
SELL = "sum[B * lambda ** 2 / (lambda ** 2 - C)]"


def ob_functions():
    lb = lbda()
    for k in (1, 2, 3):
        bs, cs, f = sellmeier(k)
        for unit, factor, to in UNITS:
            par = {"A": single("A", A), "B": repeated("B", bs), "C": repeated("C", cs, unit)}
            lab = "formula in %s with %d terms" % (unit, k)
            m = load(lab, entry=entry(dispersion_x=dispersion(sellmeier=function("eps = A + " + SELL, "eps", par, unit, factor))))
            vf.equal(sorted(m), ["entry"], lab + ": entries")
            d = m["entry"]
            vf.check(type(d) is IsotropicMaterial, lab + ": isotropic material")
            vf.equal(d.get_tensor(lb)[:, 0, 0], A + f(to(lb)), lab + ": permittivity")
        lab = "index formula with %d terms" % k
        m = load(lab, entry=entry(dispersion_x=dispersion(sellmeier=function("n = sqrt(A + " + SELL + ")", "n", par, "micrometer"))))
        vf.equal(m["entry"].dispersion_x.get_dielectric(lb), A + f(lb / 1000), lab + ": permittivity")
        m = load(lab, entry=entry(dispersion_x=dispersion(sellmeier=function("n = A + " + SELL, "n", par, "micrometer"))))
        vf.equal(m["entry"].dispersion_x.get_refractive_index(lb), A + f(lb / 1000), lab + ": index of the dispersion")


def ob_parameter_names():
    """parameters are found by their name entry, not by the name of their group"""
    lb = lbda()
    bs, cs, f = sellmeier(2)
    par = {"p1": single("A", A), "first": repeated("B", bs), "second": repeated("C", cs, "micrometer"), "B": single("D", vf.pos("D"))}
    m = load("renamed groups", entry=entry(dispersion_x=dispersion(x=function("eps = A*D + " + SELL, "eps", par))))
    vf.equal(m["entry"].dispersion_x.get_dielectric(lb), A * vf.pos("D") + f(lb / 1000), "renamed groups: permittivity")
    par = {"a": single("A", A)}
    m = load("own axis name", entry=entry(dispersion_x=dispersion(x=function("eps = A*wl", "eps", par, identifier="wl"))))
    vf.equal(m["entry"].dispersion_x.get_dielectric(lb), A * lb / 1000, "own axis name: permittivity")
    m = load("no single parameters", entry=entry(dispersion_x=dispersion(x=function("eps = " + SELL, "eps", {"B": repeated("B", bs), "C": repeated("C", cs)}))))
    vf.equal(m["entry"].dispersion_x.get_dielectric(lb), f(lb / 1000), "no single parameters: permittivity")
    m = load("nested parameters", entry=entry(dispersion_x=dispersion(x=function("eps = A*lambda + D", "eps", {"set": N({"A": single("A", A), "D": single("D", vf.pos("D"))})}))))
    vf.equal(m["entry"].dispersion_x.get_dielectric(lb), A * lb / 1000 + vf.pos("D"), "nested parameters: permittivity")


def axis(name="x", lo=250, hi=900, n="M"):
    return vf.arr(name, (vf.size(n),), "pos", lo, hi)


def ob_tables():
    lb = lbda()
    x = axis()
    y = vf.arr("y", (vf.size("M"),), "complex")
    m = load("index table", entry=entry(dispersion_x=dispersion(t=tabulated("wavelength", x, "refractive_index", y, units="nm"))))["entry"]
    vf.check(type(m) is IsotropicMaterial and isinstance(m.dispersion_x, Table), "index table: kind")
    vf.equal(m.dispersion_x.get_refractive_index(lb), interp1d(x, y, kind="linear")(lb), "index table: index")
    m = load("permittivity table", entry=entry(dispersion_x=dispersion(t=tabulated("wavelength", x, "dielectric_function", y, units="nm"))))["entry"]
    vf.check(isinstance(m.dispersion_x, TableEpsilon), "permittivity table: kind")
    vf.equal(m.dispersion_x.get_dielectric(lb), interp1d(x, y, kind="linear")(lb), "permittivity table: permittivity")
    e = vf.arr("e", (vf.size("M"),), "pos", 1, 6)
    m = load("energy table", entry=entry(dispersion_x=dispersion(t=tabulated("energy", e, "dielectric_function", y, units="eV"))))["entry"]
    vf.equal(m.dispersion_x.get_dielectric(lb), interp1d(elli.conversion_wavelength_energy(e), y, kind="linear")(lb), "energy table: permittivity")
    m = load("energy index table", entry=entry(dispersion_x=dispersion(t=tabulated("energy", e, "refractive_index", y, units="eV"))))["entry"]
    vf.equal(m.dispersion_x.get_refractive_index(lb), interp1d(elli.conversion_wavelength_energy(e), y, kind="linear")(lb), "energy index table: index")


def ob_table_units():
    """the tabulated axis means the same whatever unit it is given in"""
    lb = lbda()
    y = vf.arr("y", (vf.size("M"),), "complex")
    for unit, factor in (("micrometer", 1000), ("nm", 1), ("angstrom", 0.1)):
        x = vf.arr("x", (vf.size("M"),), "pos", 250 / factor, 900 / factor)
        for kind in ("refractive_index", "dielectric_function"):
            m = load("%s table in %s" % (kind, unit), entry=entry(dispersion_x=dispersion(t=tabulated("wavelength", x, kind, y, units=unit))))["entry"]
            d = m.dispersion_x
            got = d.get_refractive_index(lb) if kind == "refractive_index" else d.get_dielectric(lb)
            vf.equal(got, interp1d(x * factor, y, kind="linear")(lb), "%s table in %s: values" % (kind, unit))


def ob_sums():
    lb = lbda()
    bs, cs, f = sellmeier(2)
    x = axis()
    y = vf.arr("y", (vf.size("M"),), "complex")
    par = {"B": repeated("B", bs), "C": repeated("C", cs)}
    s = function("eps = " + SELL, "eps", par)
    p = function("eps = A * lambda", "eps", {"A": single("A", A)})
    q = function("eps = D / lambda", "eps", {"D": single("D", vf.pos("D"))})
    m = load("two formulas", entry=entry(dispersion_x=dispersion(a=s, b=p)))["entry"]
    vf.check(isinstance(m.dispersion_x, DispersionSum), "two formulas: a sum")
    vf.equal(m.dispersion_x.get_dielectric(lb), f(lb / 1000) + A * lb / 1000, "two formulas: permittivity")
    m = load("three formulas", entry=entry(dispersion_x=dispersion(a=p, b=s, z=q)))["entry"]
    vf.equal(m.dispersion_x.get_dielectric(lb), f(lb / 1000) + A * lb / 1000 + vf.pos("D") * 1000 / lb, "three formulas: permittivity")
    m = load("table first", entry=entry(dispersion_x=dispersion(a=tabulated("wavelength", x, "dielectric_function", y), b=p)))["entry"]
    vf.equal(m.dispersion_x.get_dielectric(lb), interp1d(x, y, kind="linear")(lb) + A * lb / 1000, "table and formula: permittivity")
    m = load("table last", entry=entry(dispersion_x=dispersion(a=s, z=tabulated("wavelength", x, "dielectric_function", y))))["entry"]
    vf.equal(m.dispersion_x.get_dielectric(lb), interp1d(x, y, kind="linear")(lb) + f(lb / 1000), "formula and table: permittivity")
    n = function("n = A * lambda", "n", {"A": single("A", A)})
    m = load("index sum", entry=entry(dispersion_x=dispersion(a=n, z=tabulated("wavelength", x, "refractive_index", y))))["entry"]
    vf.check(isinstance(m.dispersion_x, IndexDispersionSum), "index sum: a sum of indices")
    vf.equal(m.dispersion_x.get_refractive_index(lb), interp1d(x, y, kind="linear")(lb) + A * lb / 1000, "index sum: index")


def plain(name):
    return dispersion(f=function("eps = A * lambda", "eps", {"A": single("A", vf.pos(name))}))


def ob_axes():
    lb = lbda()
    u = lb / 1000
    m = load("isotropic", entry=entry(dispersion_x=plain("px")))["entry"]
    t = m.get_tensor(lb)
    vf.check(type(m) is IsotropicMaterial, "isotropic: kind")
    for i in range(3):
        vf.equal(t[:, i, i], vf.pos("px") * u, "isotropic: axis %d" % i)
    m = load("uniaxial", entry=entry(dispersion_x=plain("px"), dispersion_z=plain("pz")))["entry"]
    t = m.get_tensor(lb)
    vf.check(type(m) is UniaxialMaterial, "uniaxial: kind")
    for i, w in enumerate(("px", "px", "pz")):
        vf.equal(t[:, i, i], vf.pos(w) * u, "uniaxial: axis %d" % i)
    m = load("biaxial", entry=entry(dispersion_x=plain("px"), dispersion_y=plain("py"), dispersion_z=plain("pz")))["entry"]
    t = m.get_tensor(lb)
    vf.check(type(m) is BiaxialMaterial, "biaxial: kind")
    for i, w in enumerate(("px", "py", "pz")):
        vf.equal(t[:, i, i], vf.pos(w) * u, "biaxial: axis %d" % i)
        for j in range(3):
            if i != j:
                vf.equal(t[:, i, j], 0 * lb, "biaxial: element %d%d" % (i, j))


def ob_entries():
    lb = lbda()
    m = load("several entries", first=entry(dispersion_x=plain("p1")), other=entry(dispersion_x=plain("p2"), dispersion_z=plain("p3")), third=entry(dispersion_x=plain("p4")))
    vf.equal(sorted(m), ["first", "other", "third"], "several entries: names")
    for k, w in (("first", "p1"), ("other", "p2"), ("third", "p4")):
        vf.equal(m[k].dispersion_x.get_dielectric(lb), vf.pos(w) * lb / 1000, "several entries: " + k)
    vf.check(vf_io.still_open() == [], "several entries: file closed")
    m = load("empty file")
    vf.equal(m, {}, "empty file: no materials")


def ob_refusals():
    par = {"A": single("A", A)}
    x = axis()
    y = vf.arr("y", (vf.size("M"),), "complex")

    def bad(exc, lab, **entries):
        h5py.register("/data/bad.nxs", N(entries))
        vf.expect_raises(exc, lab, read_nexus_materials, "/data/bad.nxs")

    bad(ValueError, "no x axis", entry=entry(dispersion_z=plain("p")))
    bad(ValueError, "empty entry", entry=entry())
    bad(NotImplementedError, "energy axis", entry=entry(dispersion_x=dispersion(f=function("eps = A * E", "eps", par, energy_identifier=L(b"E"), energy_unit=L(1, units="eV")))))
    bad(NotImplementedError, "energy axis only",
        entry=entry(dispersion_x=dispersion(f=function("eps = A * E", "eps", par, energy_identifier=L(b"E"), wavelength_identifier=None, wavelength_unit=None))))
    bad(ValueError, "unknown representation", entry=entry(dispersion_x=dispersion(f=function("eps = A * lambda", "sigma", par))))
    bad(ValueError, "text and representation disagree", entry=entry(dispersion_x=dispersion(f=function("eps = A * lambda", "n", par))))
    bad(ValueError, "text and representation disagree the other way", entry=entry(dispersion_x=dispersion(f=function("n = A * lambda", "eps", par))))
    bad(ValueError, "table without axis", entry=entry(dispersion_x=dispersion(t=tabulated("frequency", x, "dielectric_function", y))))
    bad(ValueError, "table without values", entry=entry(dispersion_x=dispersion(t=tabulated("wavelength", x, "reflectivity", y))))
    bad(ValueError, "unsupported unit", entry=entry(dispersion_x=dispersion(f=function("eps = A * lambda", "eps", par, "kilogram"))))
    bad(ValueError, "lists of different length",
        entry=entry(dispersion_x=dispersion(f=function("eps = " + SELL, "eps", {"B": repeated("B", [vf.pos("b0")]), "C": repeated("C", [vf.pos("c0"), vf.pos("c1")])}))))
    vf.expect_raises(FileNotFoundError, "missing file", read_nexus_materials, "/data/none.nxs")


# ------------------------------------------------------------------ SpectraRay tables
def mat(unit, rows, before=(), after=("Object End", "  End of layer"), extra=None, path="/data/m.mat"):
    lines = ["###### File Layer=3", "  Reference=no", "  Name=Silicon", "Comment", "End Section", "  LambdaMin=206.6667"] + list(before) + ["Units=%s,E1E2" % unit, "Name=", "D.Aspnes", ".end", "Begin of array"]
    cells = Cells()
    vals = []
    for w in rows:
        a, av = cells.num("e1_%s" % w, -30, 30)
        b, bv = cells.num("e2_%s" % w, 0, 40)
        lines.append(" " + "     ".join([w, a, b] + ([extra] if extra else [])))
        vals.append((float(w), av, bv))
    write(path, lines + ["End of array"] + list(after))
    return vals


def ob_spectraray_table():
    lb = vf.arr("lb", (vf.size("N"),), "pos", 410, 490)
    for unit, rows, conv in (("eV", ["2.5", "3.0", "3.5"], lambda x: elli.conversion_wavelength_energy(x)), ("Wavelength", ["400", "450.5", "500"], lambda x: x), ("Wavelength", ["400", "500"], lambda x: x)):
        for before in ((), ("  LambdaMax=826.6667", "  Other=3")):
            for after in (("Object End", "  End of layer"), ()):
                for extra in (None, "9.75"):
                    vals = mat(unit, rows, before, after, extra)
                    lab = "%s table of %d rows%s%s%s" % (unit, len(rows), ", longer header" if before else "", ", trailer" if after else "", ", extra column" if extra else "")
                    d = vf.accepted(lab + ": read", TableSpectraRay("/data/").load_dispersion_table, "m.mat")
                    vf.check(type(d) is TableEpsilon, lab + ": kind")
                    x = np.array([conv(v[0]) for v in vals])
                    y = np.array([v[1] + 1j * v[2] for v in vals])
                    vf.equal(np.array(d.single_params["lbda"]), x, lab + ": wavelengths")
                    vf.equal(np.array(d.single_params["epsilon"]), y, lab + ": permittivity")
                    vf.equal(d.get_dielectric(lb), interp1d(x, y, kind="linear")(lb), lab + ": dielectric function")
    vf.check(vf_io.still_open() == [], "SpectraRay tables: files closed")


def ob_spectraray_folder():
    a = mat("Wavelength", ["400", "500"], path="/data/a.mat")
    b = mat("Wavelength", ["450", "550"], path="/data/b.mat")
    t = TableSpectraRay("/data/")
    for k in range(2):
        for f, w in (("a.mat", [400.0, 500.0]), ("b.mat", [450.0, 550.0])):
            vf.equal(list(t.load_dispersion_table(f).single_params["lbda"]), w, "table %s, reading %d" % (f, k))
    vf.expect_raises(FileNotFoundError, "missing table", t.load_dispersion_table, "c.mat")


def ob_special_values():
    """parameters that are zero, negative or repeat an earlier value are read like any other"""
    lb = lbda()
    u = lb / 1000
    for bv, cv in (([2.0, 1.0, 2.0], [0.5, 0.25, 0.75]), ([0.0, 1.5], [0.25, 0.25]), ([3.0, 3.0], [0.125, 0.125]), ([1.5], [0.0]), ([-1.0, 0.0, 0.0], [3.0, 2.0, 1.0])):
        for a in (0.0, 1.0, -2.0, 0):
            par = {"A": single("A", a), "D": single("D", vf.pos("D")), "B": repeated("B", bv), "C": repeated("C", cv)}
            lab = "A=%r, B=%r, C=%r" % (a, bv, cv)
            m = load(lab, entry=entry(dispersion_x=dispersion(x=function("eps = A*D + " + SELL, "eps", par))))
            want = a * vf.pos("D")
            for b, c in zip(bv, cv):
                want = want + b * u ** 2 / (u ** 2 - c)
            vf.equal(m["entry"].dispersion_x.get_dielectric(lb), want, lab + ": permittivity")
            m = load(lab, entry=entry(dispersion_x=dispersion(x=function("n = A*D + " + SELL, "n", par))))
            vf.equal(m["entry"].dispersion_x.get_refractive_index(lb), want, lab + ": index")


def ob_member_order():
    """the members of a group mean what their names say, in whatever order and company they are stored"""
    lb = lbda()
    u = lb / 1000
    other = N({"text": L(b"by somebody"), "value": L(7.0)}, NX_class="NXcite")
    for order in (("x", "z", "y"), ("y", "x", "z"), ("y", "z", "x"), ("z", "x", "y"), ("z", "y", "x"), ("z", "x"), ("x", "y", "z"), ("x", "z"), ("x",)):
        for extra in (False, True):
            lab = "axes stored as %s%s" % (", ".join(order), " among other members" if extra else "")
            members = {}
            for k, a in enumerate(order):
                if extra:
                    members["other%d" % k] = other
                members["dispersion_" + a] = plain("p" + a)
            if extra:
                members["chemical_formula"] = L(b"SiO2")
                members["dispersion_type"] = L(b"measured")
            m = load(lab, entry=h5py.tracked(entry(**members)))["entry"]
            t = m.get_tensor(lb)
            vf.check(type(m) is {1: IsotropicMaterial, 2: UniaxialMaterial, 3: BiaxialMaterial}[len(order)], lab + ": kind")
            for i, a in enumerate({1: "xxx", 2: "xxz", 3: "xyz"}[len(order)]):
                vf.equal(t[:, i, i], vf.pos("p" + a) * u, lab + ": axis %d" % i)
    bs, cs, f = sellmeier(2)
    names = {"A": single("A", A), "B": repeated("B", bs), "C": repeated("C", cs), "D": single("D", vf.pos("D"))}
    for order in ("ABCD", "DCBA", "CABD", "BDAC"):
        for extra in (False, True):
            par = {}
            for k in order:
                if extra:
                    par["cite_" + k] = other
                par[k] = names[k]
            lab = "parameters stored as %s%s" % (order, " among other members" if extra else "")
            m = load(lab, entry=entry(dispersion_x=dispersion(x=h5py.tracked(function("eps = A*D + " + SELL, "eps", par)))))["entry"]
            vf.equal(m.dispersion_x.get_dielectric(lb), A * vf.pos("D") + f(u), lab + ": permittivity")


def ob_separate_parameters():
    """every dispersion has its own parameters, whatever the others in the file are called"""
    lb = lbda()
    u = lb / 1000
    p = lambda k: function("eps = A * lambda", "eps", {"A": single("A", vf.pos("own%d" % k))})
    s = lambda k: function("eps = " + SELL, "eps", {"B": repeated("B", [vf.pos("b%d" % k, 0.001, 50)] * (k + 1)), "C": repeated("C", [vf.pos("c%d" % k, 0.01, 0.15)] * (k + 1))})
    val = lambda k: (k + 1) * vf.pos("b%d" % k, 0.001, 50) * u ** 2 / (u ** 2 - vf.pos("c%d" % k, 0.01, 0.15))
    m = load("parameters of the same name", first=entry(dispersion_x=dispersion(a=p(0), b=p(1)), dispersion_z=dispersion(a=s(0), b=s(2))), second=entry(dispersion_x=dispersion(a=s(1), b=p(2))))
    vf.equal(m["first"].dispersion_x.get_dielectric(lb), (vf.pos("own0") + vf.pos("own1")) * u, "parameters of the same name: sum of two functions")
    vf.equal(m["first"].dispersion_z.get_dielectric(lb), val(0) + val(2), "parameters of the same name: other axis")
    vf.equal(m["second"].dispersion_x.get_dielectric(lb), val(1) + vf.pos("own2") * u, "parameters of the same name: other entry")
    for name, formula in (("A", "eps = A * lambda"), ("B", "eps = sum[B * lambda]")):
        bare = entry(dispersion_x=dispersion(a=p(0), b=s(1)), dispersion_z=dispersion(f=function(formula, "eps", {})))

        def use(bare=bare):
            h5py.register("/data/bare.nxs", N({"first": bare}))
            return read_nexus_materials("/data/bare.nxs")["first"].dispersion_z.get_dielectric(np.array([500.0, 600.0]))

        vf.expect_raises(Exception, "parameter %s of another dispersion is not taken over" % name, use)
