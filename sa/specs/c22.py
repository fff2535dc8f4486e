import numpy as np
import vf
import vf_io
import elli
from elli.dispersions.base_dispersion import IndexDispersion, Dispersion
from spec_common import lbda

ROOT = "/pkg/elli/database/refractiveindexinfo-database/database/"


MADE = []
TAGS = {}


def page(name, title, path):
    return {"PAGE": name, "name": title, "data": path}


def database(records, encoding="ascii"):
    """a database whose pages P0, P1, ... hold the given records"""
    pages = [{"DIVIDER": "Experimental data"}]
    MADE.append(0)
    for i, data in enumerate(records):
        pages.append(page("P%d" % i, "Author%d 2001: n 0.2-2.5 µm" % i, "main/B/nk/P%d-%d.yml" % (i, len(MADE))))
        vf_io.register(ROOT + "data/main/B/nk/P%d-%d.yml" % (i, len(MADE)), {"REFERENCES": "ref %d" % i, "COMMENTS": "comment %d" % i, "DATA": data}, encoding)
    vf_io.register(ROOT + "catalog-nk.yml", [{"SHELF": "main", "name": "MAIN", "content": [{"DIVIDER": "Ag - Silver"}, {"BOOK": "B", "name": "B (material)", "content": pages}]}], "utf-8")
    return elli.db.RII()


def numbers(tag, n):
    """n coefficients as text and value"""
    vals = [vf.real("%s%d" % (tag, i), 0.25 + 0.5 * i, 0.5 + 0.5 * i) for i in range(n)]
    texts = [vf.numeral("0.%d000%d" % (TAGS.setdefault(tag, len(TAGS) + 1), i), v) for i, v in enumerate(vals)]
    return " ".join(texts), vals


def um():
    return lbda() / 1000


def sellmeier1(c):
    L = um()
    s = 1 + c[0] + 0 * L
    for i in range(1, len(c) - 1, 2):
        s = s + c[i] * L ** 2 / (L ** 2 - c[i + 1] ** 2)
    return s


def sellmeier2(c):
    L = um()
    s = 1 + c[0] + 0 * L
    for i in range(1, len(c) - 1, 2):
        s = s + c[i] * L ** 2 / (L ** 2 - c[i + 1])
    return s


def powers(c):
    L = um()
    s = c[0] + 0 * L
    for i in range(1, len(c) - 1, 2):
        s = s + c[i] * L ** c[i + 1]
    return s


def formula4(c):
    L = um()
    s = c[0] + 0 * L
    for i in (1, 5):
        if i + 3 < len(c):
            s = s + c[i] * L ** c[i + 1] / (L ** 2 - c[i + 2] ** c[i + 3])
    for i in range(9, len(c) - 1, 2):
        s = s + c[i] * L ** c[i + 1]
    return s


EPS = {"formula 1": (sellmeier1, (1, 3, 5, 7, 13, 21)), "formula 2": (sellmeier2, (1, 3, 5, 7, 9, 19)), "formula 3": (powers, (1, 3, 5, 9, 17, 25)), "formula 4": (formula4, (1, 5, 9, 11, 13, 17, 23))}


def formula(kind, n):
    text, vals = numbers("c", n)
    return {"type": kind, "wavelength_range": "0.2 2.5", "coefficients": text}, vals


def check_formula(kind):
    f, counts = EPS[kind]
    recs = [formula(kind, n) for n in counts]
    db = database([[r] for r, v in recs])
    for i, (r, v) in enumerate(recs):
        d = db.get_dispersion("B", "P%d" % i)
        vf.equal(d.get_dielectric(lbda()) + 0 * um(), f(v), "%s with %d coefficients" % (kind, len(v)))
        vf.equal(db.get_mat("B", "P%d" % i).get_tensor(lbda())[:, 0, 0], f(v), "material of %s with %d coefficients" % (kind, len(v)))


def ob_formula1():
    check_formula("formula 1")


def ob_formula2():
    check_formula("formula 2")


def ob_formula3():
    check_formula("formula 3")


def ob_formula4():
    check_formula("formula 4")


def ob_formula5():
    counts = (1, 3, 5, 7, 11, 21)
    recs = [formula("formula 5", n) for n in counts]
    db = database([[r] for r, v in recs])
    for i, (r, v) in enumerate(recs):
        d = db.get_dispersion("B", "P%d" % i)
        vf.equal(d.get_refractive_index(lbda()) + 0 * um(), powers(v), "formula 5 with %d coefficients" % len(v))
        vf.equal(db.get_mat("B", "P%d" % i).get_tensor(lbda())[:, 2, 2], powers(v) ** 2, "material of formula 5 with %d coefficients" % len(v))


def ob_layout():
    """coefficients may be laid out with any white space"""
    c = [1.5, 0.25, 0.125, 0.75, 2.0]
    db = database([[{"type": "formula 1", "coefficients": " 1.5  0.25 0.125\n0.75\t2.0 \n"}], [{"type": "formula 2", "coefficients": "1.5 2.5e-1 1.25E-1 .75 2"}],
                   [{"type": "formula 3", "coefficients": "1.5\n0.25 0.125 0.75 2.0"}], [{"type": "formula 3", "coefficients": "1.5 -0.25 -2 0.75 -4"}]])
    vf.equal(db.get_dispersion("B", "P0").get_dielectric(lbda()), sellmeier1(c), "formula 1, white space")
    vf.equal(db.get_dispersion("B", "P1").get_dielectric(lbda()), sellmeier2(c), "formula 2, number formats")
    vf.equal(db.get_dispersion("B", "P2").get_dielectric(lbda()), powers(c), "formula 3, white space")
    vf.equal(db.get_dispersion("B", "P3").get_dielectric(lbda()), powers([1.5, -0.25, -2, 0.75, -4]), "formula 3, negative exponents")


def table(rows):
    return "".join(" ".join(r) + "\n" for r in rows)


def numeric(tag, rows, cols):
    """a table as text and as lists of its columns"""
    out, text = [[] for c in range(cols)], []
    for i in range(rows):
        line = []
        for j in range(cols):
            lo = 0.3 + 0.1 * i if j == 0 else 0.5 + 0.25 * j
            v = vf.real("%s%d_%d_%d" % (tag, rows, i, j), lo, lo + 0.05)
            out[j].append(v)
            line.append(vf.numeral("%d.%d%d%d%d" % (j, TAGS.setdefault(tag, len(TAGS) + 1), rows, i, j), v))
        text.append(line)
    return table(text), out


def ob_tables():
    for rows in (2, 3, 5):
        t3, (w, n, k) = numeric("nk", rows, 3)
        t2, (w2, n2) = numeric("n", rows, 2)
        tk, (wk, kk) = numeric("k", rows, 2)
        db = database([[{"type": "tabulated nk", "data": t3}], [{"type": "tabulated n", "data": t2}], [{"type": "tabulated k", "data": tk}]])
        d = db.get_dispersion("B", "P0")
        e = elli.Table(lbda=1000 * np.array(w), n=np.array(n) + 1j * np.array(k))
        vf.equal(d.get_refractive_index(lbda()), e.get_refractive_index(lbda()), "tabulated nk")
        e = elli.Table(lbda=1000 * np.array(w2), n=np.array(n2))
        vf.equal(db.get_dispersion("B", "P1").get_refractive_index(lbda()), e.get_refractive_index(lbda()), "tabulated n")
        e = elli.Table(lbda=1000 * np.array(wk), n=1j * np.array(kk))
        vf.equal(db.get_dispersion("B", "P2").get_refractive_index(lbda()), e.get_refractive_index(lbda()), "tabulated k")
        for i in range(rows):
            vf.equal(db.get_dispersion("B", "P0").get_refractive_index(1000 * w[i]), n[i] + 1j * k[i], "tabulated nk at its wavelengths")
            vf.equal(db.get_dispersion("B", "P1").get_refractive_index(1000 * w2[i]), n2[i], "tabulated n at its wavelengths")
            vf.equal(db.get_dispersion("B", "P2").get_refractive_index(1000 * wk[i]), 1j * kk[i], "tabulated k at its wavelengths")


def ob_table_layout():
    db = database([[{"type": "tabulated nk", "data": "0.4  1.5\t0.1\n0.5 1.25 0.2\n 0.8 1.125 0.3\n"}], [{"type": "tabulated nk", "data": "0.4 1.5 0.1\n0.5 1.25 0.2\n0.8 1.125 0.3"}],
                   [{"type": "tabulated n", "data": "4.0e-1 1.5\n5.0E-1 1.25\n"}]])
    for i, lb, want in ((0, 400, 1.5 + 0.1j), (0, 500, 1.25 + 0.2j), (0, 800, 1.125 + 0.3j), (1, 400, 1.5 + 0.1j), (1, 800, 1.125 + 0.3j), (2, 400, 1.5), (2, 500, 1.25)):
        vf.equal(db.get_dispersion("B", "P%d" % i).get_refractive_index(lb), want, "table layout %d" % i)


def ob_row_order():
    """rows in any order stay together"""
    rows = [("0.4", "1.5", "0.1"), ("0.5", "1.25", "0.2"), ("0.8", "1.125", "0.3"), ("0.9", "1.75", "0.4")]
    for order in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2)):
        use = [rows[i] for i in order]
        db = database([[{"type": "tabulated nk", "data": table(use)}], [{"type": "tabulated n", "data": table([r[:2] for r in use])}], [{"type": "tabulated k", "data": table([(r[0], r[2]) for r in use])}]])
        for w, n, k in rows:
            lb, n, k = float(w) * 1000, float(n), float(k)
            vf.equal(db.get_dispersion("B", "P0").get_refractive_index(lb), n + 1j * k, "tabulated nk with rows in order %r" % (order,))
            vf.equal(db.get_dispersion("B", "P1").get_refractive_index(lb), n, "tabulated n with rows in order %r" % (order,))
            vf.equal(db.get_dispersion("B", "P2").get_refractive_index(lb), 1j * k, "tabulated k with rows in order %r" % (order,))


def ob_three_records():
    """records with more than two parts are the sum of all of them"""
    kt, ke = ktable()
    k = ke.get_refractive_index(lbda())
    r1, v1 = formula("formula 1", 5)
    r3, v3 = formula("formula 3", 3)
    r5, v5 = formula("formula 5", 3)
    db = database([[r1, r3], [r1, r3, r1], [r5, kt, r5], [kt, kt], [r5, r5, r5, kt], [r3, r1], [r5, r5], [r5, r3], [r3, r5], [r3]])
    a, b = sellmeier1(v1), powers(v3)
    vf.equal(db.get_dispersion("B", "P0").get_dielectric(lbda()), a + b, "two formulas for the dielectric function")
    vf.equal(db.get_dispersion("B", "P5").get_dielectric(lbda()), a + b, "two formulas for the dielectric function, other order")
    vf.equal(db.get_dispersion("B", "P1").get_dielectric(lbda()), a + b + a, "three formulas for the dielectric function")
    vf.equal(db.get_dispersion("B", "P2").get_refractive_index(lbda()), 2 * powers(v5) + k, "two formulas for the index and a table")
    vf.equal(db.get_dispersion("B", "P3").get_refractive_index(lbda()), 2 * k, "two tables")
    vf.equal(db.get_dispersion("B", "P4").get_refractive_index(lbda()), 3 * powers(v5) + k, "three formulas for the index and a table")
    vf.equal(db.get_dispersion("B", "P6").get_refractive_index(lbda()), 2 * powers(v5), "two formulas for the index")
    mixed = powers(v5) + db.get_mat("B", "P9").dispersion_x.get_refractive_index(lbda())
    vf.equal(db.get_dispersion("B", "P7").get_refractive_index(lbda()), mixed, "a formula for the index and one for the dielectric function")
    vf.equal(db.get_dispersion("B", "P8").get_refractive_index(lbda()), mixed, "a formula for the dielectric function and one for the index")


def ktable():
    tk, (wk, kk) = numeric("k", 3, 2)
    return {"type": "tabulated k", "data": tk}, elli.Table(lbda=1000 * np.array(wk), n=1j * np.array(kk))


def ob_combined():
    """k-tables add to the formula's refractive index"""
    from numpy.lib.scimath import sqrt
    kt, ke = ktable()
    k = ke.get_refractive_index(lbda())
    for kind in EPS:
        n = EPS[kind][1][2]
        r, v = formula(kind, n)
        db = database([[r, kt], [kt, r]])
        alone = database([[r]]).get_dispersion("B", "P0")
        want = alone.get_refractive_index(lbda()) + k
        vf.equal(alone.get_dielectric(lbda()), EPS[kind][0](v), kind + " alone")
        vf.equal(db.get_dispersion("B", "P0").get_refractive_index(lbda()), want, kind + " and tabulated k")
        vf.equal(db.get_dispersion("B", "P1").get_refractive_index(lbda()), want, "tabulated k and " + kind)
        vf.equal(db.get_dispersion("B", "P0").get_dielectric(lbda()), want ** 2, kind + " and tabulated k, dielectric function")
    r, v = formula("formula 5", 5)
    tn, (wn, nn) = numeric("n", 3, 2)
    db = database([[r, kt], [kt, r], [{"type": "tabulated n", "data": tn}, kt]])
    vf.equal(db.get_dispersion("B", "P0").get_refractive_index(lbda()), powers(v) + k, "formula 5 and tabulated k")
    vf.equal(db.get_dispersion("B", "P1").get_refractive_index(lbda()), powers(v) + k, "tabulated k and formula 5")
    ne = elli.Table(lbda=1000 * np.array(wn), n=np.array(nn))
    vf.equal(db.get_dispersion("B", "P2").get_refractive_index(lbda()), ne.get_refractive_index(lbda()) + k, "tabulated n and tabulated k")
    vf.equal(db.get_mat("B", "P0").get_tensor(lbda())[:, 1, 1], (powers(v) + k) ** 2, "material of formula 5 and tabulated k")


def ob_unsupported():
    other = ["formula 6", "formula 7", "formula 8", "formula 9", "formula 10", "formula 0", "formula", "formula 12", "formula1", "Formula 1", "tabulated", "tabulated kn", "tabulated n2",
             "tabulated NK", "", "nonsense", "model"]
    recs = [[{"type": t, "coefficients": "1 2 3", "data": "0.4 1.5\n0.5 1.25\n"}] for t in other]
    kt, ke = ktable()
    recs.append([kt, {"type": "formula 6", "coefficients": "1 2 3"}])
    recs.append([{"type": "formula 7", "coefficients": "1 2 3"}, kt])
    db = database(recs)
    for i in range(len(recs)):
        t = other[i] if i < len(other) else "combination with an unsupported record"
        vf.expect_raises(ValueError, "%r is refused" % t, db.get_dispersion, "B", "P%d" % i)
        vf.expect_raises(ValueError, "%r is refused as material" % t, db.get_mat, "B", "P%d" % i)


def ob_unknown_pages():
    db = database([[formula("formula 1", 3)[0]]])
    for b, p in (("B", "P1"), ("A", "P0"), ("P0", "B"), ("", ""), ("B", ""), ("", "P0"), ("b", "P0"), ("B", "p0"), ("B ", "P0"), ("B", "P")):
        vf.expect_raises(ValueError, "page %r of book %r does not exist" % (p, b), db.get_dispersion, b, p)
        vf.expect_raises(ValueError, "material page %r of book %r does not exist" % (p, b), db.get_mat, b, p)
        vf.expect_raises(ValueError, "reference of page %r of book %r does not exist" % (p, b), db.get_reference, b, p)
        vf.expect_raises(ValueError, "comment of page %r of book %r does not exist" % (p, b), db.get_comment, b, p)


def ob_right_page():
    """the record is the one of the requested book and page"""
    names = [("main", "Ag", "Johnson"), ("main", "Ag", "Werner"), ("main", "Au", "Johnson"), ("other", "Cu", "Werner"), ("glass", "BK7", "SCHOTT")]
    shelves = {}
    for i, (s, b, p) in enumerate(names):
        path = "%s/%s/%s.yml" % (s, b, p)
        shelves.setdefault(s, {}).setdefault(b, []).append(page(p, "Author 1999: n 0.3-0.9 µm", path))
        vf_io.register(ROOT + "data/" + path, {"REFERENCES": "ref " + b + p, "COMMENTS": "com " + b + p, "DATA": [{"type": "formula 3", "coefficients": "%d.5 1 2" % (i + 2)}]}, "utf-8")
    cat = [{"DIVIDER": "first"}] + [{"SHELF": s, "name": s.upper(), "content": [{"BOOK": b, "name": b, "content": shelves[s][b]} for b in shelves[s]]} for s in shelves]
    vf_io.register(ROOT + "catalog-nk.yml", cat, "utf-8")
    db = elli.db.RII()
    for i, (s, b, p) in enumerate(names):
        vf.equal(db.get_dispersion(b, p).get_dielectric(lbda()), i + 2.5 + um() ** 2, "record of %s %s" % (b, p))
        vf.check(db.get_reference(b, p) == "ref " + b + p, "reference of %s %s" % (b, p))
        vf.check(db.get_comment(b, p) == "com " + b + p, "comment of %s %s" % (b, p))
    for b, p in (("Au", "Werner"), ("Cu", "Johnson"), ("BK7", "Johnson")):
        vf.expect_raises(ValueError, "page %s of book %s does not exist" % (p, b), db.get_dispersion, b, p)


def ob_independent():
    """every call makes a new model; models share nothing with each other"""
    kt, ke = ktable()
    db = database([[formula("formula 1", 5)[0]], [formula("formula 2", 5)[0], kt]])
    a, b = db.get_dispersion("B", "P0"), db.get_dispersion("B", "P0")
    want = a.get_dielectric(lbda())
    vf.check(a is not b, "two calls give two models")
    c = db.get_dispersion("B", "P1")
    vf.equal(a.get_dielectric(lbda()), want, "earlier models are unaffected")
    vf.equal(db.get_dispersion("B", "P0").get_dielectric(lbda()), want, "later models are unaffected")
    vf.frozen("making a model leaves the database as it was", [db], db.get_dispersion, "B", "P1")


def ob_kinds():
    kt, ke = ktable()
    t3, cols = numeric("nk", 3, 3)
    db = database([[formula("formula 1", 5)[0]], [formula("formula 5", 5)[0]], [{"type": "tabulated nk", "data": t3}], [formula("formula 2", 5)[0], kt], [formula("formula 4", 11)[0]]])
    for i, c in ((0, Dispersion), (1, IndexDispersion), (2, IndexDispersion), (3, IndexDispersion), (4, Dispersion)):
        vf.check(isinstance(db.get_dispersion("B", "P%d" % i), c), "kind of model %d" % i)
        vf.check(isinstance(db.get_mat("B", "P%d" % i), elli.IsotropicMaterial), "kind of material %d" % i)


def ob_signs():
    """coefficients of either sign, zero, and in scientific notation"""
    cases = (("formula 1", sellmeier1, [0.5, -0.25, -0.125, 0.75, 0]), ("formula 1", sellmeier1, [-1.5, 0, 0.125, -0.75, 0.3]),
             ("formula 2", sellmeier2, [0.5, -0.25, -0.125, 0.75, 0]), ("formula 2", sellmeier2, [-0.5, 1e-3, 1e-7, 2.5, -37.5]),
             ("formula 3", powers, [2.25, -0.01, 2, 0.02, -2, -3e-4, -4, 0, 0]),
             ("formula 4", formula4, [3.3, 0.0184, 0, 0.0179, 1, 0, 0, 0, 1, -0.0155, 2]),
             ("formula 4", formula4, [3.3, -0.25, 2, 0.25, 2, -1.5, 0, 30, 1, -0.0155, 2, -0.5, -2]),
             ("formula 4", formula4, [-1, 2.5, 2, 0.01, 1, 1e-3, 1, 4, 2]))
    db = database([[{"type": k, "coefficients": " ".join("%r" % x for x in c)}] for k, f, c in cases])
    for i, (k, f, c) in enumerate(cases):
        lab = "%s with coefficients %s" % (k, c)
        vf.equal(db.get_dispersion("B", "P%d" % i).get_dielectric(lbda()) + 0 * um(), f(c) + 0 * um(), lab)
    c = [1.5, -0.25, 2, 0.125, -2, 0, 4]
    db = database([[{"type": "formula 5", "coefficients": " ".join("%r" % x for x in c)}]])
    vf.equal(db.get_dispersion("B", "P0").get_refractive_index(lbda()), powers(c), "formula 5 with coefficients %s" % c)
