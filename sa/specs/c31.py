import vf
import vf_io
import elli
import numpy as np
import pandas as pd
from rapidfuzz import process

ROOT = "/pkg/elli/database/refractiveindexinfo-database/database/"

# shelf, shelf name, divider, book, book name, [(divider, page, title, (author, year, comment, low, high))]
BOOKS = [
    ("main", "MAIN - simple", "Ag - Silver", "Ag", "Ag (Silver)", [
        ("Experimental", "Johnson", "Johnson and Christy 1972: n,k 0.188-1.937 µm", ("Johnson and Christy", 1972, "", 188, 1937)),
        ("Experimental", "Werner", "Werner et al. 2009: Thin film; n,k 0.5-12 µm", ("Werner et al.", 2009, "Thin film", 500, 12000)),
        ("Models", "Rakic", "Rakić et al. 1998: n,k 0.2066-12.40 µm; Brendel", ("Rakić et al.", 1998, "Brendel", 206.6, 12400))]),
    ("main", "MAIN - simple", "Ag - Silver", "Ag2O", "Ag2O (oxide)", [
        (None, "Johnson", "Johnson 1975a: Bulk; n 1-2 µm; 20 °C", ("Johnson", 1975, "Bulk 20 °C", 1000, 2000))]),
    ("main", "MAIN - simple", "Au - Gold", "Au", "Au (Gold)", [
        (None, "Lemarchand", "Lemarchand et al. 2013: 3.96 nm film; n,k 0.3-3.3 µm", ("Lemarchand et al.", 2013, "3.96 nm film", 300, 3300)),
        (None, "Plain", "no structure at all", (None, None, "no structure at all", None, None)),
        ("Other", "Werner", "Werner 2009: n 1.0e0–2.5e1 µm", ("Werner", 2009, "", 1000, 25000))]),
    ("glass", "GLASS", None, "BK7", "BK7 glass", [
        (None, "SCHOTT", "N-BK7 (SCHOTT)", (None, None, "N-BK7 (SCHOTT)", None, None)),
        (None, "HIKARI", "HIKARI 2015: n 0.365-1.014 µm", ("HIKARI", 2015, "", 365, 1014))]),
]
COLUMNS = ["shelf", "shelf_longname", "book_divider", "book", "book_longname", "page", "page_type", "author", "year", "comment", "lower_range", "upper_range", "path"]


def path(b, p):
    return "%s/nk/%s.yml" % (b, p)


def rows(books=None):
    out = []
    for shelf, sname, bdiv, book, bname, pages in books or BOOKS:
        for pdiv, p, title, (author, year, comment, lo, hi) in pages:
            out.append(dict(shelf=shelf, shelf_longname=sname, book_divider=bdiv, book=book, book_longname=bname, page=p, page_type=pdiv, author=author, year=year, comment=comment,
                            lower_range=lo, upper_range=hi, path="data/" + path(book, p)))
    return out


def catalog(books=None):
    shelves, order = {}, []
    for shelf, sname, bdiv, book, bname, pages in books or BOOKS:
        if shelf not in shelves:
            shelves[shelf] = (sname, [], [None])
            order.append(shelf)
        content, div = [], None
        for pdiv, p, title, parsed in pages:
            if pdiv != div:
                content.append({"DIVIDER": pdiv})
                div = pdiv
            content.append({"PAGE": p, "name": title, "data": path(book, p)})
        sh = shelves[shelf]
        if bdiv != sh[2][0]:
            sh[1].append({"DIVIDER": bdiv})
            sh[2][0] = bdiv
        sh[1].append({"BOOK": book, "name": bname, "content": content})
    out = []
    for s in order:
        out.append({"DIVIDER": "divider of " + s})
        out.append({"SHELF": s, "name": shelves[s][0], "content": shelves[s][1]})
    return out


def database(books=None):
    vf_io.register(ROOT + "catalog-nk.yml", catalog(books), "utf-8")
    return elli.db.RII()


def cell(x):
    return None if x is None or x is pd.NA or pd.isna(x) else x


def same(got, want, label):
    if want is None or isinstance(want, str):
        vf.check(cell(got) == want, label)
    elif cell(got) is None:
        vf.fail(label + ": missing")
    else:
        vf.equal(got, want, label)


def check_rows(df, want, label):
    """the table holds exactly the given rows in order"""
    vf.check(list(df.columns) == COLUMNS, label + ": columns")
    vf.check(len(df) == len(want), label + ": number of rows")
    if len(df) != len(want):
        return
    for i, r in enumerate(want):
        for c in COLUMNS:
            same(df[c].iloc[i], r[c], "%s: %s of row %d" % (label, c, i))


def ob_catalog():
    check_rows(database().catalog, rows(), "catalog")


def ob_order():
    """any order of shelves, books and pages"""
    for perm in ((3, 0, 1, 2), (3, 2, 1, 0), (1, 2, 0, 3)):
        books = [BOOKS[i] for i in perm]
        books = [b[:5] + (b[5][::-1],) for b in books]
        books = [b[:5] + ([p for p in b[5] if p[0] is None] + [p for p in b[5] if p[0] is not None],) for b in books]
        check_rows(database(books).catalog, rows(books), "catalog in order %r" % (perm,))


TITLES = [
    ("Smith 1985: n 0.21-6.7 µm", ("Smith", 1985, "", 210, 6700)),
    ("Smith, Jones and Miller 2020b: n,k 0.4-0.8 µm", ("Smith, Jones and Miller", 2020, "", 400, 800)),
    ("Smith 1985: 20 °C; n(o) 0.21-6.7 µm", ("Smith", 1985, "20 °C", 210, 6700)),
    ("Smith 1985: α; n(e) 1-2 µm; 300 K", ("Smith", 1985, "α 300 K", 1000, 2000)),
    ("Smith 1985: n 5-18 µm", ("Smith", 1985, "", 5000, 18000)),
    ("Smith 1985: n 5.-18. µm", ("Smith", 1985, "", 5000, 18000)),
    ("Smith 1985: k 1e-3-1e1 µm", ("Smith", 1985, "", 1, 10000)),
    ("Smith 1985: k 1.5e-2–2.5e2 µm", ("Smith", 1985, "", 15, 250000)),
    ("Smith 1985: n,k 0.025 0.05 µm", ("Smith", 1985, "", 25, 50)),
    ("O'Neill-Marín et al. 2001: n 0.5-0.9 µm", ("O'Neill-Marín et al.", 2001, "", 500, 900)),
    ("Smith: n 0.5-0.9 µm", (None, None, "Smith: n 0.5-0.9 µm", None, None)),
    ("Smith 1985 n 0.5-0.9 µm", (None, None, "Smith 1985 n 0.5-0.9 µm", None, None)),
    ("Smith 1985: n 0.5-0.9 nm", (None, None, "Smith 1985: n 0.5-0.9 nm", None, None)),
    ("Smith 1985: n 0.5 µm", (None, None, "Smith 1985: n 0.5 µm", None, None)),
    ("", (None, None, "", None, None)),
]


def ob_titles():
    books = [("main", "MAIN", "d", "B", "B book", [(None, "P%d" % i, t, parsed) for i, (t, parsed) in enumerate(TITLES)])]
    db = database(books)
    for i, r in enumerate(rows(books)):
        for c in ("author", "year", "comment", "lower_range", "upper_range"):
            same(db.catalog[c].iloc[i], r[c], "%s of %r" % (c, TITLES[i][0]))


def select(f):
    return [r for r in rows() if f(r)]


def ob_exact():
    db = database()
    for col, queries in (("author", ("Johnson", "Werner", "Werner et al.", "johnson", "")), ("book", ("Ag", "Au", "A", "Ag2O")), ("page", ("Johnson", "Werner", "SCHOTT")), ("shelf", ("main", "glass", "other")),
                         ("comment", ("Thin film", "Thin")), ("book_divider", ("Ag - Silver",)), ("page_type", ("Models", "Experimental", "")), ("book_longname", ("BK7 glass",)), ("shelf_longname", ("GLASS",))):
        for q in queries:
            check_rows(db.search(q, column=col, fuzzy=False), select(lambda r: r[col] == q), "exact search for %r in %s" % (q, col))
            check_rows(db.search([q], column=[col], fuzzy=False), select(lambda r: r[col] == q), "exact search for %r in %s, as lists" % (q, col))
    check_rows(db.search("Ag", "book", None, False), select(lambda r: r["book"] == "Ag"), "positional arguments")


def ob_exact_several():
    db = database()
    check_rows(db.search(["Ag", "BK7"], column="book", fuzzy=False), select(lambda r: r["book"] in ("Ag", "BK7")), "several queries")
    check_rows(db.search(["Ag", "Werner"], column=["book", "page"], fuzzy=False), select(lambda r: r["book"] == "Ag" or r["page"] == "Werner"), "several queries and columns")
    check_rows(db.search(["Werner", "Werner"], column=["page", "page"], fuzzy=False), select(lambda r: r["page"] == "Werner"), "repeated queries and columns")
    check_rows(db.search(["Plain", "Ag - Silver", "Johnson"], column=["page", "book_divider", "author"], fuzzy=False), select(lambda r: r["page"] in ("Plain", "Johnson") or r["book_divider"] == "Ag - Silver" or r["author"] == "Johnson"), "columns with empty entries")
    check_rows(db.search([], column="book", fuzzy=False), [], "no query")
    check_rows(db.search("Ag", column=[], fuzzy=False), [], "no column")


def ob_exact_all():
    db = database()
    for q in ("Ag", "Johnson", "main", "Werner", "glass", "HIKARI", "Experimental", "data/Au/nk/Plain.yml", "nothing"):
        check_rows(db.search(q, fuzzy=False), select(lambda r: q in [v for v in r.values() if isinstance(v, str)]), "exact search for %r everywhere" % q)


def fuzzy(scores):
    process.SCORES.clear()
    for k, v in scores.items():
        process.SCORES[k] = v


def ob_fuzzy():
    db = database()
    fuzzy({("silv", "Ag (Silver)"): 90.0, ("silv", "Ag - Silver"): 95.0, ("jonson", "Johnson"): 93.0, ("jonson", "Johnson and Christy"): 90.0, ("werner", "Werner"): 99.0, ("werner", "Werner et al."): 91.0})
    check_rows(db.search("silv"), select(lambda r: r["book_longname"] == "Ag (Silver)" or r["book_divider"] == "Ag - Silver"), "fuzzy search everywhere")
    check_rows(db.search("silv", column="book_longname"), select(lambda r: r["book_longname"] == "Ag (Silver)"), "fuzzy search in one column")
    check_rows(db.search("jonson", column="author"), select(lambda r: r["author"] in ("Johnson", "Johnson and Christy")), "fuzzy search for an author")
    check_rows(db.search("jonson", column="page"), select(lambda r: r["page"] == "Johnson"), "fuzzy search for a page")
    check_rows(db.search(["jonson", "werner"], column="author"), select(lambda r: r["author"] in ("Johnson", "Johnson and Christy", "Werner", "Werner et al.")), "several fuzzy queries")
    check_rows(db.search("werner", column=["author", "page"]), select(lambda r: r["author"] in ("Werner", "Werner et al.") or r["page"] == "Werner"), "fuzzy search in several columns")
    check_rows(db.search("werner", column="book"), [], "nothing similar")
    check_rows(db.search("Ag", column="book"), select(lambda r: r["book"] == "Ag"), "exact values are found")
    for c in ("book_divider", "book", "book_longname", "page", "author", "comment"):
        for v in sorted(set([r[c] for r in rows() if r[c] is not None])):
            fuzzy({("q", v): 88.0})
            check_rows(db.search("q", column=c), select(lambda r: r[c] == v), "fuzzy search finding %r in %s" % (v, c))
            check_rows(db.search("q"), select(lambda r: v in [r[k] for k in ("book_divider", "book", "book_longname", "page", "author", "comment")]), "fuzzy search finding %r anywhere" % v)
    fuzzy({("q", "BK7"): 90.0, ("q", "HIKARI"): 85.0, ("q", "Thin film"): 82.0, ("q", "Plain"): 99.0})
    check_rows(db.search("q"), select(lambda r: r["book"] == "BK7" or r["author"] == "HIKARI" or r["comment"] == "Thin film" or r["page"] == "Plain"), "fuzzy search finding several columns")
    check_rows(db.search("q", column=["book", "author"]), select(lambda r: r["book"] == "BK7" or r["author"] == "HIKARI"), "fuzzy search finding several named columns")
    check_rows(db.search("q", column=["page", "book_divider", "book"]), select(lambda r: r["book"] == "BK7" or r["page"] in ("Plain", "HIKARI")), "fuzzy search in columns with empty entries")
    fuzzy({})


def ob_filter():
    db = database()
    inside = lambda r, *wls: r["lower_range"] is not None and all([r["lower_range"] <= w and w <= r["upper_range"] for w in wls])
    for w in (188, 187.9, 206.6, 300, 365, 500, 999.9, 1000, 1014, 1014.1, 1937, 2000, 5000, 12000, 12400, 25000, 25001, 0, 1e9):
        check_rows(db.search(["main", "glass"], column="shelf", wavelength_filter=w, fuzzy=False), select(lambda r: inside(r, w)), "wavelength %r" % w)
        check_rows(db.search(["main", "glass"], column="shelf", wavelength_filter=[w], fuzzy=False), select(lambda r: inside(r, w)), "wavelengths [%r]" % w)
    for ws in ((400, 600), (400, 3300), (1000, 2000), (2000, 1000), (600, 2500, 400), (100, 600), (600, 30000), ()):
        check_rows(db.search(["main", "glass"], column="shelf", wavelength_filter=list(ws), fuzzy=False), select(lambda r: not ws or inside(r, *ws)), "wavelengths %r" % (list(ws),))
        check_rows(db.search(["main", "glass"], column="shelf", wavelength_filter=ws, fuzzy=False), select(lambda r: not ws or inside(r, *ws)), "wavelengths %r" % (ws,))
    check_rows(db.search(["main", "glass"], column="shelf", wavelength_filter=np.array([400, 600]), fuzzy=False), select(lambda r: inside(r, 400, 600)), "array of wavelengths")
    check_rows(db.search("Ag", column="book", wavelength_filter=6000, fuzzy=False), select(lambda r: r["book"] == "Ag" and inside(r, 6000)), "query and wavelength")
    fuzzy({("q", "Ag"): 90.0})
    check_rows(db.search("q", column="book", wavelength_filter=[300, 6000]), select(lambda r: r["book"] == "Ag" and inside(r, 300, 6000)), "fuzzy query and wavelengths")
    check_rows(db.search("q", wavelength_filter=6000), select(lambda r: r["book"] == "Ag" and inside(r, 6000)), "fuzzy query everywhere and wavelength")
    fuzzy({})
    for bad in ("500", {"low": 3}, object(), 5j):
        vf.expect_raises(ValueError, "wavelength filter of kind %s" % type(bad).__name__, lambda: db.search("Ag", wavelength_filter=bad, fuzzy=False))
        vf.expect_raises(ValueError, "wavelength filter of kind %s, fuzzy" % type(bad).__name__, lambda: db.search("Ag", wavelength_filter=bad))


def ob_pure():
    db = database()
    q, c, w = ["Ag", "Au"], ["book", "page"], [300, 500]
    vf.frozen("searching leaves the catalog and the arguments as they were", [db, q, c, w], lambda: db.search(q, c, w, False))
    vf.frozen("fuzzy searching leaves the catalog and the arguments as they were", [db, q, c, w], lambda: db.search(q, c, w, True))
    check_rows(db.catalog, rows(), "catalog after searching")
    a = db.search("Ag", column="book", fuzzy=False)
    a["year"] = 0
    check_rows(db.catalog, rows(), "catalog after writing to a found table")
    check_rows(db.search("Ag", column="book", fuzzy=False), select(lambda r: r["book"] == "Ag"), "same search again")


def ob_ambiguous():
    """a book and page occurring in several shelves does not denote one record"""
    books = [("main", "M", None, "B", "B", [(None, "P", "t", (None, None, "t", None, None))]), ("other", "O", None, "B", "B", [(None, "P", "t", (None, None, "t", None, None)), (None, "Q", "t", (None, None, "t", None, None))])]
    vf_io.register(ROOT + "data/" + path("B", "P"), {"REFERENCES": "r", "COMMENTS": "c", "DATA": [{"type": "formula 3", "coefficients": "2 1 2"}]}, "utf-8")
    vf_io.register(ROOT + "data/" + path("B", "Q"), {"REFERENCES": "q", "COMMENTS": "c", "DATA": [{"type": "formula 3", "coefficients": "2 1 2"}]}, "utf-8")
    db = database(books)
    for f in (db.get_dispersion, db.get_mat, db.get_reference, db.get_comment):
        vf.expect_raises(ValueError, "an ambiguous page is refused", f, "B", "P")
    vf.check(db.get_reference("B", "Q") == "q", "an unambiguous page is read")


def ob_many():
    """long catalogs: every suggested value counts, and pages of the same name in several shelves and books are all found"""
    pages = [(None, "P%d" % i, "Author %d et al. 1985: n 0.2-%d µm" % (i, i + 1), ("Author %d et al." % i, 1985, "", 200, 1000 * (i + 1))) for i in range(9)]
    books = [("main", "M", None, "B", "B book", pages), ("main", "M", None, "C", "C book", pages[:4]), ("other", "O", None, "B", "B book", pages[2:6]), ("other", "O", "x", "D", "C book", pages[::-1])]
    db = database(books)
    all_rows = rows(books)
    check_rows(db.catalog, all_rows, "long catalog")
    for n in (1, 4, 6, 9):
        hits = ["P%d" % i for i in range(n)]
        fuzzy({("q", h): 81.0 + k for k, h in enumerate(hits)})
        check_rows(db.search("q", column="page"), [r for r in all_rows if r["page"] in hits], "fuzzy search suggesting %d pages" % n)
        check_rows(db.search("q"), [r for r in all_rows if r["page"] in hits], "fuzzy search suggesting %d pages anywhere" % n)
        check_rows(db.search("q", column="page", wavelength_filter=2500), [r for r in all_rows if r["page"] in hits and r["upper_range"] >= 2500], "fuzzy search suggesting %d pages, filtered" % n)
        fuzzy({("q", "Author %d et al." % i): 99.0 - i for i in range(n)})
        check_rows(db.search("q", column="author"), [r for r in all_rows if r["page"] in hits], "fuzzy search suggesting %d authors" % n)
        check_rows(db.search(hits, column="page", fuzzy=False), [r for r in all_rows if r["page"] in hits], "exact search for %d pages" % n)
    for c, v in (("book", "B"), ("book_longname", "C book"), ("page", "P3"), ("shelf", "other"), ("author", "Author 2 et al.")):
        check_rows(db.search(v, column=c, fuzzy=False), [r for r in all_rows if r[c] == v], "exact search in a long catalog: %s" % c)
    fuzzy({("q", "B"): 80.0, ("q", "P3"): 79.9})
    check_rows(db.search("q"), [r for r in all_rows if r["book"] == "B"], "similarity at and below the limit")
    fuzzy({})
