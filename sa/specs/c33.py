"""Plots show the structure and the data they are given"""
import numpy as np
import pandas as pd
import vf
import elli
from elli.structure import Structure, Layer, RepeatedLayers, TwistedLayer, VaryingMixtureLayer
from elli.plot import structure as ps
from elli.plot.mueller_matrix import plot_mmatrix
from spec_common import SymMat, SymMix, iso


def ob_structure_profile():
    A, B, C, F, X = SymMat("A"), SymMat("B"), SymMat("C"), SymMat("F"), SymMat("X")
    a, b, c = vf.pos("a"), vf.pos("b"), vf.pos("c")
    lam = vf.pos("lam", 10, 30000)
    layers = [Layer(A, a), RepeatedLayers([Layer(B, b), Layer(C, c)], 2, 1, 1), TwistedLayer(A, c, 2, vf.real("ang"))]
    s = Structure(F, layers, X)
    got = vf.frozen("profile for a plot", [s], ps.get_permittivity_profile, s, lam)
    vf.equal(got, s.get_permittivity_profile(lam), "permittivity profile of a plot is the one of the structure")
    vf.equal(got[0], (np.inf, F.get_tensor(lam)), "front medium first")
    vf.equal(got[-1], (np.inf, X.get_tensor(lam)), "back medium last")
    e = Structure(F, [], X)
    vf.equal(ps.get_permittivity_profile(e, lam), [(np.inf, F.get_tensor(lam)), (np.inf, X.get_tensor(lam))], "permittivity profile without layers")


def ob_index_profile():
    A, B, F, X = SymMat("A"), SymMat("B"), SymMat("F"), SymMat("X")
    a, b = vf.pos("a"), vf.pos("b")
    lam = vf.pos("lam", 10, 30000)
    s = Structure(F, [Layer(A, a), Layer(B, b)], X)
    v = vf.arr("v", (3,), "real")
    sq = np.emath.sqrt
    for nm, d in (("x", np.array([1, 0, 0])), ("y", np.array([0, 1, 0])), ("z", np.array([0, 0, 1])), ("any", v)):
        want = []
        for h, m in ((np.inf, F), (a, A), (b, B), (np.inf, X)):
            t = m.get_tensor(lam)[0]
            w = 0
            for i in range(3):
                for j in range(3):
                    w = w + d[i] * t[i, j] * d[j]
            want.append((h, w))
        got = vf.frozen("index profile %s" % nm, [s, d], ps.get_index_profile, s, lam, d)
        vf.equal([h for h, _ in got], [h for h, _ in want], "thicknesses of the index profile, %s" % nm)
        vf.equal([n ** 2 for _, n in got], [w for _, w in want], "index profile along %s" % nm)
    vf.equal(ps.get_index_profile(s, lam), ps.get_index_profile(s, lam, np.array([1, 0, 0])), "default direction of the index profile")


def steps(ax, kind):
    got = [d for d in ax.drawn if d[0] == kind]
    if not got and ax.drawn:
        vf.undecided("drawn with %s" % kind, "the axes are drawn on with another function")
        return None
    vf.check(len(got) == 1, "one curve is drawn")
    return got[0][1], got[0][2]


def ends(limits, low, high):
    a, kw = limits
    if len(a) == 1:
        try:
            return a[0][0], a[0][1]
        except TypeError:
            pass
    a = list(a) + [None] * (2 - len(a))
    return kw.get(low, kw.get("xmin", kw.get("ymin", a[0]))), kw.get(high, kw.get("xmax", kw.get("ymax", a[1])))


def inside(ax, edges, n, label):
    """limits set on the axes do not cut off what is drawn"""
    if "x" in ax.limits:
        lo, hi = ends(ax.limits["x"], "left", "right")
        vf.check(lo is None or lo < edges[1], label + ": the front medium is inside the axes")
        vf.check(hi is None or hi > edges[-2], label + ": the back medium is inside the axes")
    if "y" in ax.limits and n is not None:
        lo, hi = ends(ax.limits["y"], "bottom", "top")
        for k, x in enumerate(n):
            vf.check(lo is None or lo <= x, label + ": index of medium %s is not below the axes" % k)
            vf.check(hi is None or hi >= x, label + ": index of medium %s is not above the axes" % k)


def ob_draw_structure():
    A, B, C, F, X = iso("A"), iso("B"), iso("C"), iso("F"), iso("X")
    a, b, c = vf.pos("a", 0.01, 50000), vf.pos("b", 0.01, 50000), vf.pos("c", 0.01, 50000)
    lam = vf.pos("lam", 10, 30000)
    m = vf.pos("margin", 0.001, 5)
    for tag, layers, d, mats in (
            ("three layers", [Layer(A, a), Layer(B, b), Layer(C, c)], [a, b, c], [F, A, B, C, X]),
            ("one layer", [Layer(A, a)], [a], [F, A, X]),
            ("repeated", [RepeatedLayers([Layer(A, a), Layer(B, b)], 2, 0, 1)], [a, b, a, b, a], [F, A, B, A, B, A, X])):
        s = Structure(F, layers, X)
        n = [np.emath.sqrt(x.get_tensor(lam)[0][0, 0]).real for x in mats]
        z = [0]
        for x in d:
            z.append(z[-1] + x)
        edges = np.array([-m * z[-1]] + z + [z[-1] + m * z[-1]])
        ax = vf.frozen("drawing %s" % tag, [s], ps.draw_structure, s, lam, "graph", m)
        got = steps(ax, "step")
        if got is None:
            continue
        (x, y, *_), kw = got
        vf.equal(x, edges, "graph of %s: interfaces at the accumulated thicknesses" % tag)
        vf.equal(y[:-1], np.array(n), "graph of %s: index of every medium" % tag)
        inside(ax, edges, n, "graph of %s" % tag)
        vf.check(kw.get("where") == "post", "graph of %s: each medium is drawn behind its interface" % tag)
        ax = vf.frozen("section %s" % tag, [s], ps.draw_structure, s, lam, "section", m)
        got = steps(ax, "pcolormesh")
        if got is None:
            continue
        (X_, Y_, N_, *_), kw = got
        vf.equal(X_, np.array([edges, edges]), "section of %s: interfaces at the accumulated thicknesses" % tag)
        vf.equal(N_, np.array([n]), "section of %s: index of every medium" % tag)
        inside(ax, edges, None, "section of %s" % tag)
        vf.check(Y_[0][0] != Y_[1][0], "section of %s: has a height" % tag)
    for tag, layers in (("no layers", []), ("a layer of zero thickness", [Layer(A, 0)])):
        mats = [F, A, X] if layers else [F, X]
        n = [np.emath.sqrt(x.get_tensor(lam)[0][0, 0]).real for x in mats]
        for method, kind in (("graph", "step"), ("section", "pcolormesh")):
            got = steps(vf.accepted("%s of %s" % (method, tag), ps.draw_structure, Structure(F, layers, X), lam, method, m), kind)
            if got is None:
                continue
            (x, y, *_), kw = got
            x = x if kind == "step" else x[0]
            vf.equal(x[1:-1], np.array([0.0] * (1 + len(layers))), "%s of %s: interfaces" % (method, tag))
            vf.check(x[0] < 0, "%s of %s: the front medium is shown" % (method, tag))
            vf.check(x[-1] > 0, "%s of %s: the back medium is shown" % (method, tag))
            vf.equal(y[:-1] if kind == "step" else got[0][2][0], np.array(n), "%s of %s: index of every medium" % (method, tag))
    s = Structure(F, [Layer(A, a)], X)
    g1, g2 = ps.draw_structure(s, lam), ps.draw_structure(s, lam, "graph", 0.15)
    vf.equal(g1.drawn[0][1][0], g2.drawn[0][1][0], "default drawing: interfaces")
    vf.equal(g1.drawn[0][1][1], g2.drawn[0][1][1], "default drawing: indices")


NAMES = ["M%d%d" % (i, j) for i in range(1, 5) for j in range(1, 5)]


def frame(tag, n=2, names=NAMES):
    return pd.DataFrame({k: [vf.real("%s_%s_%d" % (tag, k, r), -3, 3) for r in range(n)] for k in names},
                        index=pd.Index([vf.pos("%s_w%d" % (tag, r), 0.1, 30000) for r in range(n)], name="Wavelength"))


def check(fig, frames, label, colors, dashes, names, grid):
    vf.check(len(fig.data) == 16 * len(frames), "%s: one curve for each element and frame" % label)
    k = 0
    for i, el in enumerate(NAMES):
        for j, fr in enumerate(frames):
            nm = names[j % len(names)]
            hit = [t for t in fig.data if t.name == "%s %s" % (el, nm)]
            if len(frames) > len(names):
                hit = [t for t in hit if t.line["dash"] == dashes[j % len(dashes)]]
            vf.check(len(hit) == 1, "%s: curve %s %s is shown once" % (label, el, nm))
            t = hit[0]
            vf.equal(t.x, fr.index.to_numpy(), "%s: wavelengths of %s %s" % (label, el, nm))
            vf.equal(t.y, fr[el].to_numpy(), "%s: values of %s %s" % (label, el, nm))
            vf.check(t.line["color"] == colors[i % len(colors)] and t.line["dash"] == dashes[j % len(dashes)], "%s: style of %s %s" % (label, el, nm))
            if grid:
                vf.check(t.row == i // 4 + 1 and t.col == i % 4 + 1, "%s: %s lies in its row and column" % (label, el))


def ob_plot_mmatrix():
    from elli.plot.mueller_matrix import COLORS
    a, b, c = frame("a"), frame("b"), frame("c", 3)
    D = ["solid", "dash", "dot"]
    fig = vf.frozen("plot of two frames", [a, b], plot_mmatrix, [a, b])
    check(fig, [a, b], "two frames", COLORS, D, ["", "theory"], False)
    vf.check(fig.grid is None, "a single plot by default")
    fig = vf.frozen("grid of two frames", [a, b], plot_mmatrix, [a, b], single=False)
    check(fig, [a, b], "grid", COLORS, D, ["", "theory"], True)
    vf.check(fig.grid == (4, 4), "grid: four rows and columns")
    vf.check(not fig.axis_updates, "grid: axes are free by default")
    fig = vf.frozen("plot of one frame", [a], plot_mmatrix, a)
    check(fig, [a], "one frame", COLORS, D, ["", "theory"], False)
    fig = vf.frozen("plot of three frames", [a, b, c], plot_mmatrix, [a, b, c], colors=["red", "green", "blue"], dashes=["x", "y"], names=["p", "q", "r"])
    check(fig, [a, b, c], "three frames", ["red", "green", "blue"], ["x", "y"], ["p", "q", "r"], False)
    fig = plot_mmatrix([a, b, c], single=False, full_scale=True, sharex=True)
    check(fig, [a, b, c], "three frames with default names", COLORS, D, ["", "theory"], True)
    ax = {k: kw for k, kw in fig.axis_updates}
    vf.check(list(ax["y"]["range"]) == [-1, 1], "full scale sets the limits of the values")
    vf.check(ax["x"]["matches"] == "x", "sharex ties the wavelengths")
    fig = plot_mmatrix([a, b], single=True, sharex=True, full_scale=True)
    check(fig, [a, b], "single plot with options", COLORS, D, ["", "theory"], False)
