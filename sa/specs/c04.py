import numpy as np
import vf
import elli
from numpy.lib.scimath import sqrt
from elli import dispersions as D
from elli.dispersions.base_dispersion import BaseDispersion, Dispersion, IndexDispersion, DispersionSum, IndexDispersionSum
from spec_common import SymDisp, SymIndex, lbda
from spec_c01 import model, closed_form


def E(t):
    return vf.app("eps_" + t, lbda())


def N(t):
    return vf.app("n_" + t, lbda())


def add(a, b):
    return a + b


def pure(a, b, label):
    return vf.frozen(label + " leaves both operands", [a, b], add, a, b)


def eps(s, want, label):
    vf.equal(s.dielectric_function(lbda()), want, label)
    vf.equal(s.get_dielectric(lbda()), want, label + " (get_dielectric)")
    vf.equal(s.get_refractive_index(lbda()), sqrt(want), label + " (refractive index)")


def ind(s, want, label):
    z = 0 * lbda()
    vf.equal(s.refractive_index(lbda()) + z, want + z, label)
    vf.equal(s.get_refractive_index(lbda()) + z, want + z, label + " (get_refractive_index)")
    vf.equal(s.get_dielectric(lbda()) + z, want ** 2 + z, label + " (dielectric function)")


def ob_two():
    a, b = SymDisp("a"), SymDisp("b")
    s = pure(a, b, "adding two dispersions")
    eps(s, E("a") + E("b"), "sum of two dispersions")
    vf.check(isinstance(s, Dispersion) and not isinstance(s, IndexDispersion), "sum of two dispersions is a dispersion")
    i, j = SymIndex("a"), SymIndex("b")
    s = pure(i, j, "adding two index dispersions")
    ind(s, N("a") + N("b"), "sum of two index dispersions")
    vf.check(isinstance(s, IndexDispersion) and not isinstance(s, Dispersion), "sum of two index dispersions is an index dispersion")


def ob_numbers():
    x = vf.real("x", -10, 10)
    for c in (x, 2, 0, -1, 1.5, 0.0):
        a, i = SymDisp("a"), SymIndex("a")
        for left in (True, False):
            s = pure(c, a, "number + dispersion") if left else pure(a, c, "dispersion + number")
            eps(s, E("a") + c, "number and dispersion")
            s = pure(c, i, "number + index dispersion") if left else pure(i, c, "index dispersion + number")
            ind(s, N("a") + c, "number and index dispersion")


def ob_numbers_and_sums():
    """every offset counts once, wherever it is added"""
    x, y = vf.real("x", -10, 10), vf.real("y", -10, 10)
    a, b, c = SymDisp("a"), SymDisp("b"), SymDisp("c")
    i, j, k = SymIndex("a"), SymIndex("b"), SymIndex("c")
    s = a + b
    t = pure(x, s, "number + sum")
    eps(t, x + E("a") + E("b"), "number + sum")
    eps(s, E("a") + E("b"), "sum after number + sum")
    t = pure(s, x, "sum + number")
    eps(t, x + E("a") + E("b"), "sum + number")
    u = pure(t, y, "sum + number + number")
    eps(u, x + y + E("a") + E("b"), "sum + number + number")
    u = pure(y, t, "number + (sum + number)")
    eps(u, x + y + E("a") + E("b"), "number + (sum + number)")
    u = pure(t, c + y, "sum + sum with numbers")
    eps(u, x + y + E("a") + E("b") + E("c"), "sum + sum with numbers")
    u = pure(c, t, "dispersion + sum with number")
    eps(u, x + E("a") + E("b") + E("c"), "dispersion + sum with number")
    s = i + j
    t = pure(x, s, "number + index sum")
    ind(t, x + N("a") + N("b"), "number + index sum")
    ind(s, N("a") + N("b"), "index sum after number + sum")
    t = pure(s, x, "index sum + number")
    ind(t, x + N("a") + N("b"), "index sum + number")
    u = pure(t, y, "index sum + number + number")
    ind(u, x + y + N("a") + N("b"), "index sum + number + number")
    u = pure(y, t, "number + (index sum + number)")
    ind(u, x + y + N("a") + N("b"), "number + (index sum + number)")
    u = pure(t, k + y, "index sum + index sum with numbers")
    ind(u, x + y + N("a") + N("b") + N("c"), "index sum + index sum with numbers")
    u = pure(k, t, "index dispersion + sum with number")
    ind(u, x + N("a") + N("b") + N("c"), "index dispersion + sum with number")


def ob_groupings():
    a, b, c, d = SymDisp("a"), SymDisp("b"), SymDisp("c"), SymDisp("d")
    want = E("a") + E("b") + E("c") + E("d")
    for k, s in enumerate([((a + b) + c) + d, (a + (b + c)) + d, (a + b) + (c + d), a + ((b + c) + d), a + (b + (c + d)), sum([a, b, c, d])]):
        eps(s, want, "grouping %d of four dispersions" % k)
    a, b, c, d = SymIndex("a"), SymIndex("b"), SymIndex("c"), SymIndex("d")
    want = N("a") + N("b") + N("c") + N("d")
    for k, s in enumerate([((a + b) + c) + d, (a + (b + c)) + d, (a + b) + (c + d), a + ((b + c) + d), a + (b + (c + d)), sum([a, b, c, d])]):
        ind(s, want, "grouping %d of four index dispersions" % k)


def ob_sums_reused():
    a, b, c, d = SymDisp("a"), SymDisp("b"), SymDisp("c"), SymDisp("d")
    s, t = a + b, c + d
    u = pure(s, t, "sum + sum")
    pure(s, c, "sum + dispersion")
    pure(c, s, "dispersion + sum")
    eps(s, E("a") + E("b"), "first sum after being used three times")
    eps(t, E("c") + E("d"), "second sum after being used")
    eps(u, E("a") + E("b") + E("c") + E("d"), "sum of sums after its parts were used again")
    old = s
    s += c
    eps(s, E("a") + E("b") + E("c"), "in-place addition")
    eps(old, E("a") + E("b"), "sum before the in-place addition")
    eps(s + s, 2 * (E("a") + E("b") + E("c")), "a sum added to itself")
    eps(a + a, 2 * E("a"), "a dispersion added to itself")
    i, j, k = SymIndex("a"), SymIndex("b"), SymIndex("c")
    s = i + j
    pure(s, s, "index sum + itself")
    pure(s, k, "index sum + index dispersion")
    pure(k, s, "index dispersion + index sum")
    old = s
    s += k
    ind(s, N("a") + N("b") + N("c"), "in-place addition of index dispersions")
    ind(old, N("a") + N("b"), "index sum before the in-place addition")
    ind(s + s, 2 * (N("a") + N("b") + N("c")), "an index sum added to itself")


def ob_constructors():
    a, b, c = SymDisp("a"), SymDisp("b"), SymDisp("c")
    x = vf.real("x", -10, 10)
    s = a + b
    t = vf.frozen("DispersionSum(...) leaves its parts", [s, c], DispersionSum, s, c, x)
    eps(t, E("a") + E("b") + E("c") + x, "DispersionSum of a sum, a dispersion and a number")
    i, j, k = SymIndex("a"), SymIndex("b"), SymIndex("c")
    s = i + j
    t = vf.frozen("IndexDispersionSum(...) leaves its parts", [s, k], IndexDispersionSum, s, k, x)
    ind(t, N("a") + N("b") + N("c") + x, "IndexDispersionSum of a sum, a dispersion and a number")
    vf.expect_raises(TypeError, "DispersionSum refuses an index dispersion", DispersionSum, a, i)
    vf.expect_raises(TypeError, "IndexDispersionSum refuses a dispersion", IndexDispersionSum, i, a)
    vf.expect_raises(TypeError, "DispersionSum refuses a string", DispersionSum, a, "x")


def ob_tables():
    from scipy.interpolate import interp1d
    x = vf.arr("x", (vf.size("M"),), "pos", 10, 30000)
    y = vf.arr("y", (vf.size("M"),), "complex")
    v = interp1d(x, y, kind="linear")(lbda())
    c = vf.real("c", -10, 10)
    a, b = SymDisp("a"), SymDisp("b")
    t = D.TableEpsilon(lbda=x, epsilon=y)
    eps(pure(t, a, "table + dispersion"), v + E("a"), "table + dispersion")
    eps(pure(a, t, "dispersion + table"), v + E("a"), "dispersion + table")
    eps(pure(t, c, "table + number"), v + c, "table + number")
    eps(pure(c, t, "number + table"), v + c, "number + table")
    s = a + b
    eps(pure(t, s, "table + sum"), v + E("a") + E("b"), "table + sum")
    eps(pure(s, t, "sum + table"), v + E("a") + E("b"), "sum + table")
    eps(s, E("a") + E("b"), "sum after adding a table")
    i, j = SymIndex("a"), SymIndex("b")
    t = D.Table(lbda=x, n=y)
    ind(pure(t, i, "index table + dispersion"), v + N("a"), "index table + dispersion")
    ind(pure(i, t, "dispersion + index table"), v + N("a"), "dispersion + index table")
    ind(pure(t, c, "index table + number"), v + c, "index table + number")
    ind(pure(c, t, "number + index table"), v + c, "number + index table")
    s = i + j
    ind(pure(t, s, "index table + sum"), v + N("a") + N("b"), "index table + sum")
    ind(pure(s, t, "sum + index table"), v + N("a") + N("b"), "sum + index table")
    ind(s, N("a") + N("b"), "index sum after adding a table")


def instances():
    x = vf.arr("x", (vf.size("M"),), "pos", 10, 30000)
    y = vf.arr("y", (vf.size("M"),), "complex")
    out = [("TableEpsilon", D.TableEpsilon(lbda=x, epsilon=y)), ("Table", D.Table(lbda=x, n=y)),
           ("DispersionSum", SymDisp("a") + SymDisp("b")), ("IndexDispersionSum", SymIndex("a") + SymIndex("b")), ("as_index", SymDisp("a").as_index())]
    for n, c in closed_form():
        out.append((n, model(c, "p", 1 if len(c.rep_params_template) else 0)))
    return out


def ob_mixed_kinds():
    a, i = SymDisp("a"), SymIndex("a")
    for n, d in instances():
        if isinstance(d, IndexDispersion):
            vf.expect_raises(TypeError, "dispersion + %s" % n, add, a, d)
            vf.expect_raises(TypeError, "%s + dispersion" % n, add, d, a)
            vf.expect_raises(TypeError, "sum + %s" % n, add, a + SymDisp("b"), d)
            vf.expect_raises(TypeError, "%s + sum" % n, add, d, a + SymDisp("b"))
        else:
            vf.expect_raises(TypeError, "index dispersion + %s" % n, add, i, d)
            vf.expect_raises(TypeError, "%s + index dispersion" % n, add, d, i)
            vf.expect_raises(TypeError, "index sum + %s" % n, add, i + SymIndex("b"), d)
            vf.expect_raises(TypeError, "%s + index sum" % n, add, d, i + SymIndex("b"))


def ob_each_model():
    """every built-in model can be added, on either side, and contributes its own function"""
    a, i = SymDisp("a"), SymIndex("a")
    for n, d in instances():
        if isinstance(d, IndexDispersion):
            own = d.refractive_index(lbda()) + 0 * lbda()
            ind(pure(d, i, n + " + index dispersion"), own + N("a"), n + " + index dispersion")
            ind(pure(i, d, "index dispersion + " + n), own + N("a"), "index dispersion + " + n)
            ind(pure(d, 2, n + " + 2"), own + 2, n + " + 2")
        else:
            own = d.dielectric_function(lbda()) + 0 * lbda()
            vf.equal(pure(d, a, n + " + dispersion").dielectric_function(lbda()), own + E("a"), n + " + dispersion")
            vf.equal(pure(a, d, "dispersion + " + n).dielectric_function(lbda()), own + E("a"), "dispersion + " + n)
            vf.equal(pure(d, 2, n + " + 2").dielectric_function(lbda()) + 0 * lbda(), own + 2, n + " + 2")
            vf.equal(pure(2, d, "2 + " + n).dielectric_function(lbda()) + 0 * lbda(), own + 2, "2 + " + n)


def ob_wrong_operands():
    a, i = SymDisp("a"), SymIndex("a")
    for w in ("x", None, [1], {}):
        vf.expect_raises(TypeError, "dispersion + object of the wrong kind", add, a, w)
        vf.expect_raises(TypeError, "index dispersion + object of the wrong kind", add, i, w)
        vf.expect_raises(TypeError, "sum + object of the wrong kind", add, a + SymDisp("b"), w)
        vf.expect_raises(TypeError, "index sum + object of the wrong kind", add, i + SymIndex("b"), w)


def ob_parts_follow():
    """a sum is made of its parts, not of copies that miss later changes of them"""
    A, E0, g, B = vf.real("A", 0.2, 2), vf.real("E0", 0.2, 2), vf.real("g", 0.2, 2), vf.real("B", 0.2, 2)
    d = D.LorentzEnergy().add(A=A, E=E0, gamma=g)
    c = D.EpsilonInf(eps=B)
    s = d + c
    s2 = s + SymDisp("a")
    c.single_params["eps"] = 2 * B
    eps(s2, d.dielectric_function(lbda()) + 2 * B + E("a"), "sum after a parameter of a part changed")


def ob_repr():
    s = SymDisp("a") + SymDisp("b") + 2
    vf.frozen("repr of a sum", [s], repr, s)
    vf.frozen("repr of an index sum", [s], repr, SymIndex("a") + SymIndex("b"))


def ob_many():
    """a dozen parts, added one by one, pairwise or from the right"""
    ds = [SymDisp("d%d" % k) for k in range(12)]
    ns = [SymIndex("i%d" % k) for k in range(12)]
    we, wn = 0, 0
    for k in range(12):
        we, wn = we + E("d%d" % k), wn + N("i%d" % k)
    left, right = ds[0], ds[-1]
    ileft, iright = ns[0], ns[-1]
    for k in range(1, 12):
        left, right = left + ds[k], ds[11 - k] + right
        ileft, iright = ileft + ns[k], ns[11 - k] + iright
    eps(left, we, "twelve dispersions from the left")
    eps(right, we, "twelve dispersions from the right")
    ind(ileft, wn, "twelve index dispersions from the left")
    ind(iright, wn, "twelve index dispersions from the right")
    half = ds[0] + ds[1] + ds[2] + ds[3] + ds[4] + 7
    rest = 3 + (ds[5] + ds[6]) + ds[7] + (ds[8] + (ds[9] + ds[10]) + ds[11])
    eps(half + rest, we + 10, "twelve dispersions and two numbers in groups")
