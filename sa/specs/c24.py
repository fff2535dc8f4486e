import numpy as np
import vf
from elli import kkr

# documented integrands over an energy-like axis e with the evaluation point e_i
KERNELS = {"im2re": lambda y, e, ei: e * y / (e * e - ei * ei), "re2im": lambda y, e, ei: ei * y / (e * e - ei * ei)}


def axis(n):
    x0 = vf.real("x0", 0.01, 2000)
    h = vf.real("h", 0.001, 50)
    return [x0 + h * k for k in range(n)], h


def maclaurin(kern, y, x, h, i, reciprocal):
    """2/pi times the trapezoid-free Maclaurin sum: every other sample, double spacing, evaluation point left out"""
    tot = 0
    for j in range(len(x)):
        if (i - j) % 2 == 0:
            continue
        if reciprocal:       # e = 1/x, de = dx / x**2 in magnitude
            tot = tot + kern(y[j], 1 / x[j], 1 / x[i]) / (x[j] * x[j])
        else:
            tot = tot + kern(y[j], x[j], x[i])
    return 2 / np.pi * 2 * h * tot


def variant(name, sizes):
    rec = name.endswith("_reciprocal")
    kern = KERNELS[name[:5]]
    f = getattr(kkr, name)
    for n in sizes:
        x, h = axis(n)
        y = [vf.real("y%d" % k, -100, 100) for k in range(n)]
        out = f(np.array(y), np.array(x))
        vf.check(vf.shape_of(out) == (n,), name + ": one value per sample (n=%d)" % n)
        for i in range(n):
            vf.equal(out[i], maclaurin(kern, y, x, h, i, rec), name + ": documented kernel and quadrature, n=%d, point %d" % (n, i))
        # descending axis: the spacing is negative, so is the integration direction
        out = f(np.array(y[::-1]), np.array(x[::-1]))
        for i in range(n):
            vf.equal(out[n - 1 - i], -maclaurin(kern, y, x, h, i, rec), name + ": reversed axis, n=%d, point %d" % (n, i))


def ob_im2re():
    variant("im2re", (2, 3, 4, 5, 6, 7))


def ob_im2re_reciprocal():
    variant("im2re_reciprocal", (2, 3, 4, 5, 6, 7))


def ob_re2im():
    variant("re2im", (2, 3, 4, 5, 6, 7))


def ob_re2im_reciprocal():
    variant("re2im_reciprocal", (2, 3, 4, 5, 6, 7))


def ob_linear():
    a, b = vf.real("a", -100, 100), vf.real("b", -100, 100)
    for name in ("im2re", "im2re_reciprocal", "re2im", "re2im_reciprocal"):
        f = getattr(kkr, name)
        for n in (4, 5):
            # an arbitrary axis: linearity needs no equal spacing
            x = np.array([vf.real("x%d" % k, 2 * k + 1, 2 * k + 2) for k in range(n)])
            u = vf.arr("u", (n,), "real", -100, 100)
            w = vf.arr("w", (n,), "real", -100, 100)
            s = f(a * u + b * w, x)
            fu, fw = f(u, x), f(w, x)
            for i in range(n):
                vf.equal(s[i], a * fu[i] + b * fw[i], name + ": linear in the input, n=%d, point %d" % (n, i))
            z = f(0 * u, x)
            for i in range(n):
                vf.equal(z[i], 0, name + ": zero in, zero out, n=%d, point %d" % (n, i))


def ob_scale_axis():
    """the transform depends on ratios of axis values only"""
    c = vf.real("c", -100, 100)
    for name in ("im2re", "im2re_reciprocal", "re2im", "re2im_reciprocal"):
        f = getattr(kkr, name)
        for n in (4, 5):
            x, h = axis(n)
            y = vf.arr("y", (n,), "real", -100, 100)
            p = f(y, np.array(x))
            q = f(y, np.array([c * v for v in x]))
            for i in range(n):
                vf.equal(q[i], p[i], name + ": unit of the axis is irrelevant, n=%d, point %d" % (n, i))


def ob_single_sample():
    """one sample only feeds the points of the other parity and never itself"""
    for name in ("im2re", "im2re_reciprocal", "re2im", "re2im_reciprocal"):
        f = getattr(kkr, name)
        n = 6
        x, h = axis(n)
        for j in range(n):
            y = np.array([vf.real("y") if k == j else 0.0 for k in range(n)])
            out = f(y, np.array(x))
            for i in range(n):
                if (i - j) % 2 == 0:
                    vf.equal(out[i], 0, name + ": sample %d does not feed point %d" % (j, i))


def ob_frozen():
    for name in ("im2re", "im2re_reciprocal", "re2im", "re2im_reciprocal"):
        f = getattr(kkr, name)
        x, h = axis(5)
        x = np.array(x)
        y = vf.arr("y", (5,), "real", -100, 100)
        vf.frozen(name + ": inputs untouched", [x, y], f, y, x)
        out = f(y, x)
        vf.disjoint(out, [x, y], name + ": result is a new array")


def ob_lengths():
    for name in ("im2re", "im2re_reciprocal", "re2im", "re2im_reciprocal"):
        f = getattr(kkr, name)
        for n, m in [(n, m) for n in range(1, 7) for m in range(1, 7) if n != m]:
            vf.expect_raises(ValueError, name + ": lengths %d and %d are refused" % (n, m), f, vf.arr("y", (n,), "real"), vf.arr("x", (m,), "real"))


def ob_integer_input():
    """samples recorded as whole numbers mean the same values"""
    for name in ("im2re", "im2re_reciprocal", "re2im", "re2im_reciprocal"):
        f = getattr(kkr, name)
        for vals in ([3, -1, 2], [0, 7, 1, -4], [5, 2, 0, 0, 1]):
            axes = [[2, 3, 4, 5, 6][:len(vals)], [2.5, 2.75, 3.0, 3.25, 3.5][:len(vals)]]
            for x in axes:
                ref = f(np.array([1.0 * v for v in vals]), np.array([1.0 * v for v in x]))
                out = vf.accepted(name + ": integer samples", f, np.array(vals, dtype=int), np.array(x))
                for i in range(len(vals)):
                    vf.equal(out[i], ref[i], name + ": integer samples, n=%d, point %d" % (len(vals), i))
        x = np.array([2, 3, 4, 5], dtype=int)
        y = vf.arr("y", (4,), "real", -100, 100)
        out = vf.accepted(name + ": integer axis", f, y, x)
        ref = f(y, np.array([2.0, 3.0, 4.0, 5.0]))
        for i in range(4):
            vf.equal(out[i], ref[i], name + ": integer axis, point %d" % i)
