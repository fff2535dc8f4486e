import numpy as np
import vf
from numpy.lib.scimath import sqrt
import elli
from elli.materials import VCAMaterial, LooyengaEMA, MaxwellGarnettEMA, BruggemanEMA, IsotropicMaterial, MixtureMaterial
from spec_common import SymMat, SymDisp, lbda, iso


def hg():
    return iso("h"), iso("g")


def ends(cls, name, offdiag=True):
    lb = lbda()
    h, g = hg()
    f = vf.real("f", 0, 1)
    m = cls(h, g, f)
    eh, eg = h.get_tensor(lb), g.get_tensor(lb)
    for i in range(3):
        for j in range(3):
            vf.equal(m.get_tensor_fraction(lb, 0)[:, i, j], eh[:, i, j], name + ": fraction 0 is the host [%d%d]" % (i, j))
            vf.equal(m.get_tensor_fraction(lb, 1)[:, i, j], eg[:, i, j], name + ": fraction 1 is the guest [%d%d]" % (i, j))
    same = cls(h, h, f)
    for i in range(3):
        vf.equal(same.get_tensor(lb)[:, i, i], eh[:, i, i], name + ": equal constituents give the common tensor %d" % i)
    vf.equal(same.get_tensor(lb)[:, 0, 1], 0 * lb, name + ": equal constituents off-diagonal")


def ob_vca_ends():
    ends(VCAMaterial, "VCA")


def ob_looyenga_ends():
    ends(LooyengaEMA, "Looyenga")


def ob_maxwell_garnett_ends():
    ends(MaxwellGarnettEMA, "Maxwell-Garnett")


def ob_bruggeman_ends():
    ends(BruggemanEMA, "Bruggeman")


def rule(cls, f, lb, h, g):
    return cls(h, g, f).get_tensor(lb)


def ob_rules():
    lb = lbda()
    h, g = hg()
    f = vf.real("f", 0, 1)
    eh, eg = h.get_tensor(lb)[:, 0, 0], g.get_tensor(lb)[:, 0, 0]
    m = VCAMaterial(h, g, f).get_tensor(lb)
    vf.equal(m[:, 0, 0], (1 - f) * eh + f * eg, "VCA rule")
    vf.equal(m[:, 1, 1], (1 - f) * eh + f * eg, "VCA rule yy")
    vf.equal(m[:, 2, 2], (1 - f) * eh + f * eg, "VCA rule zz")
    m = LooyengaEMA(h, g, f).get_tensor(lb)
    for i in range(3):
        vf.equal(m[:, i, i], ((1 - f) * eh ** (1 / 3) + f * eg ** (1 / 3)) ** 3, "Looyenga rule %d" % i)
    m = MaxwellGarnettEMA(h, g, f).get_tensor(lb)
    for i in range(3):
        vf.equal(m[:, i, i], eh * (2 * f * (eg - eh) + eg + 2 * eh) / (2 * eh + eg - f * (eg - eh)), "Maxwell-Garnett rule %d" % i)


def ob_vca_tensor():
    lb = lbda()
    h, g = SymMat("h"), SymMat("g")
    f = vf.real("f", 0, 1)
    vf.equal(VCAMaterial(h, g, f).get_tensor(lb), (1 - f) * h.get_tensor(lb) + f * g.get_tensor(lb), "VCA rule for full tensors")


def ob_bruggeman_rule():
    lb = lbda()
    h, g = hg()
    f = vf.real("f", 0, 1)
    e = BruggemanEMA(h, g, f).get_tensor(lb)
    eh, eg = h.get_tensor(lb)[:, 0, 0], g.get_tensor(lb)[:, 0, 0]
    for i in range(3):
        x = e[:, i, i]
        vf.equal(2 * x ** 2 - ((2 - 3 * f) * eh + (3 * f - 1) * eg) * x - eh * eg, 0 * lb, "Bruggeman: solves the documented quadratic with f the guest share %d" % i)
        vf.equal(e[:, i, (i + 1) % 3], 0 * lb, "Bruggeman off-diagonal %d" % i)


def ob_override():
    lb = lbda()
    h, g = hg()
    f, f2 = vf.real("f", 0, 1), vf.real("f2", 0, 1)
    for cls, name in ((VCAMaterial, "VCA"), (LooyengaEMA, "Looyenga"), (MaxwellGarnettEMA, "Maxwell-Garnett")):
        m = cls(h, g, f)
        t2 = m.get_tensor_fraction(lb, f2)
        vf.equal(t2, cls(h, g, f2).get_tensor(lb), name + ": explicit fraction overrides the stored one")
        vf.equal(m.fraction, f, name + ": stored fraction is kept")
        vf.equal(m.get_tensor(lb), cls(h, g, f).get_tensor(lb), name + ": later evaluations use the stored fraction")
        m.set_fraction(f2)
        vf.equal(m.get_tensor(lb), t2, name + ": set_fraction")
        m.set_constituents(g, h)
        vf.equal(m.get_tensor(lb), cls(g, h, f2).get_tensor(lb), name + ": set_constituents(host, guest)")


def ob_override_bruggeman():
    lb = lbda()
    h, g = hg()
    f, f2 = vf.real("f", 0, 1), vf.real("f2", 0, 1)
    m = BruggemanEMA(h, g, f)
    t2 = m.get_tensor_fraction(lb, f2)
    vf.equal(t2[:, 0, 0], BruggemanEMA(h, g, f2).get_tensor(lb)[:, 0, 0], "Bruggeman: explicit fraction overrides the stored one")
    vf.equal(m.fraction, f, "Bruggeman: stored fraction is kept")


def ob_zero_tensor_entries():
    """vanishing permittivity entries stay defined"""
    lb = lbda()
    h, g = hg()
    f = vf.real("f", 0, 1)
    for cls, name in ((VCAMaterial, "VCA"), (LooyengaEMA, "Looyenga"), (MaxwellGarnettEMA, "Maxwell-Garnett"), (BruggemanEMA, "Bruggeman")):
        m = cls(h, g, f).get_tensor(lb)
        for i in range(3):
            for j in range(3):
                if i != j:
                    vf.equal(m[:, i, j], 0 * lb, name + ": off-diagonal stays zero [%d%d]" % (i, j))


def ob_nested():
    lb = lbda()
    h, g = hg()
    f, f2 = vf.real("f", 0, 1), vf.real("f2", 0, 1)
    inner = VCAMaterial(h, g, f2)
    m = VCAMaterial(inner, g, f).get_tensor(lb)[:, 0, 0]
    eh, eg = h.get_tensor(lb)[:, 0, 0], g.get_tensor(lb)[:, 0, 0]
    vf.equal(m, (1 - f) * ((1 - f2) * eh + f2 * eg) + f * eg, "mixture of a mixture")
