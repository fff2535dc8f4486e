import numpy as np
import pandas as pd
import lmfit
import vf
from ipywidgets import widgets
from lmfit import Parameters
from elli.fitting import ParamsHist, fit, fit_mueller_matrix
from elli.result import Result
from spec_common import Exp, lbda

INF = float("inf")
CELLS = ["M%d%d" % (i + 1, j + 1) for i in range(4) for j in range(4)]


class Sim(Result):
    """a simulated result: its rho and Mueller matrix are unknown functions of wavelength and parameters"""

    def __init__(self, lb, *p):
        n = np.shape(lb)[0]
        z = np.zeros((n, 2, 2), dtype=np.complex128)
        super().__init__(Exp(lb, np.array([1, 1])), z, z, np.ones(n))
        self.p = (lb,) + p

    @property
    def rho(self):
        return vf.app("r_re", *self.p) + 1j * vf.app("r_im", *self.p)

    @property
    def mueller_matrix(self):
        return np.stack([np.stack([vf.app("r_m%d%d" % (i, j), *self.p) for j in range(4)], axis=-1) for i in range(4)], axis=-2)


LOG = []


def model(lb, params):
    lb = np.asarray(lb)
    LOG.append(lb)
    return Sim(lb, params["a"].value, params["b"].value, params["c"].value)


def start(cls):
    p = cls()
    p.add("a", vf.real("a0", 0, 2.9), min=0, max=10)
    p.add("b", vf.real("b0", -3, 19), min=-3, max=40, vary=False)
    p.add("c", vf.real("c0", -3, 50))
    return p


def waves():
    return np.array([400.0, 500.0, 620.0])


def psi_delta(lb=None):
    lb = waves() if lb is None else lb
    n = lb.shape
    return pd.DataFrame({"Ψ": vf.arr("psi", n, "real", 0, 90), "Δ": vf.arr("delta", n, "real", -180, 180)}, index=pd.Index(lb, name="Wavelength"))


def mueller(lb=None):
    lb = waves() if lb is None else lb
    return pd.DataFrame(vf.arr("mm", (lb.shape[0], 16), "real", -1, 1), index=pd.Index(lb, name="Wavelength"), columns=CELLS)


def rho_of(d):
    return np.tan(np.deg2rad(d["Ψ"].values)) * np.exp(-1j * np.deg2rad(d["Δ"].values))


def values(p):
    return {k: p[k].value for k in p}


def full(p):
    return {k: (p[k].value, p[k].min, p[k].max, p[k].vary, p[k].brute_step) for k in p}


def same(p, want, label):
    vf.check(sorted(p) == sorted(want), label + ": names")
    for k in want:
        vf.equal(p[k].value, want[k], label + ": " + k)


def same_full(p, want, label):
    got = full(p)
    vf.check(sorted(got) == sorted(want), label + ": names")
    for k in want:
        for a, g, w in zip(("value", "min", "max", "vary", "brute_step"), got[k], want[k]):
            if w is None or g is None:
                vf.check(g is w, label + ": " + a)
            else:
                vf.equal(g, w, label + ": " + a)


def sim(lb, v):
    return Sim(np.asarray(lb), v["a"], v["b"], v["c"])


def objective(residual):
    """the sum of squares lmfit minimises"""
    r = np.asarray(residual)
    return np.sum(np.abs(r.ravel()) ** 2)


def points(residual):
    r = np.asarray(residual)
    n = 1
    for k in np.shape(r):
        n = n * k
    return n


class Psi:
    name = "psi/delta"
    decorator = fit
    kwargs = {}

    def data(self, lb=None):
        return psi_delta(lb)

    def make(self, d, p, **kw):
        return fit(d, p, **kw)(model)

    def wanted(self, d, s):
        return np.sum(np.abs(rho_of(d) - s.rho) ** 2)

    def table(self, d, s, desc):
        return {"Ψ_" + desc: s.psi, "Δ_" + desc: s.delta}

    exp = ["Ψ", "Δ"]


class Mm:
    name = "Mueller"

    def data(self, lb=None):
        return mueller(lb)

    def make(self, d, p, **kw):
        return fit_mueller_matrix(d, p, **kw)(model)

    def wanted(self, d, s):
        out = 0
        for i in range(4):
            for j in range(4):
                out = out + np.sum((d[CELLS[4 * i + j]].values - s.mueller_matrix[:, i, j]) ** 2)
        return out

    def table(self, d, s, desc):
        return {CELLS[4 * i + j] + "_" + desc: s.mueller_matrix[:, i, j] for i in range(4) for j in range(4)}

    exp = CELLS


KINDS = (Psi(), Mm())
SETS = (ParamsHist, Parameters)


def calls(n, label):
    vf.check(len(lmfit.CALLS) == n, label + ": number of minimisations")
    return lmfit.CALLS[-1]


def last():
    fcn, params, args, kws, method, res, residual = lmfit.CALLS[-1]
    return fcn, params, args, kws, method, res, residual


def ob_objective():
    """what is minimised"""
    for k in KINDS:
        for cls in SETS:
            d, p = k.data(), start(cls)
            f = k.make(d, p)
            n = len(lmfit.CALLS)
            f.fit()
            vf.check(len(lmfit.CALLS) == n + 1, k.name + ": one minimisation per fit")
            fcn, params, args, kws, method, res, residual = last()
            v = values(res.params)
            s = sim(waves(), v)
            vf.equal(objective(residual), k.wanted(d, s), k.name + ": sum of squared differences between model and data")
            q = start(Parameters)
            q["a"].value = vf.real("qa", 1, 2)
            q["b"].value = vf.real("qb", 1, 2)
            q["c"].value = vf.real("qc", 1, 2)
            vf.equal(objective(fcn(q, *args, **kws)), k.wanted(d, sim(waves(), values(q))), k.name + ": objective at any parameters")


def ob_every_point():
    """residuals of all points at the wavelengths of the data, whatever their number and order"""
    for lb in ([512.0], [300.0, 301.0], [700.0, 600.0, 500.0, 400.0], [250.5, 900.0, 400.0, 633.0, 632.8]):
        lb = np.array(lb)
        for k in KINDS:
            d = k.data(lb)
            f = k.make(d, start(ParamsHist))
            f.fit()
            fcn, params, args, kws, method, res, residual = last()
            s = sim(lb, values(res.params))
            vf.equal(objective(residual), k.wanted(d, s), k.name + ": sum of squared differences over all points")
            vf.equal(f.get_model_data().index.values, lb, k.name + ": wavelengths of the model data")


def ob_wavelengths():
    """the model is only evaluated at the wavelengths of the data"""
    for k in KINDS:
        d, p = k.data(), start(ParamsHist)
        n = len(LOG)
        f = k.make(d, p)
        f.fit()
        f.get_model_data()
        vf.check(len(LOG) > n, k.name + ": the model is used")
        for lb in LOG[n:]:
            vf.equal(lb, waves(), k.name + ": wavelengths given to the model")


def ob_data_unaltered():
    for k in KINDS:
        for cls in SETS:
            d, p = k.data(), start(cls)
            before = full(p)
            f = vf.frozen(k.name + ": making the fit leaves data and parameters unaltered", [d, p], k.make, d, p)
            same_full(p, before, k.name + ": parameters after making the fit")
            vf.frozen(k.name + ": fitting leaves data and parameters unaltered", [d, p], f.fit)
            same_full(p, before, k.name + ": parameters after fitting")
            vf.frozen(k.name + ": reading the model leaves data and parameters unaltered", [d, p], f.get_model_data)
            vf.frozen(k.name + ": reading model and data leaves them unaltered", [d, p], appended, f)
            n = k.data()
            vf.equal(d.values, n.values, k.name + ": measured data")
            vf.equal(d.index.values, n.index.values, k.name + ": measured wavelengths")
            vf.equal(list(d.columns), list(n.columns), k.name + ": measured columns")


def appended(f):
    return f.get_model_data(append_exp_data=True)


def ob_model_data():
    """get_model_data: the model at the given, else the fitted, else the initial parameters"""
    for k in KINDS:
        d, p = k.data(), start(ParamsHist)
        f = k.make(d, p)
        v0 = values(p)
        check_table(k, f.get_model_data(), k.table(d, sim(waves(), v0), "fit"), k.name + ": before a fit")
        f.fit()
        res = last()[5]
        v1 = values(res.params)
        check_table(k, f.get_model_data(), k.table(d, sim(waves(), v1), "fit"), k.name + ": after a fit")
        q = start(Parameters)
        q["a"].value = vf.real("qa", 1, 2)
        check_table(k, f.get_model_data(q), k.table(d, sim(waves(), values(q)), "model"), k.name + ": at given parameters")
        want = {c: d[c].values for c in k.exp}
        want.update(k.table(d, sim(waves(), v1), "fit"))
        check_table(k, f.get_model_data(append_exp_data=True), want, k.name + ": with the data appended")
        want = {c: d[c].values for c in k.exp}
        want.update(k.table(d, sim(waves(), values(q)), "model"))
        check_table(k, f.get_model_data(q, append_exp_data=True), want, k.name + ": at given parameters, with the data appended")


def check_table(k, t, want, label):
    vf.equal(list(t.columns), list(want), label + ": columns")
    vf.equal(t.index.values, waves(), label + ": wavelengths")
    for c in want:
        vf.equal(t[c].values, want[c], label + ": column " + c)


def ob_rho_data():
    d, p = psi_delta(), start(ParamsHist)
    f = fit(d, p)(model)
    s = sim(waves(), values(p))
    t = f.get_model_data(repr="rho")
    vf.equal(list(t.columns), ["ρ_fit"], "columns of the rho table")
    vf.equal(t["ρ_fit"].values, s.rho, "rho of the model")
    vf.equal(t.index.values, waves(), "wavelengths of the rho table")
    t = f.get_model_data(repr="rho", append_exp_data=True)
    vf.equal(t.iloc[:, 0].values, rho_of(d), "rho of the data")
    vf.equal(t["ρ_fit"].values, s.rho, "rho of the model, appended")
    for bad in ("", "psi", "Rho", "delta", "mueller", None):
        vf.expect_raises(ValueError, "representation %r is refused" % (bad,), f.get_model_data, p, bad)


def ob_starts_from_current():
    """every fit starts from the current parameters; the result is what lmfit returned"""
    for k in KINDS:
        for cls in SETS:
            d, p = k.data(), start(cls)
            f = k.make(d, p)
            res = f.fit()
            same(last()[1], {"a": vf.real("a0", 0, 2.9), "b": vf.real("b0", -3, 19), "c": vf.real("c0", -3, 50)}, k.name + ": first start")
            vf.same_object(res, last()[5], k.name + ": fit returns the result of the minimisation")
            vf.check(last()[4] == "leastsq", k.name + ": default method")
            p["a"].value = vf.real("a1", 1, 2)
            p["b"].vary = True
            p["c"].max = 7.0
            before = full(p)
            f.fit("nelder")
            same_full(last()[1], before, k.name + ": second start")
            vf.check(last()[4] == "nelder", k.name + ": method given by position")
            f.fit(method="powell")
            same_full(last()[1], before, k.name + ": third start")
            vf.check(last()[4] == "powell", k.name + ": method given by name")


def button(made, text):
    out = [w for w in made if isinstance(w, widgets.Button) and w.description == text]
    return out


class Ui:
    """the widgets a fit made"""

    def __init__(self, k, cls, **kw):
        n = len(widgets.CREATED)
        self.k = k
        self.d, self.p = k.data(), start(cls)
        self.f = k.make(self.d, self.p, **kw)
        made = widgets.CREATED[n:]
        self.button = {}
        for w in made:
            if isinstance(w, widgets.Button):
                self.button[w.description] = w
        self.box = {}
        self.check = {}
        for w in made:
            if isinstance(w, widgets.BoundedFloatText):
                self.box[w.description] = w
            if isinstance(w, widgets.Checkbox) and w.description_tooltip is not None:
                self.check[w.description_tooltip] = w

    def expect(self, want, label):
        same(self.p, want, self.k.name + ", " + label + ": parameters")
        for n in want:
            vf.equal(self.box[n].value, want[n], self.k.name + ", " + label + ": shown value of " + n)


def set_a(ui, i):
    v = vf.real("new%d" % i, 8 + 0.1 * i, 8.05 + 0.1 * i)
    ui.box["a"].value = v
    return {"a": v}


def set_b(ui, i):
    v = vf.real("neb%d" % i, 20 + i, 20.5 + i)
    ui.box["b"].value = v
    return {"b": v}


def set_c(ui, i):
    """negative values of unbounded parameters"""
    v = vf.real("nec%d" % i, -4 - i, -3.5 - i)
    ui.box["c"].value = v
    return {"c": v}


def set_initial(ui, i):
    ui.button["Set initial"].click()
    return {"a": vf.real("a0", 0, 2.9), "b": vf.real("b0", -3, 19), "c": vf.real("c0", -3, 50)}


def set_fit(ui, i):
    n = len(lmfit.CALLS)
    before = values(ui.p)
    ui.button["Fit"].click()
    vf.check(len(lmfit.CALLS) == n + 1, "one minimisation per click")
    same(lmfit.STARTS[-1], before, "the fit starts from the current parameters")
    return values(last()[5].params)


CHANGES = {"box a": set_a, "box b": set_b, "box c": set_c, "Set initial": set_initial, "Fit": set_fit}


def drive(k, seq):
    """every change is recorded once and undone by one click"""
    ui = Ui(k, ParamsHist)
    live = values(ui.p)
    hist = []
    ui.expect(live, "start")
    h0 = ui.p.history_len
    vf.check(h0 == 0, k.name + ": making the fit records nothing")
    i = 0
    undone = None
    for step in seq:
        if step == "Undo":
            ui.button["Undo"].click()
            if hist:
                undone = live
                live = hist.pop()
            else:
                undone = None
        elif step == "Redo":
            ui.button["Redo"].click()
            if undone is not None:
                hist.append(live)
                live = undone
                undone = None
        else:
            hist.append(live)
            live = dict(live)
            live.update(CHANGES[step](ui, i))
        ui.expect(live, step)
        vf.check(ui.p.history_len == len(hist), k.name + ", " + step + ": number of undoable changes")
        for h, w in zip(ui.p.history, hist):
            same(h, w, k.name + ", " + step + ": recorded values")
        i += 1


def interact(k):
    for a in CHANGES:
        drive(k, (a, "Undo", "Undo"))
        drive(k, (a, "Undo", "Redo", "Undo", "Undo"))
        for b in CHANGES:
            drive(k, (a, b, "Undo", "Redo", "Undo", "Undo", "Undo"))
            drive(k, (a, "Undo", b, "Undo", "Undo"))
    drive(k, ("Undo", "Redo", "Undo", "box a", "Undo", "Redo", "box b", "Undo", "Undo"))
    drive(k, ("Fit", "box a", "Fit", "box b", "Set initial", "Undo", "Undo", "Undo", "Undo", "Undo", "Undo"))


def ob_interact_psi():
    interact(KINDS[0])


def ob_interact_mueller():
    interact(KINDS[1])


def ob_same_value():
    """setting the value already shown is no change"""
    for k in KINDS:
        ui = Ui(k, ParamsHist)
        ui.box["a"].value = vf.real("a0", 0, 2.9)
        vf.check(ui.p.history_len == 0, k.name + ": an unchanged value is not recorded")


def ob_plain():
    """plain parameter sets: widgets and fits work, there is nothing to undo"""
    for k in KINDS:
        ui = Ui(k, Parameters)
        live = values(ui.p)
        ui.expect(live, "plain start")
        for step in ("box a", "Fit", "box c", "Fit", "box b"):
            live = dict(live)
            live.update(CHANGES[step](ui, 0))
            ui.expect(live, "plain " + step)
        for b in ("Undo", "Redo", "Set initial"):
            if b in ui.button:
                ui.button[b].click()
                vf.check(isinstance(ui.p, Parameters), "plain parameters stay usable")


def ob_fit_arguments():
    """arguments given to the decorator reach the fit"""
    for k in KINDS:
        ui = Ui(k, ParamsHist, method="nelder")
        ui.button["Fit"].click()
        vf.check(last()[4] == "nelder", k.name + ": method of the fit button")
        ui = Ui(k, ParamsHist)
        ui.button["Fit"].click()
        vf.check(last()[4] == "leastsq", k.name + ": default method of the fit button")


def ob_vary_boxes():
    for k in KINDS:
        for cls in SETS:
            ui = Ui(k, cls)
            for n in ("a", "b", "c"):
                vf.check(ui.check[n].value == ui.p[n].vary, k.name + ": shown vary flag")
            ui.check["a"].value = False
            ui.check["b"].value = True
            vf.check(ui.p["a"].vary is False and ui.p["b"].vary is True and ui.p["c"].vary is True, k.name + ": vary flags follow the boxes")
            ui.button["Fit"].click()
            q = last()[1]
            vf.check(q["a"].vary is False and q["b"].vary is True and q["c"].vary is True, k.name + ": vary flags of the fit")
            vf.equal(ui.p["a"].value, vf.real("a0", 0, 2.9), k.name + ": fixed parameters are kept by the fit")


def ob_recorded_apart():
    """the fitted and the current parameters are separate"""
    for k in KINDS:
        for cls in SETS:
            ui = Ui(k, cls)
            ui.button["Fit"].click()
            res = last()[5]
            v = values(res.params)
            ui.box["a"].value = vf.real("later", 8, 9)
            same(res.params, v, k.name + ": fit results are unaltered by later changes")
            t = ui.f.get_model_data()
            c = list(t.columns)[0]
            vf.equal(t[c].values, ui.k.table(ui.d, sim(waves(), v), "fit")[c], k.name + ": model data at the fitted parameters")


def ob_two_fits():
    """two fits do not share anything but what they were given"""
    for k in KINDS:
        u, w = Ui(k, ParamsHist), Ui(k, ParamsHist)
        v = values(w.p)
        u.box["a"].value = vf.real("n1", 8, 9)
        u.button["Fit"].click()
        u.button["Undo"].click()
        w.expect(v, "the other fit")
        vf.check(w.p.history_len == 0, k.name + ": history of the other fit")


def traces(ui):
    return {t.name.strip(): t for t in ui.f.fig.data}


def shown(ui, want, label):
    t = traces(ui)
    for n in want:
        vf.check(n in t, ui.k.name + ", " + label + ": curve " + n)
        vf.equal(t[n].y, want[n], ui.k.name + ", " + label + ": curve " + n + " shows")


def dropdown(ui):
    return [w for w in widgets.CREATED if isinstance(w, widgets.Dropdown) and len(w.options) == 4][-1]


def displays(d, v):
    s = sim(waves(), v)
    r = rho_of(d)
    th = np.deg2rad(70)
    def peps(rho):
        return np.sin(th) ** 2 * (1 + np.tan(th) ** 2 * ((1 - rho) / (1 + rho)) ** 2)
    return {"Psi/Delta": {"Ψ": d["Ψ"].values, "Δ": d["Δ"].values, "Ψ_calc": s.psi, "Δ_calc": s.delta},
            "Rho": {"ρr": r.real, "ρi": r.imag, "ρr_calc": s.rho.real, "ρi_calc": s.rho.imag},
            "Pseudo Diel.": {"ϵ1": peps(r).real, "ϵ2": peps(r).imag, "ϵ1_calc": peps(s.rho).real, "ϵ2_calc": peps(s.rho).imag},
            "Residual": {"Psi Res.": d["Ψ"].values - s.psi, "Delta Res.": d["Δ"].values - s.delta, "ρr Res.": r.real - s.rho.real, "ρi Res.": r.imag - s.rho.imag}}


def ob_shown_psi():
    """the curves are the data and the model at the current parameters, in the selected representation"""
    ui = Ui(KINDS[0], ParamsHist)
    sel = dropdown(ui)
    for step in ("box a", "Fit", "Undo", "box c", "Set initial", "Undo", "Redo"):
        if step in CHANGES:
            CHANGES[step](ui, 0)
        else:
            ui.button[step].click()
        want = displays(ui.d, values(ui.p))
        shown(ui, want[sel.value], step + ", " + sel.value)
        for opt in ("Rho", "Pseudo Diel.", "Residual", "Psi/Delta", "Rho"):
            sel.value = opt
            shown(ui, want[opt], step + ", " + opt)


def ob_shown_angle():
    ui = Ui(KINDS[0], Parameters, angle=vf.real("angle", 0, 89.9))
    dropdown(ui).value = "Pseudo Diel."
    th = np.deg2rad(vf.real("angle", 0, 89.9))
    r = rho_of(ui.d)
    e = np.sin(th) ** 2 * (1 + np.tan(th) ** 2 * ((1 - r) / (1 + r)) ** 2)
    shown(ui, {"ϵ1": e.real, "ϵ2": e.imag}, "angle of incidence of the pseudo-dielectric function")


    for angle in (0.0, 45.0, 1e-3):
        ui = Ui(KINDS[0], Parameters, angle=angle)
        dropdown(ui).value = "Pseudo Diel."
        th = angle * np.pi / 180
        e = np.sin(th) ** 2 * (1 + np.tan(th) ** 2 * ((1 - r) / (1 + r)) ** 2)
        shown(ui, {"ϵ1": e.real, "ϵ2": e.imag}, "pseudo-dielectric function at %r degrees" % angle)


def ob_limits():
    """every box accepts exactly the values its parameter allows"""
    for k in KINDS:
        for lo, hi in ((0, 10), (-3, 0), (-2, 40), (1e-9, 1e9), (-float("inf"), 5), (0, float("inf"))):
            p = Parameters()
            p.add("a", 0.0 if lo <= 0 <= hi else 1.0, min=lo, max=hi)
            p.add("b", 1.0)
            p.add("c", -1.0)
            n = len(widgets.CREATED)
            f = k.make(k.data(), p)
            box = [w for w in widgets.CREATED[n:] if isinstance(w, widgets.BoundedFloatText) and w.description == "a"][0]
            lab = "%s, limits %r to %r" % (k.name, lo, hi)
            vf.check(box.min == lo if lo > -float("inf") else box.min < -1e300, lab + ": lower limit of the box")
            vf.check(box.max == hi if hi < float("inf") else box.max > 1e300, lab + ": upper limit of the box")
            vf.equal(box.value, p["a"].value, lab + ": value")
            vf.equal(f.params["a"].min, lo, lab + ": lower limit of the parameter")
            vf.equal(f.params["a"].max, hi, lab + ": upper limit of the parameter")


def ob_shown_mueller():
    for single in (True, False):
        ui = Ui(KINDS[1], ParamsHist, display_single=single)
        n = len(widgets.CREATED)
        res = [w for w in widgets.CREATED if isinstance(w, widgets.Checkbox) and w.description == "Display Residual"][-1]
        for step in ("start", "box a", "Fit", "Undo", "box c", "Redo"):
            if step in CHANGES:
                CHANGES[step](ui, 0)
            elif step != "start":
                ui.button[step].click()
            s = sim(waves(), values(ui.p))
            want = {c: ui.d[c].values for c in CELLS}
            for i in range(4):
                for j in range(4):
                    want[CELLS[4 * i + j] + " theory"] = s.mueller_matrix[:, i, j]
            shown(ui, want, step)
            res.value = True
            want = {c: ui.d[c].values for c in CELLS}
            for i in range(4):
                for j in range(4):
                    want[CELLS[4 * i + j] + " Residual"] = s.mueller_matrix[:, i, j] - ui.d[CELLS[4 * i + j]].values
            shown(ui, want, step + ", residual")
            res.value = False


def ob_plots():
    """plots of the fit show the model at the fitted parameters"""
    ui = Ui(KINDS[0], ParamsHist)
    ui.button["Fit"].click()
    v = values(last()[5].params)
    ui.box["a"].value = vf.real("later", 8, 9)
    s = sim(waves(), v)
    t = {c.name: c for c in ui.f.plot_rho().data}
    r = rho_of(ui.d)
    for n, w in (("ρr", r.real), ("ρi", r.imag), ("ρcr", s.rho.real), ("ρci", s.rho.imag)):
        vf.equal(t[n].y, w, "plot_rho: " + n)
        vf.equal(t[n].x, waves(), "plot_rho: wavelengths")
    for single in (True, False):
        ui = Ui(KINDS[1], ParamsHist, display_single=single)
        ui.button["Fit"].click()
        v = values(last()[5].params)
        ui.box["a"].value = vf.real("later", 8, 9)
        m = sim(waves(), v).mueller_matrix
        t = {c.name.strip(): c for c in ui.f.plot().data}
        u = {c.name.strip(): c for c in ui.f.plot_residual().data}
        for i in range(4):
            for j in range(4):
                c = CELLS[4 * i + j]
                vf.equal(t[c].y, ui.d[c].values, "plot: data " + c)
                vf.equal(t[c + " theory"].y, m[:, i, j], "plot: model " + c)
                vf.equal(u[c].y, m[:, i, j] - ui.d[c].values, "plot_residual: " + c)
                if not single:
                    vf.equal([t[c].row, t[c].col], [i + 1, j + 1], "plot: place of " + c)


def ob_psi_plot():
    """the plot of a psi/delta fit shows the data and the model at the fitted parameters, each at its wavelength"""
    ui = Ui(KINDS[0], ParamsHist)
    ui.button["Fit"].click()
    v = values(last()[5].params)
    ui.box["a"].value = vf.real("later", 8, 9)
    s = sim(waves(), v)
    fig = vf.frozen("plot leaves the data alone", [ui.d], ui.f.plot)
    got = {}
    for t in fig.data:
        got[t.name] = [(x, y) for x, y in zip(t.x, t.y) if not pd.isna(y)]
    for n, w in (("Ψ", ui.d["Ψ"].values), ("Δ", ui.d["Δ"].values), ("Ψ_fit", s.psi), ("Δ_fit", s.delta)):
        vf.equal([x for x, _ in got[n]], waves(), "plot: wavelengths of " + n)
        vf.equal([y for _, y in got[n]], w, "plot: values of " + n)


def ob_csv():
    """saving writes the table get_model_data returns for the same request"""
    for k in KINDS:
        d, p = k.data(), start(Parameters)
        q = start(Parameters)
        q["a"].value = vf.real("csv", 3, 4)
        f = k.make(d, p)
        f.fit()
        for label, kw in (("fitted", {}), ("given parameters", {"params": q}), ("with data", {"append_exp_data": True}), ("given parameters and data", {"params": q, "append_exp_data": True})):
            nm = "%s: csv, %s" % (k.name, label)
            n = len(pd.WRITTEN)
            vf.frozen(nm + " leaves everything alone", [d, p, q], f.to_csv, fname="out.csv", sep=";", **kw)
            vf.check(len(pd.WRITTEN) == n + 1, nm + ": one table is written")
            path, t, a, k2 = pd.WRITTEN[-1]
            vf.equal(path, "out.csv", nm + ": file")
            vf.check(k2 == {"sep": ";"} and len(a) == 0, nm + ": options are passed on")
            check_table(k, t, f.get_model_data(**kw), nm)


def ob_default_parameters():
    """without parameters the table is the model at the fitted parameters: those it started from until a fit is done, those of the last fit afterwards"""
    for k in KINDS:
        for cls in SETS:
            ui = Ui(k, cls)
            v0 = values(ui.p)
            for step in ("box a", "box c"):
                CHANGES[step](ui, 0)
                check_table(k, ui.f.get_model_data(), k.table(ui.d, sim(waves(), v0), "fit"), k.name + ": before a fit, after " + step)
            check_table(k, ui.f.get_model_data(ui.p), k.table(ui.d, sim(waves(), values(ui.p)), "model"), k.name + ": at the current parameters")
            ui.button["Fit"].click()
            v1 = values(last()[5].params)
            for step in ("box b", "Undo", "Set initial"):
                if step in CHANGES and (step != "Set initial" or cls is ParamsHist):
                    CHANGES[step](ui, 1)
                elif step in ui.button:
                    ui.button[step].click()
                check_table(k, ui.f.get_model_data(), k.table(ui.d, sim(waves(), v1), "fit"), k.name + ": after a fit, after " + step)


def model_plain(lb, params):
    return Sim(np.asarray(lb), 1.5, 2.5, -1.5)


def ob_no_parameters():
    """a model without any parameter"""
    for dec, k in ((fit, KINDS[0]), (fit_mueller_matrix, KINDS[1])):
        d = k.data()
        s = Sim(waves(), 1.5, 2.5, -1.5)
        f = dec(d, Parameters())(model_plain)
        check_table(k, f.get_model_data(), k.table(d, s, "fit"), k.name + ": no parameters")
        check_table(k, f.get_model_data(Parameters()), k.table(d, s, "model"), k.name + ": no parameters, given")


def ob_extreme_points():
    """points at the ends of the range of psi and delta count like any other"""
    lb = np.array([400.0, 500.0, 620.0, 700.0, 800.0])
    for psi, delta in (([0.0, 20.0, 45.0, 0.0, 60.0], [0.0, 180.0, -180.0, 90.0, 0.0]), ([0.0] * 5, [0.0] * 5), ([30.0] * 5, [0.0, 360.0, 270.0, -90.0, 359.0])):
        d = pd.DataFrame({"Ψ": psi, "Δ": delta}, index=pd.Index(lb, name="Wavelength"))
        f = fit(d, start(ParamsHist))(model)
        f.fit()
        fcn, params, args, kws, method, res, residual = last()
        s = sim(lb, values(res.params))
        r = np.tan(np.deg2rad(np.array(psi))) * np.exp(-1j * np.deg2rad(np.array(delta)))
        vf.equal(objective(residual), np.sum(np.abs(r - s.rho) ** 2), "psi/delta: sum of squared differences with points at the ends of the range")
    m = np.zeros((5, 16))
    for fill in (0.0, 1.0, -1.0):
        d = pd.DataFrame(m + fill, index=pd.Index(lb, name="Wavelength"), columns=CELLS)
        f = fit_mueller_matrix(d, start(ParamsHist))(model)
        f.fit()
        fcn, params, args, kws, method, res, residual = last()
        vf.equal(objective(residual), KINDS[1].wanted(d, sim(lb, values(res.params))), "Mueller: sum of squared differences, all elements %s" % fill)


def ob_undo_past_reset():
    """undo goes back over every kind of change, one click each"""
    for k in KINDS:
        for seq in (("box a", "box b", "Set initial", "Undo", "Undo", "Undo"), ("box a", "Fit", "Set initial", "box c", "Undo", "Undo", "Undo", "Undo"),
                    ("Set initial", "Set initial", "Undo", "Undo"), ("Fit", "Fit", "Fit", "Undo", "Undo", "Undo"), ("box a", "Set initial", "Undo", "Redo", "Undo", "Undo")):
            drive(k, seq)
