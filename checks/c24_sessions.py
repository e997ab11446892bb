"""C24: a fitting session keeps widgets, parameters, model and history in step."""

import itertools
import math
import os
import tempfile

import numpy as np
import pandas as pd
from ipywidgets.widgets import widget as W
from lmfit import Parameters, minimize

import plotly.io

from elli.fitting import ParamsHist, fit, fit_mueller_matrix
from mc.lab import elli

ID = "C24"
LEVEL = "model_checking"
RULE = (
    "all user histories up to the bound over editing values, (un)checking parameters, fitting, undo, redo, reset and display choices are "
    "executed on real headless sessions by operating their widgets, next to a reference session of plain dictionaries; after the last step "
    "values, history, widgets, every displayed curve and the returned tables are compared, every fit is checked to be a constrained local "
    "minimum of the distance. state = (values, flags, history, redo slot, display) of the reference"
)
BOUNDS = {
    "quick": "histories of <= 3 of 13 actions (psi/delta with an expression) and of 11 actions (Mueller matrix), <= 2 in the other 3 sessions, 10 long histories; histories of <= 5 (psi/delta) and <= 4 (Mueller matrix) of the five history actions",
    "thorough": "histories of <= 4 actions from all 5 sessions; <= 6 and <= 5 of the five history actions",
}
ASSUMPTIONS = [
    "redo re-applies the parameter set removed by the last undo or reset (one level), as the library does",
    "at least one parameter varies when a fit is started; expression parameters are not edited directly",
]
CHUNK = 1
RECYCLE = 3  # the toolkit keeps every widget of a process alive
TIMEOUT = {"quick": 400, "thorough": 3000}

plotly.io.templates.default = "none"  # the style of the figures is not judged, and costly
INF = float("inf")
LB = {0: [400.0, 500.0, 600.0, 700.0], 1: [700.0, 450.0, 520.0], 2: [300, 500, 650, 900, 1200], 3: [400.0, 480.0, 560.0, 640.0, 720.0]}
ANG = 68.0


def structure(p, get):
    film = elli.ConstantRefractiveIndex(n=get("n")).get_mat()
    sub = elli.ConstantRefractiveIndex(n=3.8 + 1j * get("k")).get_mat()
    return elli.Structure(elli.AIR, [elli.Layer(film, get("d"))], sub)


def model(lbda, params):
    return structure(params, lambda k: params[k].value).evaluate(lbda, ANG, solver=elli.Solver2x2)


def amodel(lbda, params):
    """an anisotropic sample, for Mueller matrices"""
    m = elli.UniaxialMaterial(elli.ConstantRefractiveIndex(n=params["n"].value), elli.ConstantRefractiveIndex(n=params["n"].value + 0.3))
    m.set_rotation(elli.rotation_euler(40, 60, 0))
    sub = elli.ConstantRefractiveIndex(n=3.8 + 1j * params["k"].value).get_mat()
    s = elli.Structure(elli.AIR, [elli.Layer(m, params["d"].value)], sub)
    return s.evaluate(lbda, ANG)


SPEC = {"d": (120.0, True, 50.0, 200.0, None), "n": (1.5, True, 1.2, 1.9, None), "k": (0.02, False, -INF, INF, None)}


def params(kind, cls):
    p = cls()
    for n, (v, vary, lo, hi, _) in SPEC.items():
        p.add(n, v, vary=vary, min=lo, max=hi)
    if kind == 1:
        p.add("d2", expr="2*d")
    return p


class V:
    def __init__(self, v):
        self.value = v


def values(d):
    return {k: V(v) for k, v in d.items()}


TRUE = {"d": 108.0, "n": 1.46, "k": 0.03}
_DATA = {}


def data(kind, mm):
    """a fixed deterministic disturbance on top of the model"""
    if (kind, mm) not in _DATA:
        lb = np.array(LB[kind])
        idx = pd.Index(lb, name="Wavelength")
        if mm:
            m = amodel(lb, values(TRUE)).mueller_matrix
            m = m + 0.01 * np.cos(1.3 * np.arange(m.size)).reshape(m.shape)
            m[:, 0, 0] = 1
            if kind == 3:  # as measured: not normalised and outside of the physical range
                m = 1.6 * m + 0.05 * np.sin(np.arange(m.size)).reshape(m.shape)
            df = pd.DataFrame(m.reshape(-1, 16), index=idx, columns=[f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)])
        else:
            r = model(lb, values(TRUE))
            e = np.cos(2.1 * np.arange(len(lb)))
            df = pd.DataFrame({"Ψ": r.psi * (1 + 0.01 * e), "Δ": r.delta - 1.5 * e[::-1]}, index=idx)
            if kind == 3:
                df["Ψ"] = [-2.5, 91.0, 44.0, 0.0, 30.0]
                df["Δ"] = [-200.0, 370.5, 180.0, 15.0, -180.0]
        _DATA[kind, mm] = df
    return _DATA[kind, mm].copy()


SESSIONS = {
    "rho": dict(mm=False, kind=0, cls=ParamsHist),
    "rho-expr": dict(mm=False, kind=1, cls=ParamsHist),
    "rho-plain": dict(mm=False, kind=2, cls=Parameters),
    "mm": dict(mm=True, kind=0, cls=ParamsHist),
    "mm-grid": dict(mm=True, kind=1, cls=ParamsHist, kw=dict(display_single=False, sharex=True, full_scale=True)),
}
SESSIONS["rho-raw"] = dict(mm=False, kind=3, cls=ParamsHist)
SESSIONS["mm-raw"] = dict(mm=True, kind=3, cls=ParamsHist)
ACTIONS = ["d=90", "n=1.7", "n=5", "k=0.3", "fix n", "free n", "free k", "fit", "undo", "redo", "reset", "show", "api fit"]
MMACT = ["d=90", "n=1.7", "n=5", "fix n", "free n", "fit", "undo", "redo", "reset", "residual", "api fit"]
HISTORY = ["d=90", "n=1.7", "undo", "redo", "reset"]
DISPLAYS = ["Psi/Delta", "Rho", "Pseudo Diel.", "Residual"]


def cases(tier):
    for s, cfg in SESSIONS.items():
        acts = MMACT if cfg["mm"] else ACTIONS
        depth = 3 if tier == "quick" else 4
        if tier == "quick" and s in ("rho", "mm-grid", "rho-plain"):
            depth = 2
        if s.endswith("-raw"):
            depth = 1 if tier == "quick" else 2
        yield dict(session=s, first=[], depth=0)
        for a in acts:
            yield dict(session=s, first=[a], depth=1)
        for a in acts:
            for b in acts if depth > 2 else [None]:
                yield dict(session=s, first=[a] if b is None else [a, b], depth=depth)
    # deeper words over the history operations alone
    for s in ("rho", "mm-grid"):
        depth = (5 if s == "rho" else 4) + (tier == "thorough")
        for a, b in itertools.product(HISTORY, repeat=2):
            yield dict(session=s, first=[a, b], depth=depth, acts=HISTORY)
    # long histories of one user
    for s in ("rho", "mm"):
        for h in (
            ["fit", "undo", "redo", "undo", "redo", "fit", "undo", "undo", "undo"],
            ["d=90", "fix n", "fit", "undo", "fit", "redo", "free n", "fit", "undo", "reset", "redo"],
            ["n=1.7", "d=90", "undo", "n=1.7", "redo", "redo", "undo", "undo", "undo", "undo", "redo", "redo"],
            ["fit", "reset", "fit", "reset", "undo", "redo", "undo"],
            ["n=5", "fit", "fix n", "n=1.7", "fit", "free n", "undo", "fit"],
        ):
            yield dict(session=s, history=h)


class Model:
    def __init__(self, kind, hist):
        self.kind, self.has_hist = kind, hist
        self.cur = {k: [v[0], v[1]] for k, v in SPEC.items()}
        self.init = {k: list(v) for k, v in self.cur.items()}
        self.hist, self.last, self.fitted = [], None, self.vals()
        self.show, self.residual = "Psi/Delta", False

    def vals(self):
        return {k: v[0] for k, v in self.cur.items()}

    def commit(self):
        if self.has_hist:
            self.hist.append(self.vals())

    def set(self, vals):
        for k, v in vals.items():
            self.cur[k][0] = v


class Session:
    def __init__(self, name):
        cfg = SESSIONS[name]
        self.cfg = cfg
        W._instances.clear() if len(W._instances) > 20000 else None
        before = set(W._instances)
        self.exp = data(cfg["kind"], cfg["mm"])
        self.copy = self.exp.copy()
        self.given = params(cfg["kind"], cfg["cls"])
        if cfg["mm"]:
            self.f = fit_mueller_matrix(self.exp, self.given, **cfg.get("kw", {}))(amodel)
        else:
            self.f = fit(self.exp, self.given, angle=ANG)(model)
        new = [W._instances[i] for i in W._instances if i not in before]
        self.text = {w.description: w for w in new if type(w).__name__ == "BoundedFloatText"}
        self.button = {w.description: w for w in new if type(w).__name__ == "Button"}
        self.box = {w.tooltip: w for w in new if type(w).__name__ == "Checkbox" and w.tooltip}
        self.residual = [w for w in new if type(w).__name__ == "Checkbox" and w.description == "Display Residual"]
        self.select = [w for w in new if type(w).__name__ == "Dropdown" and w.options]
        self.names = list(SPEC) + (["d2"] if cfg["kind"] == 1 else [])
        self.new = new

    def close(self):
        for w in self.new:
            W._instances.pop(w.model_id, None)

    def get(self, n):
        return float(self.f.params[n].value)


def objective(s, vals):
    """the documented distance between model and data"""
    p = values(vals)
    lb = np.asarray(s.copy.index, float)
    if s.cfg["mm"]:
        return float(np.sum((s.copy.values.reshape(-1, 4, 4) - amodel(lb, p).mueller_matrix) ** 2))
    rho = np.tan(np.radians(s.copy["Ψ"].to_numpy())) * np.exp(-1j * np.radians(s.copy["Δ"].to_numpy()))
    return float(np.sum(np.abs(rho - model(lb, p).rho) ** 2))


def judge_fit(out, s, m, before, after, what):
    free = [k for k in SPEC if m.cur[k][1]]
    for k in SPEC:
        if k not in free:
            out.that(after[k] == before[k], "fixed", lambda: f"{what}: fixed parameter {k} went from {before[k]} to {after[k]}")
        out.that(SPEC[k][2] <= after[k] <= SPEC[k][3], "bounds", lambda: f"{what}: {k} = {after[k]}")
    f0 = objective(s, after)
    out.that(f0 <= objective(s, before) * (1 + 1e-9) + 1e-14, "worse", lambda: f"{what}: distance {objective(s, before)} -> {f0}")
    if not free:
        return
    ref = objective(s, reference_fit(s, m, before))
    if f0 <= ref * (1 + 1e-5) + 1e-12:
        out.ev()
        return
    # a worse result than the reference fit is only accepted at another local minimum
    for delta in itertools.product((-1, 0, 1), repeat=len(free)):
        for step in (1e-4, 1e-3, 1e-2):
            v = dict(after)
            for k, e in zip(free, delta):
                v[k] = after[k] + e * step * (abs(after[k]) + 0.01)
            if any(not SPEC[k][2] <= v[k] <= SPEC[k][3] for k in free):
                continue
            f1 = objective(s, v)
            out.that(f1 >= f0 * (1 - 1e-5) - 1e-12, "minimum", lambda: f"{what}: {after} has distance {f0} (a fit from the same start: {ref}), {v} has {f1}")


_REF = {}


def reference_fit(s, m, before):
    """an independent least-squares fit of the documented distance from the same start"""
    key = (s.cfg["mm"], s.cfg["kind"], tuple(sorted(before.items())), tuple((k, m.cur[k][1]) for k in SPEC))
    if key not in _REF:
        p = Parameters()
        for k, (_, _, lo, hi, _) in SPEC.items():
            p.add(k, before[k], vary=m.cur[k][1], min=lo, max=hi)
        lb = np.asarray(s.copy.index, float)

        def res(p):
            if s.cfg["mm"]:
                return (s.copy.values.reshape(-1, 4, 4) - amodel(lb, p).mueller_matrix).ravel()
            rho = np.tan(np.radians(s.copy["Ψ"].to_numpy())) * np.exp(-1j * np.radians(s.copy["Δ"].to_numpy()))
            r = rho - model(lb, p).rho
            return np.concatenate((r.real, r.imag))

        r = minimize(res, p, method="leastsq")
        _REF[key] = {k: float(r.params[k].value) for k in SPEC}
    return _REF[key]


def apply(out, s, m, a, what):
    f = s.f
    out.trans()
    if "=" in a:
        n, v = a.split("=")
        v = float(v)
        s.text[n].value = v
        v = min(max(v, SPEC[n][2]), SPEC[n][3])
        if v != m.cur[n][0]:
            m.commit()
            m.cur[n][0] = v
    elif a.split()[0] in ("fix", "free"):
        n = a.split()[1]
        s.box[n].value = a.startswith("free")
        m.cur[n][1] = m.init[n][1] = a.startswith("free")
    elif a == "fit":
        before = m.vals()
        s.button["Fit"].click()
        m.commit()
        after = {k: s.get(k) for k in SPEC}
        judge_fit(out, s, m, before, after, what)
        m.set(after)
        m.fitted = m.vals()
    elif a == "api fit":
        before = m.vals()
        r = f.fit()
        after = {k: float(r.params[k].value) for k in SPEC}
        judge_fit(out, s, m, before, after, what)
        m.fitted = after
        shown = {k: float(f.fitted_params[k].value) for k in SPEC}
        out.that(shown == after, "fitted", lambda: f"{what}: fitted_params {shown}, result {after}")
    elif a == "undo" and m.has_hist:
        s.button["Undo"].click()
        m.last = None
        if m.hist:
            m.last = m.vals()
            m.set(m.hist.pop())
    elif a == "redo" and m.has_hist:
        s.button["Redo"].click()
        if m.last is not None:
            m.commit()
            m.set(m.last)
            m.last = None
    elif a == "reset" and m.has_hist:
        s.button["Set initial"].click()
        m.last = m.vals() if m.hist else None
        m.hist = []
        m.cur = {k: list(v) for k, v in m.init.items()}
    elif a == "show":
        m.show = DISPLAYS[(DISPLAYS.index(m.show) + 1) % 4]
        s.select[0].value = m.show
    elif a == "residual":
        m.residual = not m.residual
        s.residual[0].value = m.residual


def curve(tr):
    x, y = np.asarray(tr.x, float), np.asarray(tr.y, float)
    n = min(len(x), len(y))
    pts = [(a, b) for a, b in zip(x[:n], y[:n]) if not math.isnan(b)]
    return pts


def same(pts, lb, y, tol=1e-9):
    return len(pts) == len(lb) and np.allclose([p[0] for p in pts], lb) and np.allclose([p[1] for p in pts], y, rtol=tol, atol=tol)


def pseudo(rho):
    t = math.radians(ANG)
    return math.sin(t) ** 2 * (1 + math.tan(t) ** 2 * ((1 - rho) / (1 + rho)) ** 2)


def judge(out, s, m, what, full):
    f = s.f
    got = {k: s.get(k) for k in SPEC}
    out.that(got == m.vals(), "values", lambda: f"{what}: parameters {got}, expected {m.vals()}")
    out.that(all(bool(f.params[k].vary) == m.cur[k][1] for k in SPEC), "vary", lambda: f"{what}: flags { {k: f.params[k].vary for k in SPEC} }, expected {m.cur}")
    out.that(all((f.params[k].min, f.params[k].max) == SPEC[k][2:4] for k in SPEC), "bounds", lambda: f"{what}: bounds changed")
    show = dict(m.vals())
    if "d2" in s.names:
        show["d2"] = 2 * show["d"]
        out.that(abs(f.params["d2"].value - show["d2"]) < 1e-9, "expression", lambda: f"{what}: d2 = {f.params['d2'].value}")
    for k, v in show.items():
        out.that(abs(s.text[k].value - v) <= 1e-12 * abs(v), "widget", lambda: f"{what}: the widget of {k} shows {s.text[k].value}, the parameter is {v}")
        out.that(f.param_widgets[k] is s.text[k], "widget", f"{what}: other widget")
        if k in SPEC:
            out.that(s.box[k].value == m.cur[k][1], "checkbox", lambda: f"{what}: the box of {k} shows {s.box[k].value}")
    if m.has_hist:
        h = [{k: float(p[k].value) for k in SPEC} for p in f.params.history]
        out.that(h == m.hist and f.params.history_len == len(m.hist), "history", lambda: f"{what}: history {h}, expected {m.hist}")
    out.that(s.exp.equals(s.copy) and list(s.exp.columns) == list(s.copy.columns) and s.exp.index.equals(s.copy.index), "data", lambda: f"{what}: measured data changed")
    lb = np.asarray(s.copy.index, float)
    fig = f.fig
    if s.cfg["mm"]:
        mm = amodel(lb, values(m.vals())).mueller_matrix.reshape(-1, 16)
        out.that(len(fig.data) == 32, "traces", lambda: f"{what}: {len(fig.data)} traces")
        for i in range(16):
            n = f"M{i // 4 + 1}{i % 4 + 1}"
            e = s.copy[n].to_numpy()
            out.that(same(curve(fig.data[2 * i]), lb, e), "curve:data", lambda: f"{what}: data curve of {n}")
            y = mm[:, i] - e if m.residual else mm[:, i]
            out.that(same(curve(fig.data[2 * i + 1]), lb, y), "curve:model", lambda: f"{what}: model curve of {n} shows {curve(fig.data[2 * i + 1])}, expected {y}")
            out.that(n in fig.data[2 * i].name and n in fig.data[2 * i + 1].name, "names", lambda: f"{what}: {n} is called {fig.data[2 * i].name}, {fig.data[2 * i + 1].name}")
    else:
        r = model(lb, values(m.vals()))
        psi, delta = s.copy["Ψ"].to_numpy(), s.copy["Δ"].to_numpy()
        rho = np.tan(np.radians(psi)) * np.exp(-1j * np.radians(delta))
        pe, pm = pseudo(rho), pseudo(r.rho)
        exp = {
            "Psi/Delta": (psi, delta, r.psi, r.delta, ["Ψ", "Δ", "Ψ_calc", "Δ_calc"]),
            "Rho": (rho.real, rho.imag, r.rho.real, r.rho.imag, ["ρr", "ρi", "ρr_calc", "ρi_calc"]),
            "Pseudo Diel.": (pe.real, pe.imag, pm.real, pm.imag, ["ϵ1", "ϵ2", "ϵ1_calc", "ϵ2_calc"]),
            "Residual": (psi - r.psi, delta - r.delta, (rho - r.rho).real, (rho - r.rho).imag, ["Psi Res.", "Delta Res.", "ρr Res.", "ρi Res."]),
        }[m.show]
        # before the first refresh the curves of the model are drawn next to the data
        for i in range(4):
            out.that(same(curve(fig.data[i]), lb, exp[i]), f"curve:{i}", lambda: f"{what}: curve {i} of {m.show} shows {curve(fig.data[i])}, expected {exp[i]}")
        out.that([t.name for t in fig.data] == exp[4], "names", lambda: f"{what}: names {[t.name for t in fig.data]}, expected {exp[4]}")
    if full:
        tables(out, s, m, what, lb)
    out.state(s.cfg["mm"], s.cfg["kind"], m.cur, m.hist, m.last, m.show, m.residual)


def tables(out, s, m, what, lb):
    f = s.f
    other = params(s.cfg["kind"], Parameters)
    other["d"].value, other["n"].value = 77.0, 1.33
    ov = {"d": 77.0, "n": 1.33, "k": SPEC["k"][0]}
    for given, vals, desc in ((None, m.fitted, "fit"), (other, ov, "model")):
        for app in (False, True):
            if s.cfg["mm"]:
                df = f.get_model_data(given, append_exp_data=app) if given is not None else f.get_model_data(append_exp_data=app)
                want = amodel(lb, values(vals)).mueller_matrix.reshape(-1, 16)
                cols = [f"{c}_{desc}" for c in s.copy.columns]
                full = np.hstack([s.copy.values, want]) if app else want
                out.that(list(df.columns) == (list(s.copy.columns) if app else []) + cols and np.allclose(df.index, lb) and np.allclose(df.values, full, atol=1e-9), "table", lambda: f"{what}: get_model_data({desc}, {app})")
            else:
                for rep in ("psi-delta", "rho"):
                    df = f.get_model_data(given, rep, app)
                    r = model(lb, values(vals))
                    if rep == "rho":
                        cols, want = [f"ρ_{desc}"], np.array([r.rho]).T
                        e = np.array([np.tan(np.radians(s.copy["Ψ"].to_numpy())) * np.exp(-1j * np.radians(s.copy["Δ"].to_numpy()))]).T
                    else:
                        cols, want = [f"Ψ_{desc}", f"Δ_{desc}"], np.array([r.psi, r.delta]).T
                        e = s.copy.values
                    full = np.hstack([e, want]) if app else want
                    ok = df.shape == full.shape and list(df.columns)[-len(cols) :] == cols and np.allclose(df.index, lb) and np.allclose(df.values.astype(complex), full, atol=1e-9)
                    out.that(ok, "table", lambda: f"{what}: get_model_data({desc}, {rep}, {app}): {df}")
    if what.endswith("[plots]"):
        d, fd = s.copy, model if not s.cfg["mm"] else amodel
        r = fd(lb, values(m.fitted))
        if s.cfg["mm"]:
            mm = r.mueller_matrix.reshape(-1, 16)
            for kw in ({}, {"display_single": True}, {"display_single": False}, {"sharex": True, "full_scale": True}):
                g = f.plot(**kw)
                out.that(len(g.data) == 32 and all(same(curve(g.data[2 * i]), lb, d.values[:, i]) and same(curve(g.data[2 * i + 1]), lb, mm[:, i]) for i in range(16)), "plot", f"{what}: plot({kw})")
                g = f.plot_residual(**kw)
                out.that(len(g.data) == 16 and all(same(curve(g.data[i]), lb, mm[:, i] - d.values[:, i]) for i in range(16)), "plot", f"{what}: plot_residual({kw})")
        else:
            g = f.plot()
            y = [d["Ψ"].to_numpy(), d["Δ"].to_numpy(), r.psi, r.delta]
            out.that(len(g.data) == 4 and all(same(curve(g.data[i]), lb, y[i]) for i in range(4)), "plot", f"{what}: plot()")
            g = f.plot_rho()
            rho = np.tan(np.radians(y[0])) * np.exp(-1j * np.radians(y[1]))
            y = [rho.real, rho.imag, r.rho.real, r.rho.imag]
            out.that(len(g.data) == 4 and all(same(curve(g.data[i]), lb, y[i]) for i in range(4)), "plot", f"{what}: plot_rho()")
            try:
                f.get_model_data(repr="epsilon")
                out.that(False, "reject", "unknown representation accepted")
            except ValueError:
                out.ev()
        with tempfile.TemporaryDirectory(prefix="c24-") as tmp:
            path = os.path.join(tmp, "x.csv")
            f.to_csv(fname=path)
            back = pd.read_csv(path, index_col=0)
            want = f.get_model_data()
            out.that(list(back.columns) == list(want.columns) and np.allclose(back.values, want.values), "csv", f"{what}: to_csv")


def run(out, name, hist, plots=False, every=False):
    s = Session(name)
    m = Model(s.cfg["kind"], s.cfg["cls"] is ParamsHist)
    for i, a in enumerate(hist):
        last = i == len(hist) - 1
        apply(out, s, m, a, f"{name} session, {hist[: i + 1]}")
        if every and not last:
            judge(out, s, m, f"{name} session, {hist[: i + 1]}", True)
    judge(out, s, m, f"{name} session, {hist}" + ("[plots]" if plots else ""), len(hist) < 3 or hist[-1] in ("fit", "api fit", "reset"))
    out.trace()
    s.close()


def check(case, out):
    if "history" in case:
        run(out, case["session"], case["history"], True, True)
        return
    acts = case.get("acts") or (MMACT if SESSIONS[case["session"]]["mm"] else ACTIONS)
    for rest in itertools.product(acts, repeat=case["depth"] - len(case["first"])):
        run(out, case["session"], case["first"] + list(rest), case["depth"] <= 1)
    out.sample(case)
