"""C06: evaluations only depend on the present settings and leave everything else untouched."""

import copy

import numpy as np

from mc import lab
from mc.lab import elli

ID = "C06"
LEVEL = "model_checking"
RULE = (
    "state = vector of settings of one live object graph (experiment, structure, layers, materials, "
    "dispersions); transitions = the public setters and reads. Every operation word up to the depth bound is replayed on "
    "a live object graph that is evaluated after every step; the evaluation must equal that of a graph freshly built "
    "in the reached state, and inputs, snapshots taken earlier and numpy settings must be untouched. distinct = "
    "distinct reached setting vectors"
)
ASSUMPTIONS = ["single thread (see C07 for concurrency)"]
BOUNDS = {
    "quick": "all words <= 2 over all operations and <= 3 over the mutators of distinct settings",
    "thorough": "all words <= 3 over all operations and <= 4 over 12 operations",
}
LB0 = [400.0, 633.0, 1000.0]
LB1 = [500.0]
R1 = elli.rotation_euler(20, 40, 70)
R2 = elli.rotation_v_theta(elli.E_Y, 90)
ROTS = [None, R1, R2, elli.rotation_euler(20, 40, 70.00001)]
LBS = [LB0, LB1, [x * (1 + 1e-7) for x in LB0]]

INIT = dict(d=100.0, mat="cauchy", rot=0, n0=1.5, A=60.0, nosc=1, frac=0.3, host="cauchy", rep=2, before=0, after=1, ang=90.0, div=3, front=1.0, back="lor",
            order=0, lbda=0, theta=55.0, vec=None, tl=40.0, drange=None, mod=0, mixd=30.0)
OPS = {
    "d=0": ("d", 0.0), "d=250": ("d", 250.0), "mat=tl": ("mat", "tl"), "rot=1": ("rot", 1), "rot=2": ("rot", 2), "n0=1.7": ("n0", 1.7), "A=90": ("A", 90.0),
    "osc+": ("nosc", 2), "frac=0": ("frac", 0.0), "frac=1": ("frac", 1.0), "host=lor": ("host", "lor"), "rep=4": ("rep", 4), "before=1": ("before", 1), "after=0": ("after", 0),
    "ang=0": ("ang", 0.0), "div=7": ("div", 7), "front=1.3": ("front", 1.3), "back=uni": ("back", "uni"), "back=cauchy": ("back", "cauchy"), "order=1": ("order", 1), "order=2": ("order", 2),
    "lbda=1": ("lbda", 1), "theta=0": ("theta", 0.0), "theta=70": ("theta", 70.0), "vec=H": ("vec", (1, 0.5)), "vec=C": ("vec", (1, 0, 0, 1)), "tl=5": ("tl", 5.0),
    # changes far below any plausible tolerance of a memo
    "d~": ("d", 100.00005), "n0~": ("n0", 1.5000001), "theta~": ("theta", 55.000001), "A~": ("A", 60.00001), "frac~": ("frac", 0.3000001), "ang~": ("ang", 90.00001), "front~": ("front", 1.0000001), "lbda=2": ("lbda", 2), "tl~": ("tl", 40.00001), "mixd~": ("mixd", 30.00001), "rot=3": ("rot", 3),
    "order=3": ("order", 3), "order=4": ("order", 4), "mod=1": ("mod", 1), "mixd=0": ("mixd", 0.0),
}
READS = ["read:profile", "read:results", "read:2x2fail", "read:outofrange", "read:scribble", "read:copy", "read:setbad", "read:solvers", "read:df"]
CORE = ["d=250", "mat=tl", "rot=1", "n0=1.7", "A=90", "osc+", "frac=1", "rep=4", "ang=0", "order=1", "lbda=1", "back=uni"]

TINY = [o for o in OPS if o.endswith("~")] + ["lbda=2", "rot=3", "lbda=1", "d=250"]


class Graph:
    """The live object graph; `put` calls the public setter of one setting."""

    def __init__(self, s):
        self.s = dict(s)
        self.cauchy_d = elli.Cauchy(n0=s["n0"], n1=40, k0=0.001)
        self.tl_d = elli.TaucLorentz(Eg=1.5).add(A=s["A"], E=3.5, C=2.0)
        for _ in range(1, s["nosc"]):
            self.tl_d.add(A=20, E=5, C=1)
        self.lor_d = elli.LorentzEnergy().add(A=60, E=4, gamma=0.5)
        self.tabx = np.linspace(300, 1200, 10)
        self.taby = np.linspace(1.7, 1.9, 10)
        self.tab_d = elli.Table(self.tabx, self.taby)
        self.m = dict(cauchy=self.cauchy_d.get_mat(), tl=self.tl_d.get_mat(), lor=self.lor_d.get_mat(), tab=self.tab_d.get_mat())
        self.uni = elli.UniaxialMaterial(self.cauchy_d, self.tab_d)
        if s["rot"]:
            self.uni.set_rotation(ROTS[s["rot"]].copy())
        self.m["uni"] = self.uni
        self.ema = elli.BruggemanEMA(self.m[s["host"]], self.m["tl"], s["frac"])
        self.vmix = elli.MaxwellGarnettEMA(self.m["cauchy"], self.m["tab"], 0.2)
        self.plain = elli.Layer(self.m[s["mat"]], s["d"])
        self.twist = elli.TwistedLayer(self.uni, 400, s["div"], s["ang"])
        self.mixl = elli.Layer(self.ema, s["mixd"])
        self.grad = elli.VaryingMixtureLayer(self.vmix, s["tl"], 3)
        if s["mod"]:
            self.grad.set_fraction_modulation(lambda x: x**2)
        self.repl = elli.RepeatedLayers([self.plain, self.mixl], s["rep"], s["before"], s["after"])
        self.st = elli.Structure(lab.iso(s["front"]), self.layers(s["order"]), self.m[s["back"]])
        self.lb = np.array(LBS[s["lbda"]])
        self.exp = elli.Experiment(self.st, self.lb, s["theta"], s["vec"])

    def layers(self, o):
        return [[elli.Layer(self.vmix, 25.0), self.grad, self.repl, self.twist], [self.twist, self.plain], [], [self.plain], [self.plain, elli.Layer(self.m["cauchy"], 100.0001)]][o]

    def put(self, k, v):
        self.s[k] = v
        s = self.s
        if k == "d":
            self.plain.set_thickness(v)
        elif k == "mat":
            self.plain.set_material(self.m[v])
        elif k == "rot":
            self.uni.set_rotation(ROTS[v].copy())
        elif k == "n0":
            self.cauchy_d.single_params["n0"] = v
        elif k == "A":
            self.tl_d.rep_params[0]["A"] = v
        elif k == "nosc":
            if len(self.tl_d.rep_params) < 2:
                self.tl_d.add(A=20, E=5, C=1)
        elif k == "frac":
            self.ema.set_fraction(v)
        elif k == "host":
            self.ema.set_constituents(self.m[v], self.m["tl"])
        elif k in ("rep", "before", "after"):
            self.repl.set_repetitions(s["rep"], s["before"], s["after"])
        elif k == "ang":
            self.twist.set_angle(v)
        elif k == "div":
            self.twist.set_divisions(v)
        elif k == "front":
            self.st.set_front_material(lab.iso(v))
        elif k == "back":
            self.st.set_back_material(self.m[v])
        elif k == "order":
            self.st.set_layers(self.layers(v))
        elif k == "lbda":
            self.lb = np.array(LBS[v])
            self.exp.set_lbda(self.lb)
        elif k == "theta":
            self.exp.set_theta(v)
        elif k == "vec":
            self.exp.set_vector(v)
        elif k == "tl":
            self.grad.set_thickness(v)
        elif k == "mixd":
            self.mixl.set_thickness(v)
        elif k == "mod":
            self.grad.set_fraction_modulation(lambda x: x**2)

    def obs(self, solver="4x4"):
        tab = {f"tensor:{k}": m.get_tensor(self.lb) for k, m in dict(self.m, ema=self.ema, vmix=self.vmix).items()}
        p = self.st.get_permittivity_profile(self.lb)
        tab["profile:d"] = np.array([d for d, _ in p[1:-1]])
        tab["profile:eps"] = np.array([e for _, e in p])
        r = self.exp.evaluate(**lab.SOLVERS[solver]())
        return r, dict(snap(r), **tab)


def settings(g):
    """Everything a user has set, as the objects report it."""
    e = g.exp
    mats = [g.ema, g.vmix] + list(g.m.values())
    res = [m.fraction for m in mats[:2]] + [np.array(m.rotation_matrix).tolist() for m in mats if hasattr(m, "rotation_matrix")]
    res += [l.thickness for l in (g.plain, g.twist, g.mixl, g.grad)] + [g.twist.div, g.twist.angle, g.grad.div, g.repl.repetitions, g.repl.before, g.repl.after, len(g.repl.layers), len(g.st.layers)]
    res += [repr(dict(d.single_params)) + repr([dict(r) for r in d.rep_params]) for d in (g.cauchy_d, g.tl_d, g.lor_d, g.tab_d)]
    res += [e.theta_i, np.array(e.lbda).tolist(), np.array(e.jones_vector).tolist(), np.array(e.stokes_vector).tolist()]
    return res


ACC = ("jones_matrix_r", "jones_matrix_t", "rho", "psi", "delta", "R", "T_matrix", "mueller_matrix")


def snap(r):
    return {a: np.array(getattr(r, a)) for a in ACC}


def diff(a, b):
    worst = (0.0, None)
    for k in ACC if len(a) == len(ACC) or len(b) == len(ACC) else list(a):
        if a[k].shape != b[k].shape:
            return (np.inf, k)
        d = np.abs(a[k] - b[k]) / (1 + np.abs(b[k]))
        if k == "delta":
            d = np.minimum(np.abs(a[k] - b[k]), 360 - np.abs(a[k] - b[k]))
        e = np.inf if np.any(np.isnan(d) != (np.isnan(a[k]) & np.isnan(b[k]))) else np.nanmax(d, initial=0)
        if e > worst[0]:
            worst = (e, k)
    return worst


_FRESH = {}


def fresh(s):
    key = repr(sorted(s.items(), key=lambda kv: kv[0]))
    if key not in _FRESH:
        if len(_FRESH) > 3000:
            _FRESH.clear()
        _FRESH[key] = Graph(s).obs()[1]
    return _FRESH[key]


def cases(tier):
    ops = list(OPS) + READS
    yield [[]]
    two = [[a, b] for a in ops for b in ops]
    for i in range(0, len(two), 25):
        yield two[i : i + 25]
    if tier == "quick":
        three = [list(w) for w in lab.product(CORE, CORE, CORE)] + [[o, a, b] for o in ("order=1", "order=3", "order=4") for a in CORE + TINY for b in TINY] + [[a, r, b] for a in list(OPS)[::3] for r in READS for b in CORE]
    else:
        three = [list(w) for w in lab.product(ops, ops, ops)]
    for i in range(0, len(three), 40):
        yield three[i : i + 40]
    if tier == "thorough":
        four = [list(w) for w in lab.product(CORE, CORE, CORE, CORE)]
        for i in range(0, len(four), 60):
            yield four[i : i + 60]


def check(case, out):
    for w in case:
        run(w, out)


def run(word, out):
    rep = [list(word)]
    g = Graph(INIT)
    err0 = np.geterr()
    past = [g.obs()]  # results computed earlier with their snapshots
    rot_in = None
    for i, op in enumerate(word):
        s_before = dict(g.s)
        if op in OPS:
            g.put(*OPS[op])
            out.trans()
        else:
            read(op, g, out, rep)
            out.that(g.s == s_before, "internal", "harness")
        lb_copy = g.lb.copy()
        set_before = settings(g)
        r, o = g.obs()
        out.that(settings(g) == set_before, "settings", f"evaluating changed a setting after {word[: i + 1]}: {set_before} -> {settings(g)}", rep)
        e, k = diff(o, fresh(g.s))
        out.that(e <= 1e-10, f"stale:{op.split('=')[0]}", f"after {word[: i + 1]} {k} differs by {e} from a fresh object in the same state", rep)
        out.that(np.array_equal(lb_copy, g.lb), "input:lbda", f"the wavelength array was changed by {word[: i + 1]}", rep)
        for j, (rr, so) in enumerate(past):
            e, k = diff(snap(rr), so)
            out.that(e == 0, "past", f"a result computed before step {i} ({op}) changed ({k}, {e}) in {word}", rep)
        past.append((r, o))
        out.that(np.geterr() == err0, "errstate", f"numpy error settings changed by {word[: i + 1]}", rep)
        out.state(g.s)
    # evaluating again gives the very same numbers
    o2 = g.obs()[1]
    out.that(all(np.array_equal(o2[k], past[-1][1][k], equal_nan=True) for k in ACC), "repeat", f"repeating the evaluation after {word} gives other numbers", rep)
    out.that(np.array_equal(g.tabx, np.linspace(300, 1200, 10)) and np.array_equal(g.taby, np.linspace(1.7, 1.9, 10)), "input:table", f"table input changed by {word}", rep)
    np.seterr(**err0)
    out.trace()
    out.sample({"word": word, "final": {k: v for k, v in g.s.items() if v != INIT[k]}})


def deep(prof):
    return [(d, np.array(e)) for d, e in prof]


def read(op, g, out, rep):
    if op == "read:profile":
        a = deep(g.st.get_permittivity_profile(g.lb))
        b = g.st.get_permittivity_profile(g.lb)
        out.that(len(a) == len(b) and all(x[0] == y[0] and np.array_equal(x[1], y[1]) for x, y in zip(a, b)), "profile", "reading the permittivity profile twice gives different profiles", rep)
    elif op == "read:results":
        r = g.exp.evaluate()
        a = snap(r)
        for name in ("R_matrix", "T", "Rc_matrix", "Tc_matrix", "jones_matrix_rc", "jones_matrix_tc", "psi_matrix", "delta_matrix", "rho_matrix", "rho_t", "psi_t", "delta_t", "r_sp", "T_pp", "psi_ps", "rc_LR"):
            getattr(r, name)
        e, k = diff(snap(r), a)
        out.that(e == 0, "accessor", f"reading results changes {k} by {e}", rep)
    elif op == "read:2x2fail":
        try:
            g.exp.evaluate(solver=elli.Solver2x2)
        except Exception:
            pass
    elif op == "read:outofrange":
        for lb in (np.array([5000.0]), np.array([10.0])):
            try:
                g.st.evaluate(lb, 50)
            except Exception:
                pass
    elif op == "read:scribble":
        # handed out arrays belong to the caller
        for m in list(g.m.values()) + [g.ema, g.vmix]:
            t = m.get_tensor(g.lb)
            t[...] = 7
            n = m.get_refractive_index(g.lb)
            n[...] = 7
        for d, t in g.st.get_permittivity_profile(g.lb):
            t[...] = 5
        for d in (g.cauchy_d, g.tl_d, g.lor_d, g.tab_d):
            x = d.get_dielectric(g.lb)
            x[...] = 3
            f = d.get_refractive_index_df(g.lb)
            f.iloc[:, :] = 0
        r = g.exp.evaluate()
        for a in ACC:
            v = getattr(r, a)
            try:
                v[...] = 0
            except ValueError:
                pass
        p = g.st.get_permittivity_profile(g.lb)
        p.clear()
        z = g.twist.get_slices()
        z[...] = -1
    elif op == "read:copy":
        c = copy.deepcopy(g.exp)
        e, k = diff(snap(c.evaluate()), snap(g.exp.evaluate()))
        out.that(e == 0, "deepcopy", f"a deep copy of the experiment gives another result ({k}: {e})", rep)
        c.structure.set_layers([])
        c.structure.set_front_material(lab.iso(1.9))
        c.set_theta(12)
        c.set_lbda([800.0])
        c.set_vector([1, 0])
        for lay in copy.deepcopy(g.exp).structure.layers:
            if hasattr(lay, "set_thickness"):
                lay.set_thickness(1.0)
        d = copy.deepcopy(g.cauchy_d)
        d.single_params["n0"] = 9
        d = copy.deepcopy(g.tl_d)
        d.add(1, 1, 1)
        d.rep_params[0]["A"] = 0
    elif op == "read:setbad":
        for f in (lambda: g.plain.set_thickness(-1), lambda: g.ema.set_fraction(1.5), lambda: g.repl.set_repetitions(0), lambda: g.twist.set_divisions(0), lambda: g.st.set_layers("x"),
                  lambda: g.plain.set_material(3), lambda: g.st.set_back_material(3), lambda: g.st.set_front_material(None), lambda: g.ema.set_constituents(1, 2), lambda: g.repl.set_layers([1]),
                  lambda: g.st.set_layers([g.plain, 1]), lambda: g.tl_d.add(X=3), lambda: g.ema.set_constituents(g.m["lor"], 3), lambda: g.uni.set_dispersion(g.lor_d, 1), lambda: g.repl.set_repetitions(3, -1, 0),
                  lambda: g.repl.set_repetitions(3, 1, -1)):
            try:
                f()
            except (ValueError, TypeError, elli.dispersions.base_dispersion.InvalidParameters):
                continue
            except Exception as e:
                out.fail("reject", f"unexpected {type(e).__name__}: {e}", rep)
                continue
            out.fail("reject", "an invalid setting was accepted", rep)
    elif op == "read:solvers":
        a = snap(g.exp.evaluate())
        for s in lab.EXACT4 + ["linear"]:
            g.exp.evaluate(**lab.SOLVERS[s]())
        e, k = diff(snap(g.exp.evaluate()), a)
        out.that(e == 0, "solvers", f"using other propagators changes later results ({k}: {e})", rep)
    elif op == "read:df":
        for d in (g.cauchy_d, g.tl_d, g.lor_d, g.tab_d):
            d.get_dielectric_df()
            d.get_refractive_index_df(conjugate=True)
            d.get_refractive_index(g.lb)
            str(d)
            d + 1.5 if d is not g.tab_d else None
