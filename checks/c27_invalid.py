"""C27: invalid input is rejected and leaves objects unchanged."""

import copy
import itertools

import numpy as np

from mc import lab
from mc.lab import elli

ID = "C27"
LEVEL = "model_checking"
RULE = (
    "for every class with restricted values: every history of attempts up to the depth over an alphabet of admissible, boundary and "
    "inadmissible values, executed on one object next to a reference state; after every step the object must behave like one newly built from the "
    "reference state; every constructor call with every combination of values and single and double violations. state = (class, reference state, "
    "last verdict); transition = one attempt"
)
BOUNDS = {
    "quick": "13 classes, histories of <= 3 attempts over 8 to 45 letters; all constructor combinations; functions and lookups",
    "thorough": "histories of <= 4 attempts (3 for alphabets of more than 26 letters)",
}
ASSUMPTIONS = ["not-a-number and non-integer counts are not judged", "the error class is not judged, only that the attempt raises an error"]
TIMEOUT = {"quick": 300, "thorough": 2400}
CHUNK = 2
LB = np.array([400.0, 700.0])
BAD = "bad"


def letters():
    """shared valid objects, built once per process"""
    if not L:
        c, d = elli.ConstantRefractiveIndex(n=1.5), elli.Cauchy(1.4, 30, 5)
        e = elli.EpsilonInf(2.0)
        i, j = c.get_mat(), elli.ConstantRefractiveIndex(n=2.2 + 0.1j).get_mat()
        u = elli.UniaxialMaterial(c, d)
        u.set_rotation(elli.rotation_euler(30, 50, 10))
        vca, mg = elli.VCAMaterial(i, j, 0.3), elli.MaxwellGarnettEMA(i, j, 0.2)
        la, lb = elli.Layer(i, 40.0), elli.Layer(u, 25.0)
        L.update(c=c, d=d, e=e, i=i, j=j, u=u, vca=vca, mg=mg, la=la, lb=lb, rep=elli.RepeatedLayers([la, lb], 2, 1, 0), tw=elli.TwistedLayer(u, 60.0, 3, 90.0), cls=elli.IsotropicMaterial, lcls=elli.Layer, dcls=elli.Cauchy)
    return L


L = {}


def val(x):
    """["ref", name] is one of the shared objects, lists of them become lists"""
    if isinstance(x, list) and x[:1] == ["ref"]:
        return letters()[x[1]]
    if isinstance(x, list) and x[:1] == ["tuple"]:
        return tuple(val(y) for y in x[1])
    if isinstance(x, list) and x[:1] == ["num"]:
        return eval(x[1], {"np": np})
    if isinstance(x, list):
        return [val(y) for y in x]
    if isinstance(x, str) and x in FUN:
        return FUN[x]
    return x


FUN = {"half": lambda x: 0.5 * x, "rev": lambda x: 1 - x}


def r(n):
    return ["ref", n]


THICK = dict(good=[100.0, 0, ["num", "-0.0"], 1e-9, 7, ["num", "np.float64(5.5)"]], bad=[-1, -1e-300, ["num", "-np.inf"], ["num", "np.float64(-0.5)"], "thick", None])
MATL = dict(good=[r("i"), r("u"), r("vca")], bad=[None, 1.5, "SiO2", r("c"), r("la"), r("cls")])
MIXL = dict(good=[r("vca"), r("mg")], bad=[None, r("i"), r("u"), r("c"), 0.5])
DIV = dict(good=[1, 2, 5], bad=[0, -1, -(10**6)])
LIST = dict(good=[[r("la")], [], [r("la"), r("rep"), r("lb")], [r("tw")]], bad=[["tuple", [r("la")]], None, r("la"), [r("la"), None], [r("i")], [r("la"), 3.0, r("lb")], "ab", [r("lcls")]])
DISP = dict(good=[r("c"), r("d"), r("e")], bad=[None, 1.5, r("i"), r("dcls"), "Cauchy"])
FRACTION = dict(good=[0, 1, 0.0, 1.0, 0.5, 1e-12], bad=[-1e-12, 1 + 1e-12, 2, -1, ["num", "np.inf"], ["num", "np.nan"], "half", None])


def multi(values, n, spare):
    """admissible tuples and tuples with exactly one or two violations"""
    good = [list(t) for t in itertools.islice(itertools.product(values["good"], repeat=n), 0, None, spare)]
    base = [values["good"][k % len(values["good"])] for k in range(n)]
    bad = []
    for k in range(n):
        for b in values["bad"]:
            t = list(base)
            t[k] = b
            bad.append(t)
    for k, m in itertools.combinations(range(n), 2):
        t = list(base)
        t[k] = t[m] = values["bad"][0]
        bad.append(t)
    return dict(good=good, bad=bad)


REPS = dict(good=[[1, 0, 0], [3, 1, 0], [2, 0, 2], [1, 5, 5]], bad=[[0, 0, 0], [-1, 0, 0], [2, -1, 0], [2, 0, -1], [0, 1, 1], [5, 2, -3], [None, 0, 0], [3, "a", 0]])

# class: (fields of the reference state, constructor, {setter: (fields, values)}, behaviour)
KINDS = {
    "Layer": dict(init=dict(m=r("i"), d=50.0), new=lambda s: elli.Layer(s["m"], s["d"]), ops={"set_material": (["m"], MATL), "set_thickness": (["d"], THICK)}),
    "TwistedLayer": dict(
        init=dict(m=r("u"), d=50.0, n=3, a=90.0), new=lambda s: elli.TwistedLayer(s["m"], s["d"], s["n"], s["a"]),
        ops={"set_material": (["m"], MATL), "set_thickness": (["d"], THICK), "set_divisions": (["n"], DIV), "set_angle": (["a"], dict(good=[0, 45.0], bad=[]))},
    ),
    "VaryingMixtureLayer": dict(
        init=dict(m=r("vca"), d=50.0, n=3, f="rev"), new=lambda s: elli.VaryingMixtureLayer(s["m"], s["d"], s["n"], s["f"]),
        ops={"set_material": (["m"], MIXL), "set_thickness": (["d"], THICK), "set_divisions": (["n"], DIV), "set_fraction_modulation": (["f"], dict(good=["half"], bad=[]))},
    ),
    "RepeatedLayers": dict(
        init=dict(l=[r("la"), r("lb")], n=2, b=0, a=1), new=lambda s: elli.RepeatedLayers(s["l"], s["n"], s["b"], s["a"]),
        ops={"set_layers": (["l"], LIST), "set_repetitions": (["n", "b", "a"], REPS)},
    ),
    "Structure": dict(
        init=dict(f=r("i"), l=[r("la"), r("rep")], b=r("j")), new=lambda s: elli.Structure(s["f"], s["l"], s["b"]),
        ops={"set_front_material": (["f"], dict(good=[r("j"), r("vca")], bad=MATL["bad"])), "set_layers": (["l"], LIST), "set_back_material": (["b"], dict(good=[r("i"), r("u")], bad=MATL["bad"]))},
    ),
    "IsotropicMaterial": dict(init=dict(x=r("c")), new=lambda s: elli.IsotropicMaterial(s["x"]), ops={"set_dispersion": (["x"], DISP)}),
    "UniaxialMaterial": dict(init=dict(x=r("c"), y=r("d")), new=lambda s: elli.UniaxialMaterial(s["x"], s["y"]), ops={"set_dispersion": (["x", "y"], multi(DISP, 2, 2))}),
    "BiaxialMaterial": dict(init=dict(x=r("c"), y=r("d"), z=r("e")), new=lambda s: elli.BiaxialMaterial(s["x"], s["y"], s["z"]), ops={"set_dispersion": (["x", "y", "z"], multi(DISP, 3, 5))}),
}
for _m in ("VCAMaterial", "LooyengaEMA", "MaxwellGarnettEMA", "BruggemanEMA"):
    KINDS[_m] = dict(
        init=dict(h=r("i"), g=r("j"), f=0.25), new=lambda s, m=_m: getattr(elli, m)(s["h"], s["g"], s["f"]),
        ops={"set_constituents": (["h", "g"], multi(dict(good=[r("i"), r("j"), r("vca")], bad=[None, 1.5, r("c"), r("la")]), 2, 2)), "set_fraction": (["f"], FRACTION)},
    )
KINDS["Experiment"] = dict(
    init=dict(s="structure", w=[400.0, 700.0], t=60.0, v=[1, 0]), new=lambda s: elli.Experiment(STRUCT(), np.array(s["w"]), s["t"], s["v"]),
    ops={"set_vector": (["v"], dict(good=[[0, 1], [1, 0, 0, 1], None, [0.6, 0.8], ["tuple", [1, -1, 0, 0]]], bad=[[1], [1, 0, 0], [1, 0, 0, 0, 0], [], 1.0, [[1, 0], [0, 1]], [[1, 0]]])), "set_theta": (["t"], dict(good=[0, 30.0], bad=[]))},
)


def STRUCT():
    s = letters()
    return elli.Structure(elli.AIR, [s["la"], s["tw"]], s["j"])


def ops(kind):
    res = []
    for m, (fields, values) in KINDS[kind]["ops"].items():
        for ok, vs in ((True, values["good"]), (False, values["bad"])):
            for v in vs:
                res.append([m, ok, v])
    return res


def resolve(state):
    return {k: val(v) for k, v in state.items()}


_BEH = {}


def behaviour(obj):
    if isinstance(obj, elli.Experiment):
        return [np.concatenate([np.ravel(np.asarray(x, complex)) for x in (obj.jones_vector, obj.stokes_vector, obj.lbda, obj.theta_i)])]
    if hasattr(obj, "get_tensor") and not hasattr(obj, "get_permittivity_profile"):
        return [obj.get_tensor(LB)]
    return [np.concatenate([[d if np.isfinite(d) else -1.0], np.ravel(e)]) for d, e in obj.get_permittivity_profile(LB)]


def expected(kind, state):
    k = repr((kind, state))
    if k not in _BEH:
        _BEH[k] = behaviour(KINDS[kind]["new"](resolve(state)))
    return _BEH[k]


def equal(a, b):
    return len(a) == len(b) and all(np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-12, atol=1e-14) for x, y in zip(a, b))


def cases(tier):
    for kind in KINDS:
        o = ops(kind)
        yield dict(kind="new", cls=kind)
        depth = 3 if tier == "quick" else 4
        if len(o) > 26:
            depth = 3
        for i in range(len(o)):
            if depth == 4:
                for k in range(len(o)):
                    yield dict(kind="history", cls=kind, first=[i, k], depth=2)
            else:
                yield dict(kind="history", cls=kind, first=[i], depth=depth - 1)
    for what in OTHER:
        yield dict(kind="other", what=what)


def step(out, kind, obj, state, op, what):
    m, ok, v = op
    fields = KINDS[kind]["ops"][m][0]
    args = [val(x) for x in v] if len(fields) > 1 else [val(v)]
    out.trans()
    try:
        getattr(obj, m)(*args)
    except Exception as e:
        out.that(not ok, f"rejected:{m}", lambda: f"{what}: {m}({v}) raised {type(e).__name__}: {e}")
    else:
        out.that(ok, f"accepted:{m}", lambda: f"{what}: {m}({v}) was accepted")
    if ok:
        state.update(zip(fields, v) if len(fields) > 1 else {fields[0]: v}.items())
    b = behaviour(obj)
    e = expected(kind, state)
    out.that(equal(b, e), f"behaviour:{m}", lambda: f"{what}: after {m}({v}) the object gives {b[:2]}, one built from {state} gives {e[:2]}")
    out.state(kind, state, ok)


def history(case, out):
    kind = case["cls"]
    o = ops(kind)
    for rest in itertools.product(range(len(o)), repeat=case["depth"]):
        seq = case["first"] + list(rest)
        state = dict(KINDS[kind]["init"])
        obj = KINDS[kind]["new"](resolve(state))
        for n, i in enumerate(seq):
            step(out, kind, obj, state, o[i], f"{kind} after {[o[k] for k in seq[:n]]}")
        out.trace()
    out.sample([kind, [o[k] for k in case["first"]]])


def new(case, out):
    """the constructor rejects what the setters reject"""
    kind = case["cls"]
    cfg = KINDS[kind]
    choices = []
    for m, (fields, values) in cfg["ops"].items():
        choices.append([(fields, v, True) for v in values["good"][:4]] + [(fields, v, False) for v in values["bad"]])
    for combo in itertools.product(*choices):
        state = dict(cfg["init"])
        ok = True
        for fields, v, good in combo:
            state.update(zip(fields, v) if len(fields) > 1 else {fields[0]: v}.items())
            ok = ok and good
        out.trans()
        try:
            obj = cfg["new"](resolve(state))
        except Exception as e:
            out.that(not ok, "constructor-rejected", lambda: f"{kind}({state}) raised {type(e).__name__}: {e}")
        else:
            if out.that(ok, "constructor-accepted", lambda: f"{kind}({state}) was accepted"):
                out.that(len(behaviour(obj)) > 0 or kind == "RepeatedLayers", "constructor", f"{kind}({state}) is empty")
        out.state("new", kind, state)


def raises(out, key, f, what, errors=Exception):
    out.trans()
    try:
        v = f()
    except errors:
        out.ev()
    except Exception as e:
        out.fail(key, f"{what} raised {type(e).__name__}: {e}")
    else:
        out.that(False, key, lambda: f"{what} gave {v!r}")


def dispersions(out):
    """rejected terms and rejected sums leave dispersions unchanged"""
    lb = np.array([300.0, 450.0, 700.0])
    eps = {
        "Sellmeier": lambda: elli.Sellmeier().add(A=1.1, B=0.02), "LorentzEnergy": lambda: elli.LorentzEnergy().add(A=2, E=3, gamma=0.3), "TaucLorentz": lambda: elli.TaucLorentz(Eg=2).add(A=30, E=4, C=1),
        "EpsilonInf": lambda: elli.EpsilonInf(2.3), "Gaussian": lambda: elli.Gaussian().add(A=1, E=2.5, sigma=0.2), "sum": lambda: elli.EpsilonInf(1.5) + elli.Gaussian().add(A=1, E=2, sigma=0.3),
        "TableEpsilon": lambda: elli.TableEpsilon(lbda=lb, epsilon=np.array([2.0, 2.5, 3.0])),
    }
    idx = {"Cauchy": lambda: elli.Cauchy(1.5, 30, 4), "constant": lambda: elli.ConstantRefractiveIndex(n=1.7), "index sum": lambda: elli.Cauchy(1.5) + 0.2, "Table": lambda: elli.Table(lbda=lb, n=np.array([1.5, 1.6, 1.8])), "SellmeierCustom": lambda: elli.CauchyCustomExponent(1.4).add(f=0.1, e=0.5)}
    every = {**eps, **idx}
    none = [None, "1.0", [1.0], (2,), {}, object(), elli.AIR]
    for a, fa in every.items():
        for k in range(3):
            x = fa()
            want = np.array(x.get_dielectric(lb))
            rep = len(x.rep_params)
            # attempts of length one to three before the object is used again
            for n in range(k + 1):
                for b in none[n::2]:
                    raises(out, "sum", lambda: x + b, f"{a} + {b!r}", TypeError)
                    raises(out, "sum", lambda: b + x, f"{b!r} + {a}", TypeError)
                for b, fb in every.items():
                    y = fb()
                    wy = np.array(y.get_dielectric(lb))
                    if (a in eps) != (b in eps) or a.startswith("Table") and b.startswith("Table"):
                        raises(out, "sum", lambda: x + y, f"{a} + {b}")
                        raises(out, "sum", lambda: y + x, f"{b} + {a}")
                        out.that(np.array_equal(y.get_dielectric(lb), wy), "unchanged", f"{b} changed by a rejected sum with {a}")
                for args, kw in (((), {"foo": 1}), ((), {"A": 1, "foo": 2}), ((1,) * 9, {}), ((1,), {"A": 2, "f": 2, "n0": 3})):
                    if hasattr(x, "add") and not (a in ("sum", "index sum")):
                        raises(out, "add", lambda: x.add(*args, **kw), f"{a}.add({args}, {kw})")
            out.that(np.array_equal(x.get_dielectric(lb), want) and len(x.rep_params) == rep, "unchanged", f"{a} changed by rejected terms or sums")
            out.state("dispersion", a, k)
            out.trace()


def lookups(out):
    """unknown quantities of results"""
    res = STRUCT().evaluate(LB, 60.0)
    before = {q: np.array(getattr(res, q)) for q in ("psi", "delta", "rho", "R", "T", "jones_matrix_r", "mueller_matrix")}
    many = elli.ResultList([STRUCT().evaluate(LB, t) for t in (50.0, 60.0)])
    bad = ["foo", "Psi", "R_xx", "T_p", "psi_ppp", "r_5p", "t_0s", "rho_ab", "R_s", "Rx", "tc_pq", "psi_", "delta_p5"]
    for seq in itertools.product(bad, repeat=2):
        for name in seq:
            for obj, n in ((res, "result"), (many, "list"), (many.mean, "mean")):
                raises(out, "lookup", lambda: getattr(obj, name), f"{n}.{name}")
        out.that(all(np.array_equal(np.array(getattr(res, q)), v) for q, v in before.items()), "unchanged", f"result changed by {seq}")
        out.state("lookup", seq)
        out.trace()
    raises(out, "lookup", lambda: many.mean.mean, "mean of the mean")
    for d in ("psi_pp", "r_ps", "R_ss", "Tc_LR", "rc_LL", "psi", "mueller_matrix", "R_12"):
        out.that(np.size(getattr(res, d)) > 0, "lookup-valid", f"result.{d}")


def functions(out):
    raises(out, "factory", lambda: elli.DispersionFactory.get_dispersion("Foo"), "unknown dispersion", ValueError)
    for n in ("Dispersion", "", "cauchy ", "NoSuch", "Cauchy1"):
        raises(out, "factory", lambda: elli.DispersionFactory.get_dispersion(n), f"dispersion {n!r}", ValueError)
    for n, kw in (("Cauchy", {"n9": 1}), ("Sellmeier", {"A": 1}), ("Table", {}), ("ConstantRefractiveIndex", {"eps": 1})):
        raises(out, "factory", lambda: elli.DispersionFactory.get_dispersion(n, **kw), f"{n}({kw})")
    out.that(abs(elli.DispersionFactory.get_dispersion("Cauchy", 1.5).get_refractive_index(500) - 1.5) < 1e-12, "factory", "factory after rejected names")
    for b in ("numpy", "", None, "Scipy", 3):
        raises(out, "propagator", lambda: elli.PropagatorExpm(backend=b), f"backend {b!r}")
    from elli.kkr import im2re, im2re_reciprocal, re2im, re2im_reciprocal

    x = np.linspace(1, 5, 8)
    for f in (im2re, im2re_reciprocal, re2im, re2im_reciprocal):
        for n in (1, 2, 7, 9, 0):
            raises(out, "kkr", lambda: f(np.ones(n), x), f"{f.__name__} with {n} of 8 values", ValueError)
        out.that(len(f(np.ones(8), x)) == 8, "kkr", f"{f.__name__} of 8 values")
    for lo, up in itertools.product((-361, -360, -359, -180, -90, -1, 0, 1, 180), (-1, 0, 1, 90, 179, 180, 181, 270, 360, 361)):
        ok = -360 <= lo <= 0 <= up <= 360 and (up - lo == 360 or (lo, up) == (0, 180))
        for f, n in ((lambda: elli.DeltaRange(lo, up), "DeltaRange"), (lambda: elli.convert_delta_range(np.array([10.0]), lo, up), "convert_delta_range")):
            if ok:
                out.that(f() is not None, "range", f"{n}({lo}, {up})")
            else:
                raises(out, "range", f, f"{n}({lo}, {up})", ValueError)
            out.state(n, lo, up)
    for lo, up in ((0.0, 360), (0, 360.0), ("0", "360"), (None, 180), (-180.0, 180.0)):
        raises(out, "range", lambda: elli.DeltaRange(lo, up), f"DeltaRange({lo!r}, {up!r})", TypeError)
    one = dict(formula="eps = 1 + sum[A * lambda]", wavelength_axis_name="lambda", single_params={}, rep_params={"A": [1.0, 2.0]})
    for change in (dict(formula="n = 1 + sum[A]"), dict(formula="eps = "), dict(formula="eps = 1 +"), dict(rep_params={"A": [1.0], "B": [1.0, 2.0]}), dict(rep_params={"A": 3.0}), dict(unit="kg"), dict(unit="second")):
        raises(out, "formula", lambda: elli.Formula(**{**one, **change}), f"Formula({change})")
    raises(out, "formula", lambda: elli.FormulaIndex(**one), "FormulaIndex of eps")
    raises(out, "formula", lambda: elli.Formula(**{**one, "formula": "eps = 1 + B * lambda"}).get_dielectric(LB), "unknown parameter")
    raises(out, "formula", lambda: elli.Formula(**{**one, "formula": "eps = 1 + sinc(lambda)"}).get_dielectric(LB), "unknown function")
    out.that(np.allclose(elli.Formula(**one).get_dielectric(LB), 1 + 3 * LB), "formula", "formula after rejected ones")
    out.trace()


OTHER = {"dispersions": dispersions, "lookups": lookups, "functions": functions}


def check(case, out):
    if case["kind"] == "history":
        history(case, out)
    elif case["kind"] == "new":
        new(case, out)
    else:
        OTHER[case["what"]](out)
