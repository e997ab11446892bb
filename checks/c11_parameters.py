"""C11: dispersion parameters are bound by name and isolated between objects."""

import copy
import itertools
import pickle

import numpy as np

from mc import disp, lab
from mc.lab import elli

ID = "C11"
LEVEL = "model_checking"
RULE = (
    "binding: for every law every way of giving its parameters (all subsets by keyword in two orders, all positional "
    "prefixes x keyword subsets, directly or through the factory) and every single misuse (unknown name, too many, given "
    "twice); isolation: every history up to the depth over two objects of a law, their copies and shared default "
    "dictionaries. state = (parameters and terms of all objects); transition = one construction / addition / edit, "
    "executed on the real objects and on plain dictionaries; the oracle compares the values and an independent formula"
)
BOUNDS = {
    "quick": "17 laws; all 2^k keyword subsets; all positional prefixes; parameter values of each number type, vanishing, huge, negative and complex; histories of length <= 3 over 14 operations",
    "thorough": "histories of length <= 4",
}
ASSUMPTIONS = ["Cauchy-Urbach: the defaults of the code are used for Eg and Eu, the documentation states others"]

LB = np.array([317.0, 520.0, 911.0])
V1 = {
    "Cauchy": {"n0": 1.3, "n1": 21.0, "n2": 13.0, "k0": 0.2, "k1": 5.0, "k2": 9.0},
    "CauchyCustomExponent": {"n0": 1.7, "f": 0.02, "e": 0.5},
    "CauchyUrbach": {"n0": 1.2, "B": 0.03, "C": 2e-3, "D": 0.3, "Eg": 3.1, "Eu": 0.8},
    "ConstantRefractiveIndex": {"n": 1.8},
    "DrudeEnergy": {"A": 7.0, "gamma": 0.3},
    "DrudeResistivity": {"rho_opt": 2e-4, "tau": 3e-15},
    "EpsilonInf": {"eps": 2.4},
    "Gaussian": {"A": 2.0, "E": 3.0, "sigma": 0.4},
    "LorentzEnergy": {"A": 12.0, "E": 3.1, "gamma": 0.6},
    "LorentzLambda": {"A": 1.7, "lambda_r": 290.0, "gamma": 44.0},
    "Poles": {"A_ir": 0.3, "A_uv": 55.0, "E_uv": 9.0},
    "Polynomial": {"e0": 2.2, "f": 0.03, "e": 0.7},
    "Sellmeier": {"A": 1.2, "B": 0.02},
    "SellmeierCustomExponent": {"A": 1.4, "e_A": 2, "B": 0.3, "e_B": 2},
    "Tanguy": {"A": 9.0, "d": 2.4, "gamma": 0.2, "R": 0.04, "Eg": 2.2, "a": 7.0, "b": 40.0},
    "TaucLorentz": {"Eg": 1.4, "A": 33.0, "E": 3.3, "C": 0.9},
    "CodyLorentz": {"Eg": 1.5, "A": 70, "Et": 1.9, "gamma": 2.0, "Ep": 0.9, "E0": 3.9, "Eu": 0.08},
}
LAWS = dict(disp.LAWS)
LAWS["CodyLorentz"] = dict(single=disp.CODY, rep={}, kind="eps", f=None)


def cases(tier):
    for name in LAWS:
        yield dict(kind="bind", law=name)
        yield dict(kind="misuse", law=name)
    n = len(OPS)
    depth = 3 if tier == "quick" else 4
    for name, law in LAWS.items():
        if name == "CodyLorentz":
            continue
        for a in range(n):
            yield dict(kind="hist", law=name, first=a, depth=depth)
    yield dict(kind="factory")


CHUNK = 1


def ref(name, s, reps):
    with np.errstate(all="ignore"):
        if name == "CodyLorentz":
            return None
        return LAWS[name]["f"](LB, s, reps)


def agrees(d, name, s, reps):
    """Evaluated values against the independent formula; parameters against the dictionaries."""
    with np.errstate(all="ignore"):
        got = np.broadcast_to(np.asarray(d.get_dielectric(LB)), LB.shape)
        if name == "CodyLorentz":
            want = disp.cl_eps2(disp.energy(LB), s)
            return bool(np.all(np.abs(got.imag - want) < 1e-7 * 100))
    want = ref(name, s, reps)
    ok = np.isfinite(want)
    return bool(np.all(np.abs(got - want)[ok] <= 1e-7 * (1 + np.abs(want[ok]))))


ODD = (0, 0.0, -0.0, -1.5, 1, 2, True, 1e-9, 1e7, np.float64(0.0), np.int64(3))


def odd(out, name, cls, single, rep, v, k, val, mode, routes):
    """One parameter of a law has an unusual value."""
    if name in ("CodyLorentz", "TaucLorentz", "Tanguy"):  # their values need sensible parameters (see C12)
        same = lambda d, s, r: d.single_params == s and [dict(p) for p in d.rep_params] == r
    else:
        same = lambda d, s, r: d.single_params == s and [dict(p) for p in d.rep_params] == r and agrees(d, name, s, r)
    s, r = {q: v[q] for q in single}, [{q: v[q] for q in rep}] if rep else []
    terms = k in rep
    keys = list(rep if terms else single)
    target = r[0] if terms else s
    if mode == "edit":
        d = cls(**s)
        if rep:
            d.add(**r[0])
        (d.rep_params[0] if terms else d.single_params)[k] = val
        target[k] = val
    elif mode == "keyword":
        target[k] = val
        if not terms:
            target.update({q: single[q] for q in keys if q != k})
            d = routes["factory"](**{k: val})
            if rep:
                d.add(**r[0])
        else:
            target.update({q: rep[q] for q in keys if q != k})
            d = cls(**s).add(**{k: val})
    else:
        target[k] = val
        pos = [target[q] for q in keys]
        d = cls(**s).add(*pos) if terms else cls(*pos)
        if rep and not terms:
            d.add(**r[0])
    out.trans()
    out.trace()
    try:
        ok = same(d, s, r)
    except (ZeroDivisionError, ValueError, OverflowError):  # the formula has no value there
        ok = d.single_params == s and [dict(p) for p in d.rep_params] == r
    out.that(ok, f"odd:{name}", lambda: f"{name} with {k}={val!r} ({mode}) has {d.single_params} {d.rep_params}, or does not evaluate with {s} {r}")
    out.state(name, "odd", k, str(val), mode)


def subsets(keys):
    keys = list(keys)
    for k in range(len(keys) + 1):
        yield from itertools.combinations(keys, k)


def check(case, out):
    if case["kind"] == "factory":
        for bad in ("NoSuchLaw", "", "cauchy ", "Dispersion", "sellmeier2", "CAUCHY"):
            try:
                r = elli.DispersionFactory.get_dispersion(bad)
            except Exception:
                out.ev()
            else:
                out.that(False, "factory:unknown", f"the factory returned {r!r} for {bad!r}"[:200])
        for name in LAWS:
            if name == "Poles" or LAWS[name]["single"] is not None:
                d = elli.DispersionFactory.get_dispersion(name)
                out.that(type(d).__name__ == name and isinstance(d, getattr(elli, name)), f"factory:{name}", f"the factory returned {type(d)} for {name}")
                e = elli.DispersionFactory.get_dispersion(name)
                out.that(e is not d, f"factory:{name}", "the factory returned the same object twice")
            out.state("factory", name)
        from elli.dispersions.formula import Formula

        d = elli.DispersionFactory.get_dispersion("Table", lbda=np.array([300.0, 600.0]), n=np.array([1.4, 1.6]))
        out.that(abs(complex(d.get_refractive_index(np.array([450.0]))[0]) - 1.5) < 1e-9, "factory:Table", "table from the factory")
        return
    name = case["law"]
    law = LAWS[name]
    cls = getattr(elli, name)
    v = V1[name]
    single, rep = law["single"], law["rep"]
    routes = {
        "class": lambda *a, **k: cls(*a, **k),
        "factory": lambda *a, **k: elli.DispersionFactory.get_dispersion(name, *a, **k),
    }
    if case["kind"] == "bind":
        keys = list(single)
        for npos in range(len(keys) + 1):
            for sub in subsets(keys[npos:]):
                for order in (sub, sub[::-1]):
                    for rname, make in routes.items():
                        if rname == "factory" and (npos + len(sub)) % 2:
                            continue
                        pos = [v[k] for k in keys[:npos]]
                        kw = {k: v[k] for k in order}
                        want = {**single, **dict(zip(keys, pos)), **kw}
                        d = make(*pos, **kw)
                        if rep and not d.rep_params:
                            d.add(**{k: v[k] for k in rep})
                        out.trans()
                        out.trace()
                        reps = [{k: v[k] for k in rep}] if rep else []
                        out.that(d.single_params == want, f"bind:{name}", f"{name}({pos}, {kw}) via {rname} has the parameters {d.single_params}, expected {want}")
                        out.that(agrees(d, name, want, reps), f"bind:{name}:value", f"{name}({pos}, {kw}) via {rname} does not evaluate with {want}")
                        out.state(name, "single", npos, order, rname)
        # unusual values: zero, negative, integers, tiny and huge ones are values like any other
        for k in list(single) + list(rep):
            for val in ODD:
                for mode in ("keyword", "positional", "edit"):
                    odd(out, name, cls, single, rep, v, k, val, mode, routes)
        keys = list(rep)
        for npos in range(len(keys) + 1 if keys else 0):
            for sub in subsets(keys[npos:]):
                for order in {sub, sub[::-1]}:
                    pos = [v[k] for k in keys[:npos]]
                    kw = {k: v[k] for k in order}
                    want = {**rep, **dict(zip(keys, pos)), **kw}
                    d = cls(**{k: v[k] for k in single})
                    back = d.add(*pos, **kw)
                    out.trans()
                    out.trace()
                    out.that(back is d, f"add:{name}", "add did not return the object")
                    out.that([dict(p) for p in d.rep_params] == [want], f"add:{name}", f"{name}.add({pos}, {kw}) has the terms {d.rep_params}, expected {[want]}")
                    out.that(agrees(d, name, {k: v[k] for k in single}, [want]), f"add:{name}:value", f"{name}.add({pos}, {kw}) does not evaluate with {want}")
                    # a second term
                    d.add(**{k: v[k] * 1.1 for k in keys})
                    w2 = [want, {k: v[k] * 1.1 for k in keys}]
                    out.that([dict(p) for p in d.rep_params] == w2 and agrees(d, name, {k: v[k] for k in single}, w2), f"add:{name}:second", f"second term of {name}: {d.rep_params}")
                    out.state(name, "rep", npos, order)
        # documented defaults did not change by all of this
        d = cls()
        out.that(d.single_params == single and d.rep_params == [], f"default:{name}", f"defaults of {name} are now {d.single_params}, {d.rep_params}")
        return
    if case["kind"] == "misuse":
        keys, rkeys = list(single), list(rep)

        def rejected(what, f, d=None, model=None):
            out.trans()
            out.state(name, what)
            try:
                r = f()
            except Exception:
                out.ev()
            else:
                out.that(False, f"misuse:{name}", f"{name}: {what} was accepted: {getattr(r, 'single_params', r)} {getattr(r, 'rep_params', '')}")
            if d is not None:
                out.that(d.single_params == model[0] and [dict(p) for p in d.rep_params] == model[1] and agrees(d, name, *model), f"misuse:{name}:changed", f"{name}: rejected {what} changed the object: {d.single_params} {d.rep_params}")

        for bad in ("nope", "N0", "", "lbda") + tuple(k.upper() + "_" for k in keys + rkeys) + tuple(rkeys and [k for k in rkeys if k not in keys]):
            rejected(f"unknown parameter {bad!r}", lambda: cls(**{bad: 1.0}))
            for k in keys:
                rejected(f"unknown parameter {bad!r} with {k}", lambda: cls(**{k: v[k], bad: 1.0}))
            rejected(f"unknown parameter {bad!r} in the factory", lambda: elli.DispersionFactory.get_dispersion(name, **{bad: 1.0}))
        rejected("too many values", lambda: cls(*([1.0] * (len(keys) + 1))))
        rejected("too many values in total", lambda: cls(*[v[k] for k in keys], extra=1.0))
        for npos in range(1, len(keys) + 1):
            for k in keys[:npos]:
                rejected(f"{k} given twice", lambda: cls(*[v[q] for q in keys[:npos]], **{k: 1.0}))
        s = {k: v[k] for k in keys}
        d = cls(**s)
        model = (s, [])
        if rkeys:
            d.add(**{k: v[k] for k in rkeys})
            model = (s, [{k: v[k] for k in rkeys}])
        for bad in ("nope", "") + tuple(k + "_" for k in rkeys) + tuple(k for k in keys if k not in rkeys):
            rejected(f"unknown term parameter {bad!r}", lambda: d.add(**{bad: 1.0}), d, model)
            for k in rkeys:
                rejected(f"unknown term parameter {bad!r} with {k}", lambda: d.add(**{k: 1.0, bad: 1.0}), d, model)
        rejected("too many term values", lambda: d.add(*([1.0] * (len(rkeys) + 1))), d, model)
        for npos in range(1, len(rkeys) + 1):
            for k in rkeys[:npos]:
                rejected(f"term parameter {k} given twice", lambda: d.add(*[v[q] for q in rkeys[:npos]], **{k: 1.0}), d, model)
        return
    # histories
    if "seq" in case:
        return history(case, out, name, case["seq"])
    n = len(OPS)
    for length in range(case["depth"]):
        for rest in itertools.product(range(n), repeat=length):
            history(case, out, name, (case["first"],) + rest)


OPS = [
    ("add", 0), ("add", 1), ("add_default", 0), ("edit", 0), ("edit", 1), ("edit_term", 0), ("edit_term", 1),
    ("deepcopy",), ("pickle",), ("new",), ("eval", 0), ("caller",), ("bad_add", 0), ("chain", 1),
]


def history(case, out, name, seq):
    for reads in (False, True):
        history_(case, out, name, seq, reads)


def history_(case, out, name, seq, reads):
    law = LAWS[name]
    cls = getattr(elli, name)
    v = V1[name]
    keys, rkeys = list(law["single"]), list(law["rep"])
    init = {k: v[k] for k in keys}
    term = {k: v[k] for k in rkeys}
    objs = [cls(**init), cls()]
    model = [[dict(init), []], [dict(law["single"]), []]]
    for step, k in enumerate(seq):
        op = OPS[k]
        out.trans()
        if reads:  # fill whatever is remembered between the steps
            with np.errstate(all="ignore"):
                for d in objs:
                    d.get_dielectric(LB), d.get_refractive_index(LB)
        if op[0] == "add" and rkeys:
            t = {q: val * (1 + 0.1 * step) for q, val in term.items()}
            objs[op[1]].add(**t)
            model[op[1]][1].append(dict(t))
        elif op[0] == "add_default" and rkeys:
            objs[0].add()
            model[0][1].append(dict(law["rep"]))
        elif op[0] == "chain" and rkeys:
            objs[1].add(**term).add(*[val * 0.9 for val in term.values()])
            model[1][1] += [dict(term), {q: val * 0.9 for q, val in term.items()}]
        elif op[0] == "edit" and keys:
            q = keys[step % len(keys)]
            objs[op[1]].single_params[q] = v[q] * 1.05
            model[op[1]][0][q] = v[q] * 1.05
        elif op[0] == "edit_term" and model[op[1]][1]:
            q = rkeys[0]
            objs[op[1]].rep_params[-1][q] = v[q] * 0.95
            model[op[1]][1][-1][q] = v[q] * 0.95
        elif op[0] in ("deepcopy", "pickle"):
            f = copy.deepcopy if op[0] == "deepcopy" else lambda x: pickle.loads(pickle.dumps(x))
            objs.append(f(objs[0]))
            model.append([dict(model[0][0]), [dict(t) for t in model[0][1]]])
        elif op[0] == "new":
            objs.append(cls())
            model.append([dict(law["single"]), []])
        elif op[0] == "eval":
            with np.errstate(all="ignore"):
                objs[0].get_dielectric(LB), objs[0].get_refractive_index(LB), repr(objs[0]), objs[0].get_mat().get_tensor(LB)
        elif op[0] == "caller" and rkeys:
            mine = dict(term)
            objs[0].add(**mine)
            mine[rkeys[0]] = -77.0
            model[0][1].append(dict(term))
        elif op[0] == "bad_add":
            try:
                objs[0].add(**{**term, "nope": 1.0})
            except Exception:
                pass
    out.trace()
    out.state(name, model)
    rep = dict(case, seq=list(seq))
    what = [OPS[k] for k in seq]
    for i, (d, (s, reps)) in enumerate(zip(objs, model)):
        out.that(d.single_params == s and [dict(t) for t in d.rep_params] == reps, f"history:{name}", lambda: f"object {i} of {name} has {d.single_params} {d.rep_params}, expected {s} {reps} after {what}", rep)
        out.that(agrees(d, name, s, reps), f"history:{name}:value", lambda: f"object {i} of {name} does not evaluate with {s} {reps} after {what}", rep)
    fresh = cls()
    out.that(fresh.single_params == law["single"] and fresh.rep_params == [], f"history:{name}:defaults", lambda: f"a new {name} has {fresh.single_params} {fresh.rep_params} after {what}", rep)
