"""C12: dispersion laws compute their documented formulas."""

import itertools

import numpy as np

from mc import disp, lab
from mc.lab import elli

ID = "C12"
LEVEL = "exploration"
RULE = (
    "every law x every combination of the parameter alphabets (zeros, equality boundaries, both signs where admissible) x "
    "0 to 3 repeated terms, evaluated on a wavelength grid and compared with an independently coded formula; the "
    "Tauc-Lorentz real part with a numerical principal-value integral. state = (law, parameters); evaluation = one law "
    "at all wavelengths through one access route"
)
BOUNDS = {
    "quick": "17 laws, 2-6 values per parameter (full product up to 7 parameters), all pairs and a third of the triples of repeated terms, 14 lengths of 4..50 terms, 14 wavelengths; every parameter alone over the decades 1e-9..1e9 with both signs (exponents in eighths), wavelengths up to 1e-5 from the resonances, real and imaginary part judged apart",
    "thorough": "all triples (i, k, i+k) of repeated terms, 40 wavelengths",
}
ASSUMPTIONS = [
    "passivity is judged for the oscillator laws with non-negative parameters (the Tanguy formula itself is not passive for strong broadening)",
    "numerical tolerance 1e-7 (Cody-Lorentz real part: 1 % of its maximum, it is interpolated on a grid)",
    "Cauchy-Urbach: the defaults of the code are used for Eg and Eu, the documentation states others",
]
LB = {
    "quick": np.array([200.0, 248.0, 300.0, 331.7, 410.0, 500.0, 589.3, 632.8, 799.0, 1000.0, 1240.5, 1550.0, 3300.0, 9000.0]),
    "thorough": np.concatenate([np.geomspace(200, 9990, 37), [589.3, 632.8, 1550.0]]),
}
# alphabets: quick values first, the rest only in thorough runs (after None)
ALPH = {
    "Cauchy": {"n0": [1.5, 0, 1.1], "n1": [0, 40.0, -3], "n2": [0, 25.0], "k0": [0, 0.1], "k1": [0, 2.0], "k2": [0, 7.0]},
    "CauchyCustomExponent": {"n0": [1.5, 2, 0], "f": [0.01, 0, -3.0, 1e3], "e": [1, -2, 0.5, 0, -1]},
    "CauchyUrbach": {"n0": [1.5, 1.2], "B": [0, 0.01], "C": [0, 2e-3], "D": [0, 0.05, 0.3], "Eg": [2, 3.3], "Eu": [0.5, 1, 2.5]},
    "ConstantRefractiveIndex": {"n": [1, 1.5, 0, 3, 1.5 + 0.2j, 0.1 + 3j]},
    "DrudeEnergy": {"A": [0, 4.0, 81.0, 1], "gamma": [0, 0.1, 1, 2.5]},
    "DrudeResistivity": {"rho_opt": [1, 1e-4, 3e-3], "tau": [1, 1e-15, 1e-14]},
    "EpsilonInf": {"eps": [1, 2.25, 0, -3, 2 + 1j]},
    "Gaussian": {"A": [1, 0, 3.5], "E": [1, 3.2, 0, disp.energy(500.0)], "sigma": [1, 0.3, 2]},
    "LorentzEnergy": {"A": [1, 0, 40.0], "E": [0, 2.7, 6, disp.energy(500.0)], "gamma": [0, 0.2, 1.5]},
    "LorentzLambda": {"A": [1, 0, 2.5], "lambda_r": [0, 280.0, 500.0, 5000.0], "gamma": [0, 15.0, 200]},
    "Poles": {"A_ir": [1, 0, 0.05], "A_uv": [1, 0, 120.0], "E_uv": [6, 11.3, 8]},
    "Polynomial": {"e0": [1, 2.5, 0], "f": [0.01, 0, -1e3, 2], "e": [0, 1, -2, 0.5]},
    "Sellmeier": {"A": [0, 1.1, 0.6], "B": [0, 0.0131, 104.2, 0.05]},
    "SellmeierCustomExponent": {"A": [0, 1.3], "e_A": [1, 2, 0], "B": [0, 0.012, 0.3], "e_B": [1, 2]},
    "Tanguy": {"A": [1, 25.0, 0], "d": [3, 2, 2.5, 1.3, 1.985, 2.01, 2.9, 2.995, 3.002, 2.0003], "gamma": [0.1, 0.02, 0.7], "R": [0.1, 0.02], "Eg": [1, 2.4], "a": [0, 40.0], "b": [0, 33.0]},
    "TaucLorentz": {"Eg": [1, 1.73, 0.6], "A": [20, 0, 110.0], "E": [1.9, 3.7, 5.5], "C": [1, 0.4, 2.2]},
}
CODY_ALPH = {"Eg": [1.6, 1.2], "A": [100, 40.0], "Et": [1.8, 2.0], "gamma": [2.4, 1.1], "Ep": [0.8, 1.5], "E0": [3.6, 4.4], "Eu": [0.05, 0.12]}


# corners of the laws: more damping than resonance, very narrow and very broad lines, tiny and huge amplitudes
TLX = [dict(A=20.0, E=1.0, C=2.5), dict(A=20.0, E=1.0, C=1.99), dict(A=20.0, E=1.5, C=3.0), dict(A=5.0, E=1.9, C=9.0), dict(A=1e-6, E=3.0, C=1.0), dict(A=1e4, E=4.0, C=0.05)]
EXTRA = {
    "TaucLorentz": [(dict(Eg=g), [t]) for g in (0.5, 1.5) for t in TLX] + [(dict(Eg=0.5), [a, b]) for a in TLX[:3] for b in (dict(A=50.0, E=3.0, C=1.0), TLX[3])],
    "LorentzEnergy": [({}, [t]) for t in (dict(A=3.0, E=1.0, gamma=9.0), dict(A=3.0, E=2.0, gamma=4.0), dict(A=1e-9, E=2.0, gamma=1e-3), dict(A=1e6, E=30.0, gamma=1e-6), dict(A=5.0, E=0.01, gamma=40.0))],
    "LorentzLambda": [({}, [t]) for t in (dict(A=3.0, lambda_r=300.0, gamma=900.0), dict(A=3.0, lambda_r=300.0, gamma=600.0), dict(A=1e-9, lambda_r=1.0, gamma=1e-3), dict(A=1e6, lambda_r=3e4, gamma=1e5))],
    "Gaussian": [({}, [t]) for t in (dict(A=3.0, E=0.5, sigma=9.0), dict(A=3.0, E=3.0, sigma=1e-2), dict(A=1e-9, E=3.0, sigma=1.0), dict(A=1e6, E=8.0, sigma=0.5))],
    "DrudeEnergy": [({}, [t]) for t in ()] + [(dict(A=a, gamma=g), []) for a in (1e-9, 1e4) for g in (1e-6, 50.0)],
    "Cauchy": [(dict(n0=1e-3, n1=1e4, n2=1e5, k0=1e-9, k1=1e-3, k2=1e5), []), (dict(n0=50.0, n1=-40.0, n2=-3.0, k0=5.0, k1=-2.0, k2=-1.0), [])],
    "Sellmeier": [({}, [t]) for t in (dict(A=1e-9, B=1e-9), dict(A=1e6, B=1e4), dict(A=-0.5, B=0.01), dict(A=1.0, B=-0.02))],
}


# every parameter alone over decades, the others at values where the law is alive
BASE = {
    "Cauchy": (dict(n0=1.5, n1=40.0, n2=25.0, k0=0.1, k1=2.0, k2=7.0), None),
    "CauchyCustomExponent": (dict(n0=1.5), dict(f=0.01, e=0.5)),
    "CauchyUrbach": (dict(n0=1.5, B=0.01, C=2e-3, D=0.05, Eg=2, Eu=1), None),
    "ConstantRefractiveIndex": (dict(n=1.5), None),
    "DrudeEnergy": (dict(A=4.0, gamma=0.1), None),
    "DrudeResistivity": (dict(rho_opt=1e-4, tau=1e-15), None),
    "EpsilonInf": (dict(eps=2.25), None),
    "Gaussian": ({}, dict(A=3.5, E=3.2, sigma=0.3)),
    "LorentzEnergy": ({}, dict(A=40.0, E=2.7, gamma=0.2)),
    "LorentzLambda": ({}, dict(A=2.5, lambda_r=280.0, gamma=15.0)),
    "Poles": (dict(A_ir=0.05, A_uv=120.0, E_uv=8), None),
    "Polynomial": (dict(e0=2.5), dict(f=0.01, e=0.5)),
    "Sellmeier": ({}, dict(A=1.1, B=0.0131)),
    "SellmeierCustomExponent": ({}, dict(A=1.3, e_A=1, B=0.012, e_B=1)),
}
BIG = [s * m * 10.0**k for k in range(-9, 10) for m in (1.0, 3.3) for s in (1, -1)]
EXPO = [x / 8 for x in range(-33, 34)] + [s * x for x in (1e-3, 1e-6, 0.333, 1.001, 2.999, 5.5) for s in (1, -1)]


def sweeps(name):
    single, rep = BASE[name]
    for par in list(single) + list(rep or {}):
        if par in ("e", "e_A", "e_B"):
            vals = EXPO
        elif name == "DrudeResistivity":
            vals = [m * 10.0**k for k in range(-20, 10) for m in (1.0, 3.3)]
        elif par in ("E", "sigma", "gamma", "lambda_r", "Eg", "Eu", "E_uv", "B") and name not in ("Sellmeier", "CauchyUrbach"):
            vals = [abs(v) for v in BIG[::2]]
        elif par == "Eu":
            vals = [m * 10.0**k for k in range(-1, 6) for m in (1.0, 3.3)]
        else:
            vals = BIG
        for v in vals:
            yield dict(single, **({par: v} if par in single else {})), [dict(rep, **({par: v} if par in rep else {}))] if rep else []


def combos(d):
    return [dict(zip(d, v)) for v in itertools.product(*d.values())]


def cases(tier):
    for name, law in disp.LAWS.items():
        al = ALPH[name]
        singles = combos({k: al[k] for k in law["single"]})
        reps = combos({k: al[k] for k in law["rep"]}) if law["rep"] else None
        for si in range(len(singles)):
            if reps is None:
                yield dict(law=name, s=si, r=[], tier=tier)
                continue
            lists = [[]] + [[i] for i in range(len(reps))]
            n = len(reps)
            lists += [[i, k] for i in range(n) for k in range(n)]
            lists += [[i, k, (i + k) % n] for i in range(n) for k in range(0, n, 3 if tier == "quick" else 1)]
            if si < 3:
                lists += [[(i * st) % n for i in range(m)] for m in (4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 33, 50) for st in (1, 2, 0)]
            for r in lists:
                yield dict(law=name, s=si, r=r, tier=tier)
    for name, lst in EXTRA.items():
        for s, reps in lst:
            yield dict(law=name, given=[s, reps], tier=tier, s=0)
    for name in BASE:
        for s, reps in sweeps(name):
            yield dict(law=name, given=[s, reps], tier=tier, s=1, sweep=True)
    for i in range(len(combos(CODY_ALPH))):
        if tier == "thorough" or i % 2 == (i // 16) % 2:
            yield dict(law="CodyLorentz", s=i, tier=tier)
            yield dict(law="CodyLorentz", s=i, tier=tier, edge=True)


CHUNK = 24


def passive(name, s, r):
    if any(np.any(np.real(v) < 0) for row in [s, *(r or [])] for v in row.values()):
        return False
    return name in ("Gaussian", "LorentzEnergy", "LorentzLambda", "TaucLorentz", "DrudeEnergy", "DrudeResistivity")


def num(x):
    return complex(x) if isinstance(x, complex) else x


def check(case, out):
    name = case["law"]
    lb = LB[case["tier"]]
    if case.get("sweep"):
        # also around the resonances
        s, reps = case["given"]
        centre = [disp.energy(r["E"]) for r in reps if "E" in r] + [r["lambda_r"] for r in reps if "lambda_r" in r] + ([disp.energy(s["E_uv"])] if "E_uv" in s else []) + [1e3 * abs(r["B"]) ** 0.5 for r in reps if "B" in r]
        near = [c * (1 + u) for c in centre for u in (-0.3, -0.01, -3e-4, -1e-5, 1e-5, 3e-4, 0.01, 0.3) if 10 < c < 1e5]
        lb = np.concatenate([lb, near])
    if name == "CodyLorentz":
        s = combos(CODY_ALPH)[case["s"]]
        if case.get("edge"):
            # the transition energy is exactly the energy of a requested wavelength
            for l0 in (450.0, 620.0, 689.0, 700.5):
                et = float(elli.utils.conversion_wavelength_energy(np.array([l0]))[0])
                d = elli.CodyLorentz(**dict(s, Et=et))
                g = d.get_dielectric(np.array([l0 * (1 - 1e-9), l0, l0 * (1 + 1e-9)])).imag
                want = disp.cl_eps2(disp.energy(l0), dict(s, Et=et))
                out.that(bool(np.all(np.abs(g - want) < 1e-5 * (1 + abs(want)))), f"{name}:transition", lambda: f"absorption {g} around the transition energy {et}, expected {want} for {s}")
                out.state(name, s, l0)
            return
        d = elli.CodyLorentz(**s)
        e = disp.energy(lb)
        got = np.asarray(d.get_dielectric(lb))
        out.state(name, s)
        out.that(lab.err(got.imag, disp.cl_eps2(e, s)) < 1e-9 * 100, f"{name}:imag", lambda: f"imaginary part {got.imag[:6]} instead of {disp.cl_eps2(e, s)[:6]} for {s}")
        inner = (lb > 240) & (lb < 4000)
        pick = np.nonzero(inner)[0][:: 1 if case["tier"] == "quick" else 3]
        want = np.array([disp.cl_eps1(x, s) for x in e[pick]])
        tol = 0.01 * np.max(np.abs(want)) + 0.05
        out.that(np.max(np.abs(got.real[pick] - want)) < tol, f"{name}:real", lambda: f"real part {got.real[pick][:6]} is not the Kramers-Kronig transform {want[:6]} for {s}")
        out.that(bool(np.all(got.imag >= 0)), f"{name}:passive", "gain")
        n = np.asarray(d.get_refractive_index(lb))
        out.that(np.max(np.abs(n**2 - got)) < 1e-8 * 100 and bool(np.all(n.imag >= 0)), f"{name}:index", "index is not the root of the permittivity")
        return
    law = disp.LAWS[name]
    al = ALPH[name]
    if "given" in case:
        s, reps = case["given"]
    else:
        s = combos({k: al[k] for k in law["single"]})[case["s"]]
        allr = combos({k: al[k] for k in law["rep"]}) if law["rep"] else []
        reps = [allr[i] for i in case["r"]]
    d = getattr(elli, name)(**s)
    for r in reps:
        d.add(**r)
    with np.errstate(all="ignore"):
        want = law["f"](lb, s, reps)
        got = np.broadcast_to(np.asarray(d.get_dielectric(lb)), lb.shape)
    ok = np.isfinite(want)
    scale = 1 + np.abs(want)
    out.state(name, {k: str(v) for k, v in s.items()}, [list(map(str, r.values())) for r in reps])
    what = f"{name}({s}) + terms {reps}"

    def judge(route, g, w=want, m=ok):
        bad = np.nonzero(m & ~(np.abs(g - w) <= 1e-7 * scale))[0]
        out.that(len(bad) == 0, f"{name}:{route}", lambda: f"{what}: {route} at {lb[bad[0]]} nm is {g[bad[0]]}, expected {w[bad[0]]}")

    judge("permittivity", got)
    if not name.startswith(("Drude", "Tauc", "Tanguy")):
        # weak absorption and weak dispersion count as well
        for part in ("real", "imag"):
            g, w = getattr(got, part), getattr(want, part)
            bad = np.nonzero(ok & ~(np.abs(g - w) <= 1e-8 * np.abs(w) + 1e-11 * scale))[0]
            out.that(len(bad) == 0, f"{name}:{part} part", lambda: f"{what}: {part} part at {lb[bad[0]]} nm is {g[bad[0]]}, expected {w[bad[0]]}")
    with np.errstate(all="ignore"):
        n = np.broadcast_to(np.asarray(d.get_refractive_index(lb), complex), lb.shape)
        df = d.get_dielectric_df(lb)
        dfc = d.get_dielectric_df(lb, conjugate=True)
        nf = d.get_refractive_index_df(lb)
        nfc = d.get_refractive_index_df(lb, conjugate=True)
    judge("index squared", n**2)
    if law["kind"] == "eps":
        out.that(bool(np.all(n[ok].real >= 0)), f"{name}:root", f"{what}: the index is not the principal root")
    judge("permittivity table", df["ϵ1"].to_numpy() + 1j * df["ϵ2"].to_numpy())
    judge("conjugated permittivity table", dfc["ϵ1"].to_numpy() - 1j * dfc["ϵ2"].to_numpy())
    judge("index table", (nf["n"].to_numpy() + 1j * nf["k"].to_numpy()) ** 2)
    judge("conjugated index table", (nfc["n"].to_numpy() - 1j * nfc["k"].to_numpy()) ** 2)
    if case["s"] == 0 or len(reps) == 1:  # without wavelengths: 801 points from 200 to 1000 nm
        x = np.linspace(200, 1000, 801)
        with np.errstate(all="ignore"):
            w = np.broadcast_to(law["f"](x, s, reps), x.shape)
            gd, gn = np.broadcast_to(d.get_dielectric(), x.shape), np.broadcast_to(d.get_refractive_index(), x.shape)
            tabs = [(d.get_dielectric_df(), 1, 1), (d.get_dielectric_df(conjugate=True), 1, -1), (d.get_refractive_index_df(), 2, 1), (d.get_refractive_index_df(None, True), 2, -1)]
        f = np.isfinite(w)
        tol = 1e-7 * (1 + np.abs(w))
        for nm, g in [("permittivity", gd), ("index", gn**2)] + [(f"table {e}{c}", (t.iloc[:, 0].to_numpy() + 1j * c * t.iloc[:, 1].to_numpy()) ** e) for t, e, c in tabs]:
            out.that(g.shape == x.shape and bool(np.all((np.abs(g - w) <= tol)[f])), f"{name}:default range", lambda: f"{what}: {nm} over the default range")
        out.that(all(np.allclose(t.index.to_numpy(), x) for t, _, _ in tabs), f"{name}:default range", f"{what}: the default range is not 200..1000 nm")
    out.that(all(np.array_equal(x.index.to_numpy(), lb) for x in (df, dfc, nf, nfc)), f"{name}:table index", "the table is not indexed by the wavelengths")
    with np.errstate(all="ignore"):
        t = d.get_mat().get_tensor(lb)
    for i, j in itertools.product(range(3), repeat=2):
        judge(f"material tensor {i}{j}", t[:, i, j], want if i == j else np.zeros(len(lb)))
    for k in (0, len(lb) // 2):
        if ok[k]:
            with np.errstate(all="ignore"):
                one = complex(np.ravel(d.get_dielectric(float(lb[k])))[0])
            out.that(abs(one - want[k]) <= 1e-7 * scale[k], f"{name}:single wavelength", f"{what}: at the single wavelength {lb[k]} nm: {one}, expected {want[k]}")
    if passive(name, s, reps):
        out.that(bool(np.all(got.imag[ok] >= -1e-9 * scale[ok])), f"{name}:passive", f"{what}: negative absorption {got.imag.min()}")
    if name.startswith("Drude"):
        phys = -np.conj(want)  # free carriers: A / (E^2 + i gamma E) with a minus sign
        wrong = bool(np.any(np.abs(got - phys)[ok] > 1e-6 * np.abs(want[ok])))
        # only the documented, sign-flipped value is the known finding
        if wrong and np.all(np.abs(got - want)[ok] <= 1e-7 * scale[ok]) and np.any(want != 0):
            out.fail("drude-real-sign", f"{what}: free carriers have a positive real part {got.real[:3]} (documented formula lacks a minus sign)")
        else:
            out.ev()
    out.sample({"law": name, "single": {k: str(v) for k, v in s.items()}, "terms": len(reps)})
