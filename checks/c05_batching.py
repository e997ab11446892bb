"""C05: every wavelength is computed on its own: batching, order, repetition and type do not matter."""

import numpy as np
import pandas as pd

from mc import lab
from mc.lab import elli

ID = "C05"
LEVEL = "model_checking"
RULE = (
    "state = (stack, wavelength word); transition = append a wavelength letter to the word. All words up "
    "to the depth bound over the wavelength alphabet (with repetition, any order) plus long arrays of boundary "
    "lengths are evaluated in one call by every solver; each entry of every result quantity must equal the "
    "one of the single-wavelength evaluation. distinct = distinct (stack, solver, word)"
)
ASSUMPTIONS = ["wavelengths inside the range of the tabulated media"]
BOUNDS = {
    "quick": "words <= 4 over 4 wavelengths, 10 stacks, all solvers; arrays of length 1..20 and 32..1025 (26 boundary lengths), 2000..10001 (9 lengths, one isotropic and one anisotropic stack)",
    "thorough": "words <= 5 over 5 wavelengths; arrays of length 1..130 and up to 5000",
}


def stacks():
    cauchy = elli.Cauchy(n0=1.45, n1=40, n2=10, k0=0.01).get_mat()
    tl = elli.TaucLorentz(Eg=1.5).add(A=60, E=3.5, C=2.0).add(A=20, E=5, C=1.0).get_mat()
    sell = elli.Sellmeier().add(A=1.1, B=0.01).get_mat()
    lor = elli.LorentzEnergy().add(A=60, E=4, gamma=0.5).get_mat()
    tab = elli.Table(lbda=np.linspace(100, 3000, 50), n=np.linspace(1.4, 2.0, 50) + 0.01j).get_mat()
    teps = elli.TableEpsilon(lbda=np.linspace(100, 3000, 20), epsilon=np.linspace(9, 4, 20) + 0.5j, kind="cubic").get_mat()
    form = elli.FormulaIndex("n = a + sum[b / x**2]", "x", {"a": 1.5}, {"b": np.array([1e3, 2e3])}, "nm").get_mat() if hasattr(elli, "FormulaIndex") else _form()
    uni = elli.UniaxialMaterial(elli.Cauchy(n0=1.5, n1=50), elli.Cauchy(n0=1.7, n1=80))
    uni.set_rotation(elli.rotation_euler(20, 50, 70))
    bi = elli.BiaxialMaterial(elli.Cauchy(n0=1.5, n1=50), elli.Cauchy(n0=1.7, n1=80), elli.LorentzLambda().add(A=1.2, lambda_r=150, gamma=5))
    bi.set_rotation(elli.rotation_v_theta([1, 1, 0], 30))
    L = elli.Layer
    return {
        "bare": elli.Structure(lab.iso(1), [], lor),
        "disp": elli.Structure(sell, [L(cauchy, 80), L(tl, 15)], lor),
        "table": elli.Structure(lab.iso(1), [L(tab, 60), L(form, 30)], teps),
        "ema": elli.Structure(lab.iso(1), [L(elli.BruggemanEMA(cauchy, tl, 0.4), 20), elli.VaryingMixtureLayer(elli.MaxwellGarnettEMA(cauchy, tl, 0.1), 40, 4), L(elli.LooyengaEMA(lor, tl, .3), 5)], lor),
        "aniso": elli.Structure(lab.iso(1), [L(uni, 120), elli.TwistedLayer(uni, 500, 4, 90), L(bi, 40)], lor),
        "anisoexit": elli.Structure(lab.iso(1), [L(uni, 120)], bi),
        # transparent, resonant and opaque, or totally reflecting and not, depending on the wavelength
        "peak": elli.Structure(lab.iso(1), [L((elli.LorentzEnergy().add(A=0.1, E=HC / 633.0, gamma=1e-4) + elli.EpsilonInf(eps=1.1)).get_mat(), 30), L(tl, 90)], elli.UniaxialMaterial(elli.LorentzEnergy().add(A=10, E=HC / 400, gamma=1e-2), elli.EpsilonInf(eps=2.5))),
        "critical": elli.Structure(elli.Cauchy(n0=1.15, n1=100).get_mat(), [L(lab.iso(1.02), 60)], lab.iso(1)),
        # an exit medium that is isotropic at one of the wavelengths only
        "halfiso": elli.Structure(lab.iso(1), [L(uni, 120)], elli.UniaxialMaterial(elli.ConstantRefractiveIndex(1.5), elli.Table(lbda=[100.0, 633.0, 3000.0], n=[1.4, 1.5, 1.9]))),
        "bragg": elli.Structure(lab.iso(1), [elli.RepeatedLayers([L(cauchy, 80), L(tl, 5)], 4, 1, 0)], lab.iso(1.5)),
    }


def _form():
    from elli.dispersions.formula import FormulaIndex

    return FormulaIndex("n = a + sum[b / x**2]", "x", {"a": 1.5}, {"b": np.array([1e3, 2e3])}, "nm").get_mat()


HC = 1239.8419843320026
ISO = ("critical", "bare", "disp", "table", "ema", "bragg")
ALPHA = [400.0, 633.0, 250.0, 1200.0, 401.0]
NEAR = [400.0, 400.0004, 633.0, 633.0000005, 399.99999, 632.9999]  # closer than any plausible tolerance
ACC = ["jones_matrix_r", "jones_matrix_t", "R_matrix", "T_matrix", "R", "T", "rho", "psi", "delta", "mueller_matrix", "rho_t", "psi_matrix", "jones_matrix_rc", "Tc_matrix"]
DISC = {"delta": 360.0}


def cases(tier):
    al = ALPHA[:4] if tier == "quick" else ALPHA
    depth = 4 if tier == "quick" else 5
    words = [list(w) for n in range(1, depth + 1) for w in lab.product(range(len(al)), repeat=n)]
    for s in stacks():
        for i in range(0, len(words), 40):
            yield dict(stack=s, words=words[i : i + 40])
        near = [list(w) for n in range(2, 4 if tier == "quick" else 5) for w in lab.product(range(len(NEAR)), repeat=n)]
        for i in range(0, len(near), 60):
            yield dict(stack=s, words=near[i : i + 60], near=True)
        lens = list(range(1, 21)) + [31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 400, 500, 511, 512, 513, 999, 1000]
        if tier == "thorough":
            lens = list(range(1, 131)) + lens[-14:] + [1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4096, 4097, 5000, 10000, 10001]
        for n in lens:
            for order in ("up", "down", "zigzag"):
                yield dict(stack=s, n=n, order=order)
        if tier == "quick":
            big = [1001, 1023, 1024, 1025] + ([2000, 2047, 2048, 2049, 4096, 4097, 5000, 10000, 10001] if s in ("disp", "aniso") else [])
            for n in big:
                yield dict(stack=s, n=n, order="zigzag")
        yield dict(stack=s, scalar=True)
        yield dict(stack=s, tensors=True)
    for n in (1, 2, 3, 4, 5, 16, 64, 257):
        yield dict(dispersions=n)
        yield dict(dispersions=n, near=True)
    for n in (511, 513, 801, 1001, 1025, 2001, 2049, 4097, 5001, 10001):
        yield dict(blocks=n)


_S = {}


def st(name):
    if not _S:
        _S.update(stacks())
    return _S[name]


_SINGLE = {}


def single(s, sv, w):
    k = (s, sv, w)
    if k not in _SINGLE:
        if len(_SINGLE) > 4000:
            _SINGLE.clear()
        r = lab.ev(st(s), np.array([w]), 55.0, sv)
        _SINGLE[k] = {a: getattr(r, a) for a in ACC if a not in DISC}
        _SINGLE[k]["delta"] = r.delta
    return _SINGLE[k]


def compare(out, s, sv, lb, what):
    r = lab.ev(st(s), lb, 55.0, sv)
    for a in ACC:
        v = getattr(r, a)
        if not out.that(np.shape(v)[:1] == (len(lb),), f"{sv}:shape:{a}", f"{a} has shape {np.shape(v)} for {len(lb)} wavelengths {what}"):
            continue
        ref = np.concatenate([single(s, sv, float(w))[a] for w in lb])
        d = np.abs(v - ref)
        if a in DISC:
            d = np.minimum(d, 360 - d)
        e = np.max(d / (1 + np.abs(ref))) if not np.any(np.isnan(d)) else np.inf
        out.that(e <= 1e-9, f"{sv}:{a}", f"{a} ({s}, {sv}) depends on the other wavelengths: off by {e} {what}")
    out.trace()
    return r


def check(case, out):
    if "blocks" in case:
        return blocks(case["blocks"], out)
    if "dispersions" in case:
        return dispersions(case["dispersions"], out, "near" in case)
    s = case["stack"]
    solvers = (["2x2"] if s in ISO else []) + lab.EXACT4
    if "words" in case:
        for w in case["words"]:
            lb = np.array([(NEAR if "near" in case else ALPHA)[i] for i in w])
            for sv in solvers:
                compare(out, s, sv, lb, f"word {lb.tolist()}")
                out.state(s, sv, w, "near" in case)
            out.trans()
        out.sample({"stack": s, "word": lb.tolist()})
    elif "n" in case:
        n = case["n"]
        base = np.linspace(300.0, 1500.0, 40)
        lb = base[(np.arange(n) * 7) % 40] if case["order"] == "zigzag" else np.sort(base[np.arange(n) % 40])
        if case["order"] == "down":
            lb = lb[::-1]
        for sv in solvers if n < 130 else (["2x2"] if s in ISO else []) + ["4x4", "eig"]:
            compare(out, s, sv, lb, f"array of length {n} ({case['order']})")
            out.state(s, sv, n, case["order"])
        out.trans()
    elif "scalar" in case:
        # the way wavelengths are given does not matter
        for sv in solvers:
            a = lab.ev(st(s), np.array([400.0, 600.0]), 55.0, sv)
            for lb, name in [x for x in forms(np.array([400.0, 600.0])) if x[1] != "objects"] + [((400.0, 600), "mixed"), (range(400, 601, 200), "range")]:
                b = lab.ev(st(s), lb, 55.0, sv)
                for acc in ("jones_matrix_r", "jones_matrix_t", "T"):
                    e = lab.err(getattr(a, acc), getattr(b, acc))
                    out.that(e <= (1e-4 if name == "float32" else 1e-9), f"type:{acc}", f"{acc} differs by {e} when wavelengths are given as {name} ({s}, {sv})")
            for v in (400.0, 400, np.float64(400), np.int64(400), np.array(400.0)):
                b = lab.ev(st(s), v, 55.0, sv)
                e = lab.err(a.jones_matrix_r[:1], b.jones_matrix_r)
                out.that(e <= 1e-9, "type:scalar", f"a single wavelength {v!r} ({type(v)}) gives another result: {e} ({s}, {sv})")
            out.trace(13)
        out.state(s, "scalar")
    else:
        for n in (1, 2, 3, 4, 7, 64):
            lb = np.array([ALPHA[i % 4] for i in range(n)])
            prof = st(s).get_permittivity_profile(lb)
            for i, w in enumerate(lb):
                one = st(s).get_permittivity_profile(np.array([w]))
                for k, (p, q) in enumerate(zip(prof, one)):
                    e = lab.err(p[1][i : i + 1], q[1])
                    out.that(e <= 1e-9, "tensor", f"tensor {k} of {s} at {w} depends on the other wavelengths: {e}")
        out.trace()
        out.state(s, "tensors")


def disps():
    from elli.dispersions.formula import Formula

    x = np.linspace(100, 3000, 40)
    return [
        elli.Cauchy(1.5, 30, 20, 0.1, 3, 2), elli.CauchyCustomExponent(1.5).add(1e4, -2).add(1e8, -4), elli.CauchyUrbach(1.5, 0.01, 0.001, 0.2, 3, 0.4),
        elli.CodyLorentz(), elli.ConstantRefractiveIndex(1.5), elli.DrudeEnergy(5, 0.1), elli.DrudeResistivity(1e-4, 1e-14), elli.EpsilonInf(3),
        elli.Gaussian().add(2, 3, 1).add(1, 4, .5), elli.LorentzEnergy().add(20, 4, .5).add(3, 2, .1), elli.LorentzLambda().add(1, 250, 20), elli.Poles(), elli.Polynomial(2).add(1e4, -2),
        elli.Sellmeier().add(1, .01).add(.5, 100.), elli.SellmeierCustomExponent().add(1, 2, .1, 2), elli.Table(x, 1.5 + x / 1e4), elli.TableEpsilon(x, 2 + x / 1e3 + .1j, kind="cubic"),
        elli.Tanguy(), elli.TaucLorentz(2).add(30, 4, 1).add(5, 3, .4), elli.PseudoDielectricFunction(angle=70, lbda=x, psi=20 + x / 300, delta=100 - x / 50),
        Formula("eps = a + sum[b * x**2/(x**2 - c**2)]", "x", {"a": 1.0}, {"b": np.array([1.0, .5]), "c": np.array([.1, .05])}, "um"),
        elli.TaucLorentz(2).add(30, 4, 1) + 1.5 + elli.Gaussian().add(2, 3, 1),
        # strong at some wavelengths, weak terms next to strong ones
        elli.LorentzEnergy().add(1e3, HC / 400, 1e-4) + elli.EpsilonInf(1), elli.EpsilonInf(1e-6) + elli.LorentzEnergy().add(1e3, HC / 633, 1e-4).add(1e-9, 5, 1) + 1e-3,
        elli.Gaussian().add(1e4, HC / 250, 1e-2).add(1e-4, 2, 1), elli.Polynomial(1e-6).add(1e-20, 8).add(1e30, -12), elli.CauchyCustomExponent(1e-3).add(1e25, -10) + 1e-4,
        elli.ConstantRefractiveIndex(1e-4) + elli.LorentzEnergy().add(1e3, HC / 1200, 1e-4).as_index(), elli.Table(x, 10.0 ** np.linspace(-8, 8, 40)), elli.TableEpsilon(x, (-1.0) ** np.arange(40) * 10.0 ** np.linspace(8, -8, 40) + 1e-3j),
        elli.TaucLorentz(3.0).add(1e-4, 3.05, 0.01).add(1e4, 8, 0.1), elli.DrudeEnergy(1e4, 1e-6) + elli.EpsilonInf(1e-3),
    ]


def blocks(n, out):
    """Long arrays against their parts."""
    base = np.linspace(150.0, 2900.0, n)
    cut = list(range(0, n, 97)) + [n]
    for order in (np.arange(n), np.arange(n)[::-1], np.argsort((np.arange(n) * 389) % n, kind="stable")):
        lb = base[order]
        for d in disps():
            nm = type(d).__name__
            for f in ("get_dielectric", "get_refractive_index"):
                v = np.broadcast_to(np.asarray(getattr(d, f)(lb)), lb.shape)
                w = np.concatenate([np.broadcast_to(np.asarray(getattr(d, f)(lb[a:b])), (b - a,)) for a, b in zip(cut[:-1], cut[1:])])
                out.that(np.all(np.abs(v - w) <= 1e-9 * np.abs(w) + 1e-14), f"disp:{nm}:{f}", f"{nm}.{f} of {n} wavelengths differs from the same wavelengths in parts")
            if len(lb) < 3000:
                df = d.get_dielectric_df(lb)
                e = np.broadcast_to(d.get_dielectric(lb), lb.shape)
                out.that(len(df) == n and np.array_equal(df.index.to_numpy(float), lb) and np.all(np.abs(df["ϵ1"].to_numpy() + 1j * df["ϵ2"].to_numpy() - e) <= 1e-9 * np.abs(e)), f"disp:{nm}:df", f"{nm}.get_dielectric_df of {n} wavelengths")
            out.state(nm, n, int(order[0]))
        out.trans()


def forms(lb):
    """The same wavelengths in other containers and number types."""
    ro = lb.copy()
    ro.flags.writeable = False
    yield from ((list(lb), "list"), (tuple(lb), "tuple"), (ro, "read only"), (pd.Series(lb, index=range(3, 3 + len(lb))), "series"), (pd.Index(lb), "index"),
                (np.repeat(lb, 2)[::2], "strided"), (lb[::-1].copy()[::-1], "reversed view"), (lb.astype(object), "objects"), (lb.astype(">f8"), "big endian"))
    if np.all(lb == np.round(lb)):
        yield from ((lb.astype(t), t) for t in ("int64", "int32", "int16", "uint16", "uint32"))
        yield [int(x) for x in lb], "int list"
        yield lb.astype("float32"), "float32"


def dispersions(n, out, near):
    lb = np.array([NEAR[i % 6] + (i // 6) * 1e-5 if near else ALPHA[i % 4] + (i // 4) * 3.0 for i in range(n)])
    for d in disps():
        nm = type(d).__name__
        for f in ("get_dielectric", "get_refractive_index"):
            v = np.asarray(getattr(d, f)(lb))
            w = np.broadcast_to(v, lb.shape)
            one = np.array([np.asarray(getattr(d, f)(float(x))).reshape(()) for x in lb])
            arr = np.array([np.ravel(getattr(d, f)(np.array([x])))[0] for x in lb])
            out.that(np.all(np.abs(w - one) <= 1e-9 * np.abs(one) + 1e-14), f"disp:{nm}:{f}", f"{nm}.{f} of {n} wavelengths differs from the single ones")
            out.that(np.all(np.abs(w - arr) <= 1e-9 * np.abs(arr) + 1e-14), f"disp:{nm}:{f}", f"{nm}.{f} of {n} wavelengths differs from arrays of one")
            for alt, name in forms(lb):
                z = np.broadcast_to(np.asarray(getattr(d, f)(alt)), lb.shape)
                out.that(np.all(np.abs(w - z) <= (1e-4 if name == "float32" else 1e-9) * (1 + np.abs(z))), f"disp:{nm}:{f}:{name}", f"{nm}.{f} differs when wavelengths are given as {name}")
            if f == "get_dielectric":
                df = d.get_dielectric_df(lb)
                dc = d.get_dielectric_df(lb, conjugate=True)
                e = lab.err(df["ϵ1"] + 1j * df["ϵ2"], w)
                out.that(e <= 1e-9 * (1 + np.max(np.abs(w))) and list(df.index) == list(lb), f"disp:{nm}:df", f"{nm}.get_dielectric_df differs: {e}")
                out.that(lab.err(dc["ϵ2"], -df["ϵ2"]) == 0 and lab.err(dc["ϵ1"], df["ϵ1"]) == 0, f"disp:{nm}:conj", f"{nm}: conjugate frame is wrong")
            else:
                df = d.get_refractive_index_df(lb)
                dc = d.get_refractive_index_df(lb, conjugate=True)
                e = lab.err(df["n"] + 1j * df["k"], w)
                out.that(e <= 1e-9 * (1 + np.max(np.abs(w))) and list(df.index) == list(lb), f"disp:{nm}:ndf", f"{nm}.get_refractive_index_df differs: {e}")
                out.that(lab.err(dc["k"], -df["k"]) == 0 and lab.err(dc["n"], df["n"]) == 0, f"disp:{nm}:conj", f"{nm}: conjugate frame is wrong")
                ep = np.broadcast_to(d.get_dielectric(lb), lb.shape)
                out.that(np.all(np.abs(w**2 - ep) <= 1e-9 * (1 + np.abs(ep))), f"disp:{nm}:n2", f"{nm}: n**2 is not eps")
                out.that(np.all(w.real >= -1e-12), f"disp:{nm}:branch", f"{nm}: negative refractive index")
        out.state(nm, n, near)
        out.trace()
        out.trans()
