"""C18: mixtures obey their mixing laws."""

import cmath
import copy
import itertools
import math

import numpy as np

from mc import lab
from mc.lab import elli

ID = "C18"
LEVEL = "exploration"
RULE = (
    "every ordered pair of constituents x law x fraction, judged by the defining equation, an independently selected root, limits, "
    "bounds, exchange and passivity; anisotropic pairs axis by axis; all nested mixtures of the alphabet; all histories of fraction and "
    "constituent changes up to the bound. state = (law, host, guest, fraction) or history; evaluation = one verdict"
)
BOUNDS = {
    "quick": "16 permittivities (all ordered pairs) x 11 fractions x 4 laws; 5 crystals; nested to depth 2; histories of 3 actions",
    "thorough": "30 permittivities x 25 fractions; nested to depth 3; histories of 4 actions",
}
ASSUMPTIONS = [
    "the nonlinear laws are specified for isotropic constituents and crystals aligned with the axes (their formulas are scalar); the average also for rotated crystals",
]
CHUNK = 1
LAWS = {"VCA": elli.VCAMaterial, "Looyenga": elli.LooyengaEMA, "MG": elli.MaxwellGarnettEMA, "Bruggeman": elli.BruggemanEMA}

NK = [1, 1.33, 1.5, 2.0, 3.9, 0.6, 1.5 + 1e-6j, 1.5 + 0.1j, 4 + 0.5j, 0.2 + 3.5j, 0.05 + 2j, 1.4 + 1.4j, 2 + 5j, 0.9 + 0.9j, 6.0, 1e-3 + 1j]
NKT = NK + [1.0001, 1.1, 2.5, 5 + 3j, 0.3, 0.1 + 0.1j, 3 + 1e-9j, 1e-2 + 8j, 1.7 + 0.01j, 2.2 + 2j, 0.5 + 0.05j, 1.2 + 3j, 4.5, 3.3 + 3.3j]
FR = [0, 1e-9, 0.01, 0.2, 1 / 3, 0.5, 2 / 3, 0.8, 0.99, 1 - 1e-9, 1]
FRT = sorted(FR + [1e-4, 0.05, 0.1, 0.25, 0.3, 0.3333, 0.4, 0.45, 0.55, 0.6, 0.7, 0.75, 0.9, 0.999])


def reference(law, a, b, f):
    """host a, guest b, fraction of guest f"""
    a, b = complex(a), complex(b)
    if law == "VCA":
        return (1 - f) * a + f * b
    if law == "Looyenga":
        r = (1 - f) * root3(a) + f * root3(b)
        return r * r * r
    if law == "MG":
        beta = (b - a) / (b + 2 * a)  # Clausius-Mossotti form
        return a * (1 + 3 * f * beta / (1 - f * beta))
    if a == b or f == 0:
        return a
    if f == 1:
        return b
    # (1-f)(a-e)/(a+2e) + f(b-e)/(b+2e) = 0
    p = -((2 - 3 * f) * a + (3 * f - 1) * b)
    q = -a * b
    d = cmath.sqrt(p * p - 8 * q)
    e1 = (-p + d) / 4 if abs(-p + d) >= abs(-p - d) else (-p - d) / 4
    e2 = q / 2 / e1  # stable second root
    lo, hi = sorted((cmath.phase(a), cmath.phase(b)))
    mid = (lo + hi) / 2
    return min((e1, e2), key=lambda e: abs(cmath.phase(e * cmath.exp(-1j * mid))))


def root3(z):
    return cmath.rect(abs(z) ** (1 / 3), cmath.phase(z) / 3)


def cases(tier):
    nk = NK if tier == "quick" else NKT
    for i in range(len(nk)):
        yield dict(kind="pairs", i=i, tier=tier)
    for law in LAWS:
        yield dict(kind="crystal", law=law)
        yield dict(kind="dispersive", law=law)
        yield dict(kind="extreme", law=law)
        for law2 in LAWS:
            yield dict(kind="nested", law=law, law2=law2, depth=2 if tier == "quick" else 3)
        for first in range(len(ACTS)):
            yield dict(kind="history", law=law, depth=3 if tier == "quick" else 4, first=first)


def eps(m, lb=500.0):
    return m.get_tensor(lb)


def check(case, out):
    globals()[case["kind"]](case, out)
    out.sample(case)


def pairs(case, out):
    nk = NK if case["tier"] == "quick" else NKT
    fr = FR if case["tier"] == "quick" else FRT
    na = nk[case["i"]]
    A = lab.iso(na)
    a = complex(na) ** 2
    for nb in nk:
        B = lab.iso(nb)
        b = complex(nb) ** 2
        big = max(abs(a), abs(b))
        for law, cls in LAWS.items():
            prev = None
            for f in fr:
                m = cls(A, B, f)
                t = eps(m)
                e = t[0, 0, 0]
                what = f"{law} mixture of {na} and {nb} with fraction {f}"
                out.that(t.shape == (1, 3, 3) and np.allclose(t[0], np.eye(3) * e, rtol=1e-12, atol=1e-13 * abs(e)), f"{law}:isotropic", lambda: f"{what} is not isotropic: {t}")
                w = reference(law, a, b, f)
                if law == "MG" and abs(2 * a + b - f * (b - a)) < 1e-6 * big:
                    out.count("resonance")
                    continue
                tol = 1e-8 if law != "Bruggeman" else 1e-7
                ok = out.that(abs(e - w) <= tol * max(abs(w), 1e-3 * big), f"{law}:value", lambda: f"{what}: {e}, expected {w}")
                out.state(law, str(na), str(nb), f)
                if not ok:
                    continue
                if f == 0 or na == nb:
                    out.that(abs(e - a) < 1e-9 * big, f"{law}:host", f"{what}: {e} is not the host {a}")
                if f == 1:
                    out.that(abs(e - b) < 1e-9 * big, f"{law}:guest", f"{what}: {e} is not the guest {b}")
                out.that(e.imag >= -1e-9 * big, f"{law}:passive", f"{what}: {e} amplifies")
                if a.imag == 0 and b.imag == 0 and a.real > 0 and b.real > 0:
                    lo, hi = sorted((a.real, b.real))
                    harm = 1 / ((1 - f) / a.real + f / b.real)
                    arit = (1 - f) * a.real + f * b.real
                    out.that(abs(e.imag) < 1e-9 * hi and harm * (1 - 1e-9) <= e.real <= arit * (1 + 1e-9), f"{law}:bounds", f"{what}: {e} outside of {harm}..{arit}")
                    if prev is not None:
                        out.that((e.real - prev) * (b.real - a.real) >= -1e-9, f"{law}:monotonic", f"{what}: not monotonic")
                    prev = e.real
                if law == "Bruggeman":
                    res = (1 - f) * (a - e) * (b + 2 * e) + f * (b - e) * (a + 2 * e)
                    out.that(abs(res) < 1e-9 * big**2, "Bruggeman:equation", f"{what}: residual {res}")
                if law in ("Bruggeman", "Looyenga", "VCA"):
                    e2 = eps(cls(B, A, 1 - f))[0, 0, 0]
                    out.that(abs(e2 - e) <= 1e-6 * big, f"{law}:exchange", f"{what}: exchanging the constituents gives {e2} instead of {e}")
                if law == "Looyenga":
                    out.that(abs(root3(e) - (1 - f) * root3(a) - f * root3(b)) < 1e-9 * big ** (1 / 3), "Looyenga:equation", what)
                e3 = m.get_tensor_fraction(500.0, f)[0, 0, 0]
                out.that(abs(e3 - e) <= 1e-12 * big, f"{law}:fraction", f"{what}: tensor with an explicit fraction")
                x = cls(A, B, 0.37)
                out.that(abs(x.get_tensor_fraction(500.0, f)[0, 0, 0] - e) <= 1e-12 * big and abs(eps(x)[0, 0, 0] - eps(cls(A, B, 0.37))[0, 0, 0]) <= 1e-12 * big, f"{law}:override", f"{what}: explicit fraction of another mixture")


def extreme(case, out):
    """permittivities equal to each other, to zero loss limits, and nearly equal"""
    law, cls = case["law"], LAWS[case["law"]]
    for n in (1, 1.5, 2 + 1j, 0.1 + 5j, 1e-3, 30):
        for dn in (0, 1e-15, 1e-12, 1e-8, 1e-4):
            for f in FR:
                a, b = complex(n) ** 2, complex(n + dn) ** 2
                e = eps(cls(lab.iso(n), lab.iso(n + dn), f))[0, 0, 0]
                out.that(abs(e - a) <= 1.01 * abs(b - a) + 1e-9 * abs(a), f"{law}:near", f"{law} of {n} and {n}+{dn} with {f}: {e}")
                out.state(law, "near", str(n), dn, f)
    for bad in (-1e-9, -0.1, 1.0000001, 1.5, 2, -1, float("nan"), float("inf")):
        m = cls(lab.iso(1.5), lab.iso(2), 0.3)
        before = eps(m).copy()
        for g in (lambda: cls(lab.iso(1.5), lab.iso(2), bad), lambda: m.set_fraction(bad)):
            try:
                g()
                out.that(False, f"{law}:rejects", f"{law} with fraction {bad} was accepted")
            except ValueError:
                out.ev()
        out.that(np.array_equal(before, eps(m)) and m.fraction == 0.3, f"{law}:unchanged", f"{law} changed after a rejected fraction")
    for good in (0, 1, 0.0, 1.0, np.float64(0.5), np.float32(0.5), True):
        e = eps(cls(lab.iso(1.5), lab.iso(2), good))[0, 0, 0]
        out.that(abs(e - reference(law, 2.25, 4, float(good))) < 1e-6, f"{law}:types", f"{law} with fraction {good!r}: {e}")
    for bad in ((None, lab.iso(2)), (lab.iso(2), 1.5), (elli.ConstantRefractiveIndex(2), lab.iso(2)), (lab.iso(2), elli.ConstantRefractiveIndex(2))):
        try:
            cls(*bad, 0.5)
            out.that(False, f"{law}:rejects", f"{law} of {bad} was accepted")
        except TypeError:
            out.ev()
    for mode in ("warn", "ignore", "raise"):
        with np.errstate(all="ignore" if mode == "ignore" else "warn"):
            np.seterr(invalid=mode)
            s0 = np.geterr()
            eps(cls(lab.iso(1.5), lab.iso(2), 0.5)) if mode != "raise" or law in ("VCA", "Looyenga") else None
            out.that(np.geterr() == s0, f"{law}:settings", f"{law} changed the numpy error settings")


def crystal(case, out):
    law, cls = case["law"], LAWS[case["law"]]
    mats = [
        ((1.5, 1.5, 1.5), lab.iso(1.5)),
        ((1.5, 1.5, 1.9), lab.uni(1.5, 1.9)),
        ((2.2, 2.2, 1.5), lab.uni(2.2, 1.5)),
        ((1.4, 1.6, 2.5), lab.bi(1.4, 1.6, 2.5)),
        ((0.2 + 3j, 1.5, 2 + 0.1j), lab.bi(0.2 + 3j, 1.5, 2 + 0.1j)),
    ]
    for (na, A), (nb, B) in itertools.product(mats, mats):
        for f in FR:
            t = eps(cls(A, B, f), np.array([400.0, 700.0]))
            w = np.diag([reference(law, complex(x) ** 2, complex(y) ** 2, f) for x, y in zip(na, nb)])
            out.that(t.shape == (2, 3, 3) and np.allclose(t, w[None], rtol=1e-7, atol=1e-9), f"{law}:axes", lambda: f"{law} of {na} and {nb} with {f}: {t[0].tolist()}, expected {np.diag(w)}")
            out.state(law, str(na), str(nb), f)
    R = elli.rotation_euler(20, 35, 50)
    R2 = elli.rotation_v_theta([0, 1, 0], 40)
    for na in ((1.5, 1.5, 1.9), (1.4, 1.6, 2.5), (0.2 + 3j, 1.5, 2 + 0.1j)):
        M, M1 = lab.bi(*na, R=R), lab.bi(*na, R=R)
        t0 = R @ np.diag(np.array(na, complex) ** 2) @ R.T
        for f in FR:
            t = eps(cls(M, M1, f))
            out.that(np.allclose(t[0], t0, atol=1e-9), f"{law}:equal", f"{law} of equal rotated crystals {na} with {f}")
            if law == "VCA":
                N = lab.bi(1.3, 1.7, 2.2, R=R2)
                n0 = R2 @ np.diag(np.array([1.3, 1.7, 2.2]) ** 2) @ R2.T
                out.that(np.allclose(eps(cls(M, N, f))[0], (1 - f) * t0 + f * n0, atol=1e-10), "VCA:rotated", f"average of rotated crystals with {f}")


def dispersive(case, out):
    law, cls = case["law"], LAWS[case["law"]]
    A = elli.Cauchy(n0=1.45, n1=80, n2=30, k0=0.05).get_mat()
    B = elli.UniaxialMaterial(elli.Cauchy(n0=2, n1=90), elli.Cauchy(n0=1.2, n1=300, k0=2))

    def ref(lb, f):
        ea = (1.45 + 80e2 / lb**2 + 30e7 / lb**4 + 0.05j) ** 2
        eo, ee = (2 + 90e2 / lb**2) ** 2, (1.2 + 300e2 / lb**2 + 2j) ** 2
        return np.diag([reference(law, ea, eo, f), reference(law, ea, eo, f), reference(law, ea, ee, f)])

    for n in (1, 2, 3, 4, 64, 65, 128, 257, 1000, 1025, 2049):
        for order in (1, -1):
            lb = np.linspace(300, 900, n)[::order]
            for f in (0, 0.25, 0.5, 1) if n < 100 else (0.25,):
                t = cls(A, B, f).get_tensor(lb)
                w = np.array([ref(l, f) for l in lb])
                out.that(t.shape == w.shape and np.allclose(t, w, rtol=1e-8, atol=1e-9), f"{law}:wavelengths", f"{law} with {f} at {n} wavelengths")
                out.state(law, n, order, f)
    for lb in (500, 500.0, [400, 500.5], (400.0, 600.0), np.array([400, 500]), np.array(500.0)):
        t = cls(A, B, 0.3).get_tensor(lb)
        w = np.array([ref(float(l), 0.3) for l in np.atleast_1d(lb)])
        out.that(t.shape == w.shape and np.allclose(t, w, rtol=1e-8), f"{law}:containers", f"{law} at {lb!r}")


def nested(case, out):
    law, law2 = case["law"], case["law2"]
    ns = [1.5, 2.5, 0.3 + 3j]
    laws3 = list(LAWS) if case["depth"] > 2 else [None]
    for a, b, c in itertools.product(ns, ns, ns):
        for f, g in itertools.product((0, 0.2, 0.5, 1), (0, 0.35, 0.75, 1)):
            inner = reference(law2, complex(a) ** 2, complex(b) ** 2, f)
            I = LAWS[law2](lab.iso(a), lab.iso(b), f)
            for host in (True, False):
                w = reference(law, inner, complex(c) ** 2, g) if host else reference(law, complex(c) ** 2, inner, g)
                M = LAWS[law](I, lab.iso(c), g) if host else LAWS[law](lab.iso(c), I, g)
                e = eps(M)[0, 0, 0]
                out.that(abs(e - w) <= 1e-6 * max(1, abs(w)), f"{law}:nested", lambda: f"{law}({law2}({a}, {b}, {f}), {c}, {g}) host={host}: {e}, expected {w}")
                out.state(law, law2, str((a, b, c, f, g)), host)
                for law3 in laws3:
                    if law3:
                        w3 = reference(law3, w, inner, 0.4)
                        e3 = eps(LAWS[law3](M, I, 0.4))[0, 0, 0]
                        out.that(abs(e3 - w3) <= 1e-5 * max(1, abs(w3)), f"{law3}:nested3", f"nested {law3}/{law}/{law2}")
                        out.ev()


ACTS = [("f", 0), ("f", 1), ("f", 0.35), ("f", 2), ("c", 1.5, 2.5), ("c", 2.5, 0.3 + 3j), ("cbad",), ("t", 0.8), ("poke",), ("copy",), ("edit",)]


def history(case, out):
    law, cls = case["law"], LAWS[case["law"]]
    for rest in itertools.product(range(len(ACTS)), repeat=case["depth"] - 1):
        hist = [ACTS[i] for i in (case["first"],) + rest]
        for reads in (False, True):
            run_history(out, law, cls, hist, reads)


def run_history(out, law, cls, hist, reads):
    na, nb, f = 1.33, 1.9 + 0.2j, 0.6
    A, B = lab.iso(na), lab.iso(nb)
    m = cls(A, B, f)
    side = []
    for a in hist:
        if reads:
            m.get_tensor(np.array([450.0, 500.0])), m.get_tensor_fraction(500.0, 0.8)
        if a[0] == "f":
            try:
                m.set_fraction(a[1])
                out.that(a[1] <= 1, f"{law}:rejects", f"fraction {a[1]} accepted")
                f = a[1]
            except ValueError:
                out.that(a[1] > 1, f"{law}:accepts", f"fraction {a[1]} rejected")
        elif a[0] == "c":
            na, nb = a[1:]
            m.set_constituents(lab.iso(na), lab.iso(nb))
        elif a[0] == "cbad":
            for bad in ((None, lab.iso(3)), (lab.iso(3), None)):
                try:
                    m.set_constituents(*bad)
                    out.that(False, f"{law}:rejects", "invalid constituents accepted")
                except TypeError:
                    out.ev()
        elif a[0] == "t":
            t = m.get_tensor_fraction(500.0, a[1])[0, 0, 0]
            out.that(abs(t - reference(law, complex(na) ** 2, complex(nb) ** 2, a[1])) < 1e-7 * 10, f"{law}:override", f"explicit fraction after {hist}")
        elif a[0] == "poke":
            t = m.get_tensor(500.0)
            t[:] = 7
        elif a[0] == "copy":
            side.append((m, na, nb, f))
            m = copy.deepcopy(m)
        elif a[0] == "edit":
            nb = complex(nb) + 0.1
            m.guest_material.dispersion_x.single_params["n"] = nb
        out.trans()
    for mm, a_, b_, f_ in side + [(m, na, nb, f)]:
        t = mm.get_tensor(np.array([450.0, 500.0]))
        w = reference(law, complex(a_) ** 2, complex(b_) ** 2, f_)
        out.that(np.allclose(t, w * np.eye(3), rtol=1e-7, atol=1e-8), f"{law}:history", lambda: f"{law} after {hist}: {t[0, 0, 0]}, expected {w}")
    out.state(law, hist)
