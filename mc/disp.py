"""Reference dispersion laws, written from the documentation (no code of the package)."""

import cmath
import math

import numpy as np
import scipy.integrate
import scipy.special as sp

H_C = 6.62607015e-34 * 299792458 / 1.602176634e-19 * 1e9  # eV nm
HBAR = 6.62607015e-34 / 1.602176634e-19 / 2 / math.pi  # eV s
EPS0 = 8.8541878128e-12


def energy(lb):
    return H_C / lb


def cauchy(lb, s, r):
    n = s["n0"] + 100 * s["n1"] * lb**-2.0 + 1e7 * s["n2"] * lb**-4.0
    k = s["k0"] + 100 * s["k1"] * lb**-2.0 + 1e7 * s["k2"] * lb**-4.0
    return (n + 1j * k) ** 2


def cauchy_custom(lb, s, r):
    n = np.full(lb.shape, complex(s["n0"]))
    for c in r:
        n = n + c["f"] * np.exp(np.log(lb) * c["e"])
    return n**2


def cauchy_urbach(lb, s, r):
    e = energy(lb)
    return (s["n0"] + s["B"] * e * e + s["C"] * e * e * e * e + 1j * s["D"] * np.exp((e - s["Eg"]) / s["Eu"])) ** 2


def constant_n(lb, s, r):
    return np.full(lb.shape, complex(s["n"]) ** 2)


def epsinf(lb, s, r):
    return np.full(lb.shape, complex(s["eps"]))


def drude_energy(lb, s, r):  # as documented
    e = energy(lb)
    return s["A"] / (e * (e - 1j * s["gamma"]))


def drude_res(lb, s, r):
    # the documented expression; eps0 in F/cm; hbar^2 restores the unit of the documented hbar
    e = energy(lb)
    return HBAR**2 / (EPS0 * 1e-2 * s["rho_opt"] * e * (s["tau"] * e - 1j * HBAR))


def gaussian(lb, s, r):
    e = energy(lb)
    f = 2 * math.sqrt(math.log(2))
    t = np.zeros(lb.shape, complex)
    for c in r:
        p, m = f * (e + c["E"]) / c["sigma"], f * (e - c["E"]) / c["sigma"]
        t = t + c["A"] * (2 / math.sqrt(math.pi) * (sp.dawsn(p) - sp.dawsn(m)) + 1j * (np.exp(-m * m) - np.exp(-p * p)))
    return t


def lorentz_e(lb, s, r):
    e = energy(lb)
    t = np.ones(lb.shape, complex)
    for c in r:
        t = t + c["A"] / ((c["E"] - e) * (c["E"] + e) - 1j * c["gamma"] * e)
    return t


def lorentz_l(lb, s, r):
    t = np.ones(lb.shape, complex)
    for c in r:
        t = t + c["A"] / (1 - (c["lambda_r"] / lb) ** 2 - 1j * c["gamma"] / lb)
    return t


def poles(lb, s, r):
    e = energy(lb)
    return s["A_ir"] / e**2 + s["A_uv"] / ((s["E_uv"] - e) * (s["E_uv"] + e)) + 0j


def polynomial(lb, s, r):
    t = np.full(lb.shape, complex(s["e0"]))
    for c in r:
        t = t + c["f"] * np.exp(np.log(lb) * c["e"])
    return t


def sellmeier(lb, s, r):
    u2 = (lb * 1e-3) ** 2
    t = np.ones(lb.shape, complex)
    for c in r:
        t = t + c["A"] / (1 - c["B"] / u2)
    return t


def sellmeier_custom(lb, s, r):
    u = lb * 1e-3
    t = np.zeros(lb.shape, complex)
    for c in r:
        t = t + c["A"] * np.exp(np.log(u) * c["e_A"]) / (u * u - float(c["B"]) ** c["e_B"])
    return t


def tl_eps2(e, Eg, A, E, C):
    if e <= Eg:
        return 0.0
    return A * E * C * (e - Eg) ** 2 / ((e * e - E * E) ** 2 + C * C * e * e) / e


_TL = {}


def _tl1(e, Eg, A, E, C):
    """Numerical Kramers-Kronig integral of the imaginary part (principal value)."""
    key = (round(e, 12), Eg, E, C)
    if key in _TL:
        return A * _TL[key]

    def f(x):
        return x * tl_eps2(x, Eg, 1.0, E, C)

    # 2/pi P int_Eg^inf x eps2/((x-e)(x+e)) dx
    tot = 0.0
    top = max(4 * E, 4 * e, 40.0)
    brk = sorted({Eg, E, top} | ({0.5 * (Eg + e), e + 0.5 * abs(e - Eg)} if e > Eg else set()))
    opts = dict(limit=400, epsabs=1e-11, epsrel=1e-11)
    for a, b in zip(brk[:-1], brk[1:]):
        if a < e < b:
            # split so that the singular piece has no kink
            tot += scipy.integrate.quad(lambda x: f(x) / (x + e), a, b, weight="cauchy", wvar=e, limit=400, epsabs=1e-11, epsrel=1e-11)[0]
        else:
            tot += scipy.integrate.quad(lambda x: f(x) / (x * x - e * e), a, b, **opts)[0]
    tot += scipy.integrate.quad(lambda x: f(x) / (x * x - e * e), top, np.inf, **opts)[0]
    _TL[key] = 2 / math.pi * tot
    return A * _TL[key]


def tauc_lorentz(lb, s, r):
    es = np.atleast_1d(energy(lb))
    t = np.zeros(es.shape, complex)
    for c in r:
        t += np.array([_tl1(e, s["Eg"], c["A"], c["E"], c["C"]) + 1j * tl_eps2(e, s["Eg"], c["A"], c["E"], c["C"]) for e in es])
    return t.reshape(lb.shape)


def cl_eps2(e, s):
    def g(x):
        return (x - s["Eg"]) ** 2 / ((x - s["Eg"]) ** 2 + s["Ep"] ** 2)

    def lz(x):
        return s["A"] * s["E0"] * s["gamma"] * x / ((x * x - s["E0"] ** 2) ** 2 + s["gamma"] ** 2 * x * x)

    e = np.asarray(e, float)
    tail = s["Et"] * g(s["Et"]) * lz(s["Et"]) / e * np.exp((np.minimum(e, s["Et"]) - s["Et"]) / s["Eu"])
    return np.where(e <= s["Et"], tail, g(e) * lz(e))


def tanguy(lb, s, r):
    res = []
    d, R, Eg = s["d"], s["R"], s["Eg"]

    def cot(x):
        return cmath.cos(x) / cmath.sin(x)

    def g(xi):
        if d == 3:
            return 2 * cmath.log(xi) - 2 * math.pi * cot(math.pi * xi) - 2 * sp.digamma(complex(xi)) - 1 / xi
        if d == 2:
            # psi(1/2 - x) = psi(1/2 + x) - pi tan(pi x)
            return 2 * cmath.log(xi) - 2 * (sp.digamma(0.5 + complex(xi)) - math.pi * cmath.tan(math.pi * xi))
        h = (d - 1) / 2
        lg = sp.loggamma(h + complex(xi)) - 2 * sp.loggamma(h) - sp.loggamma(complex(1 - h + xi)) - (d - 2) * cmath.log(xi)
        return 2 * math.pi * cmath.exp(lg) * (cot(math.pi * (h - xi)) - cot(math.pi * (d - 1)))

    def xi(z):
        return cmath.sqrt(R / (Eg - z))

    for e in np.atleast_1d(energy(lb)):
        z = e + 1j * s["gamma"]
        val = 1 + s["a"] / (s["b"] - e * e) + s["A"] * R ** (d / 2 - 1) / z**2 * (g(xi(z)) + g(xi(-z)) - 2 * g(xi(0j)))
        res.append(val)
    return np.array(res).reshape(lb.shape)


LAWS = {
    "Cauchy": dict(single={"n0": 1.5, "n1": 0, "n2": 0, "k0": 0, "k1": 0, "k2": 0}, rep={}, kind="n", f=cauchy),
    "CauchyCustomExponent": dict(single={"n0": 1.5}, rep={"f": 0, "e": 1}, kind="n", f=cauchy_custom),
    "CauchyUrbach": dict(single={"n0": 1.5, "B": 0, "C": 0, "D": 0, "Eg": 2, "Eu": 0.5}, rep={}, kind="n", f=cauchy_urbach),
    "ConstantRefractiveIndex": dict(single={"n": 1}, rep={}, kind="n", f=constant_n),
    "DrudeEnergy": dict(single={"A": 0, "gamma": 0}, rep={}, kind="eps", f=drude_energy),
    "DrudeResistivity": dict(single={"rho_opt": 1, "tau": 1}, rep={}, kind="eps", f=drude_res),
    "EpsilonInf": dict(single={"eps": 1}, rep={}, kind="eps", f=epsinf),
    "Gaussian": dict(single={}, rep={"A": 1, "E": 1, "sigma": 1}, kind="eps", f=gaussian),
    "LorentzEnergy": dict(single={}, rep={"A": 1, "E": 0, "gamma": 0}, kind="eps", f=lorentz_e),
    "LorentzLambda": dict(single={}, rep={"A": 1, "lambda_r": 0, "gamma": 0}, kind="eps", f=lorentz_l),
    "Poles": dict(single={"A_ir": 1, "A_uv": 1, "E_uv": 6}, rep={}, kind="eps", f=poles),
    "Polynomial": dict(single={"e0": 1}, rep={"f": 0, "e": 0}, kind="eps", f=polynomial),
    "Sellmeier": dict(single={}, rep={"A": 0, "B": 0}, kind="eps", f=sellmeier),
    "SellmeierCustomExponent": dict(single={}, rep={"A": 0, "e_A": 1, "B": 0, "e_B": 1}, kind="eps", f=sellmeier_custom),
    "Tanguy": dict(single={"A": 1, "d": 3, "gamma": 0.1, "R": 0.1, "Eg": 1, "a": 0, "b": 0}, rep={}, kind="eps", f=tanguy),
    "TaucLorentz": dict(single={"Eg": 1}, rep={"A": 20, "E": 1.5, "C": 1}, kind="eps", f=tauc_lorentz),
}
# no closed reference for the real part: the imaginary part is exact, the real part is its Kramers-Kronig transform
CODY = {"Eg": 1.6, "A": 100, "Et": 1.8, "gamma": 2.4, "Ep": 0.8, "E0": 3.6, "Eu": 0.05}


def cl_eps1(e, s):
    """Kramers-Kronig integral of the Cody-Lorentz imaginary part over the wavelength window 50 nm to 10 um."""
    lo, hi = energy(10000.0), energy(50.0)

    def f(x):
        return x * float(cl_eps2(x, s))

    brk = sorted({lo, s["Et"], s["E0"], 2 * s["E0"], hi} | {e - 0.2, e + 0.2})
    brk = [b for b in brk if lo <= b <= hi]
    tot = 0.0
    for a, b in zip(brk[:-1], brk[1:]):
        if a < e < b:
            tot += scipy.integrate.quad(lambda x: f(x) / (x + e), a, b, weight="cauchy", wvar=e, limit=300)[0]
        else:
            tot += scipy.integrate.quad(lambda x: f(x) / (x * x - e * e), a, b, limit=300)[0]
    return 2 / math.pi * tot
