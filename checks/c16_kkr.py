"""C16: Kramers-Kronig transforms equal the Maclaurin principal-value sums."""

import itertools
import math

import numpy as np

from mc import lab  # noqa: F401 (sets up the import of the package)
from elli.kkr import im2re, im2re_reciprocal, re2im, re2im_reciprocal

ID = "C16"
LEVEL = "exploration"
RULE = (
    "all four transforms of every unit impulse (hence, with the linearity that is also checked, of all data) on every grid length and "
    "axis of the alphabet, against a scalar double loop; all pairs of impulses; causal line shapes on refined grids. "
    "state = (transform, axis, impulse); evaluation = one transformed vector compared"
)
BOUNDS = {
    "quick": "grids of 2..12 points on all axes (nm, um, eV, cm-1, Hz, m; uniform, refined, huge, descending) (all impulses and pairs), 33, 64, 65, 128 points (all impulses), 11 lengths 129..2049 (9 impulses and 6 data vectors each); line shapes on 4 refinements",
    "thorough": "grids of 2..24 points (all impulses and pairs), 12 lengths up to 513 (all impulses), 13 lengths 129..4097 (9 impulses and 6 data vectors each); line shapes on 5 refinements",
}
ASSUMPTIONS = ["axes ascend or descend (the integral runs from 0 to infinity in both cases); the weight of a point is its distance to the previous point (the next one for the first point)"]
CHUNK = 1

TR = {"im2re": im2re, "im2re_reciprocal": im2re_reciprocal, "re2im": re2im, "re2im_reciprocal": re2im_reciprocal}


def kern(name, xj, xi):
    """integrand of the principal-value integral at x_j for the value at x_i (weight 2/pi)"""
    if name == "im2re":
        return xj / (xj * xj - xi * xi)
    if name == "re2im":
        return -xi / (xj * xj - xi * xi)
    # over wavelengths: substitute E -> 1/x, dE -> dx / x^2
    if name == "im2re_reciprocal":
        return (1 / xj) / (1 / xj**2 - 1 / xi**2) / xj**2
    return -(1 / xi) / (1 / xj**2 - 1 / xi**2) / xj**2


def axis(name, n):
    i = np.arange(n)
    return {
        "unit": 1.0 + i,
        "nm": 200.0 + 10.0 * i,
        "eV": 0.5 + 0.05 * i,
        "zero": 0.25 * i,
        "tiny": 1e-9 * (3 + i),
        "quadratic": 1.0 + i + 0.05 * i**2,
        "jitter": 5.0 + i + 0.3 * np.sin(3 * i),
        "geometric": 2.0 * 1.07**i,
        "Hz": 1e14 * (3 + 0.5 * i),
        "m": 2e-7 + 1e-8 * i,
        "huge": 1e60 * (1 + 0.25 * i),
        "down": 900.0 - 0.8 * i - 1e-4 * i**2 if n < 500 else (5000.0 if n < 3000 else 20000.0) - 1.5 * i,
    }[name]


AX = ["unit", "nm", "eV", "zero", "tiny", "quadratic", "jitter", "geometric", "Hz", "m", "huge", "down"]


def cases(tier):
    for n in range(2, 13 if tier == "quick" else 25):
        for a in AX:
            yield dict(kind="impulse", n=n, axis=a, pairs=True)
    for n in (33, 64, 65, 128) if tier == "quick" else (31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257, 513):
        for a in ("nm", "eV", "jitter", "Hz", "down"):
            yield dict(kind="impulse", n=n, axis=a, pairs=False)
    for n in (129, 255, 256, 257, 512, 513, 1000, 1001, 1024, 1025) + ((2048, 2049, 4097) if tier == "thorough" else (2049,)):
        for a in ("nm", "jitter", "down") if n < 3000 else ("nm", "jitter"):
            yield dict(kind="impulse", n=n, axis=a, pairs=False, some=True)
    for n in (3001, 4096, 4097, 5001, 8193) if tier == "quick" else (3001, 4095, 4096, 4097, 5001, 8192, 8193, 10001):
        for a in ("nm", "jitter", "down"):
            yield dict(kind="big", n=n, axis=a)
    for k in range(6):
        yield dict(kind="shape", osc=k, tier=tier)
    yield dict(kind="types")


def matrix(name, x):
    n = len(x)
    m = np.zeros((n, n))
    if n > 128:
        hgt = np.abs(np.diff(x, prepend=2 * x[0] - x[1]))
        for i in range(n):
            j = np.arange((i + 1) % 2, n, 2)
            m[i, j] = 4 / math.pi * hgt[i] * kern(name, x[j], float(x[i]))
        return m
    for i in range(n):
        hgt = abs(x[i] - x[i - 1] if i else x[1] - x[0])
        for j in range(n):
            if (i - j) % 2:
                m[i, j] = 4 / math.pi * hgt * kern(name, float(x[j]), float(x[i]))
    return m


def check(case, out):
    if case["kind"] == "impulse":
        n, x = case["n"], axis(case["axis"], case["n"])
        for name, f in TR.items():
            if case["axis"] == "zero" and "reciprocal" in name:
                continue
            m = matrix(name, x)
            scale = np.abs(m).max() + 1e-300
            cols = []
            for j in range(n) if not case.get("some") else sorted({0, 1, 2, n // 3, n // 2, n // 2 + 1, n - 3, n - 2, n - 1}):
                y = np.zeros(n)
                y[j] = 1.0
                x0 = x.copy()
                got = f(y, x)
                cols.append(got)
                what = f"{name} of an impulse at point {j} of {n} on the {case['axis']} axis"
                out.that(np.shape(got) == (n,) and np.allclose(got, m[:, j], rtol=1e-9, atol=1e-12 * scale), f"impulse:{name}", lambda: f"{what}: {got}, expected {m[:, j]}")
                out.that(np.array_equal(x, x0) and y[j] == 1 and y.sum() == 1, f"input:{name}", f"{what}: the arguments were changed")
                out.state(name, case["axis"], n, j)
            if case["pairs"]:
                for i, j in itertools.combinations(range(n), 2):
                    for a, b in ((1.0, 1.0), (-2.5, 0.75)):
                        y = np.zeros(n)
                        y[i], y[j] = a, b
                        got = f(y, x)
                        out.that(np.allclose(got, a * m[:, i] + b * m[:, j], rtol=1e-9, atol=1e-11 * scale), f"linear:{name}", f"{name} of impulses at {i} and {j} of {n} on the {case['axis']} axis")
            for y in (np.ones(n), np.cos(np.arange(n)), np.arange(n) ** 2.0, -np.ones(n), np.zeros(n), 1e6 * np.sin(np.arange(n))):
                got = f(y, x)
                w = m @ y
                out.that(np.allclose(got, w, rtol=1e-8, atol=1e-10 * scale * (np.abs(y).max() + 1e-300)), f"data:{name}", lambda: f"{name} of {y[:4]}... on {n} points of the {case['axis']} axis: {got[:4]}, expected {w[:4]}")
        out.sample(case)
        return
    if case["kind"] == "big":
        n, x = case["n"], axis(case["axis"], case["n"])
        rows = sorted({0, 1, 2, 3, n // 4, n // 3, n // 2 - 1, n // 2, n // 2 + 1, 2 * n // 3, 1023, 1024, 1025, 2047, 2048, 2049, n - 4, n - 3, n - 2, n - 1})
        hgt = np.abs(np.diff(x, prepend=2 * x[0] - x[1]))
        for name, f in TR.items():
            for y in (np.cos(np.arange(n) / 7.0), 1.0 + np.sin(np.arange(n)) ** 2, np.exp(-(((np.arange(n) - n / 2) / 50.0) ** 2))):
                got = f(y, x)
                ok = np.shape(got) == (n,) and bool(np.all(np.isfinite(got)))
                for i in rows if ok else ():
                    j = np.arange((i + 1) % 2, n, 2)
                    k = 4 / math.pi * hgt[i] * kern(name, x[j], float(x[i]))
                    ok = ok and abs(got[i] - k @ y[j]) <= 1e-9 * (np.abs(k) @ np.abs(y[j]) + 1e-300)
                out.that(ok, f"data:{name}", f"{name} of {n} points on the {case['axis']} axis")
            out.state(name, case["axis"], n, "big")
        return
    if case["kind"] == "types":
        for name, f in TR.items():
            x = axis("nm", 7)
            y = np.array([0, 1, 3, 2, 5, 1, 0])
            w = matrix(name, x) @ y
            for yy, xx in ((y, x), (y.astype(float), x), (y, x.astype(int)), (y.astype(np.float32), x), (y[::-1][::-1], x), (np.repeat(y, 2)[::2], np.repeat(x, 2)[::2])):
                got = f(yy, xx)
                out.that(np.allclose(got, w, rtol=1e-6), f"types:{name}", f"{name} with {yy.dtype}, {xx.dtype}")
                again = f(yy, xx)
                out.that(np.array_equal(got, again), f"repeat:{name}", f"{name} called twice")
            for a, b in ((3, 4), (4, 3), (6, 7), (7, 6), (2, 7), (0, 3)):
                try:
                    f(np.ones(a), axis("nm", max(b, 1))[:b])
                except ValueError:
                    out.ev()
                else:
                    out.that(False, f"length:{name}", f"{name} accepted {a} values on {b} points")
            out.state(name, "types")
        return
    # causal line shapes: the error shrinks with the spacing
    amp, e0, g = [(20, 5, 0.5), (3, 2, 1.0), (50, 8, 0.2), (10, 4, 2.0), (1, 1.5, 0.3), (100, 10, 1.0)][case["osc"]]

    def eps(e):
        return amp / (e0**2 - e**2 - 1j * g * e)

    errs = {k: [] for k in TR}
    for h in ([0.04, 0.02, 0.01, 0.005] if case["tier"] == "quick" else [0.04, 0.02, 0.01, 0.005, 0.0025]):
        e = np.arange(1, int(40 / h) + 1) * h
        v = eps(e)
        sel = (e > 0.5) & (e < 15)
        size = np.abs(v).max()
        errs["im2re"].append(np.abs(im2re(v.imag, e) - v.real)[sel].max() / size)
        errs["re2im"].append(np.abs(re2im(v.real, e) - v.imag)[sel].max() / size)
        lam = np.linspace(20, 6000, len(e))
        v = eps(1239.84 / lam)
        sel = (lam > 100) & (lam < 1500)
        errs["im2re_reciprocal"].append(np.abs(im2re_reciprocal(v.imag, lam) - v.real)[sel].max() / size)
        errs["re2im_reciprocal"].append(np.abs(re2im_reciprocal(v.real, lam) - v.imag)[sel].max() / size)
    # the wavelength axis ends at 6000 nm: energies below are missing in the transform of the real part
    cut = 2 / math.pi * amp / e0**2 * (1239.84 / 6000) / (1239.84 / 1500) / size
    for name, er in errs.items():
        out.that(er[-1] < 0.03 + (1.5 * cut if name == "re2im_reciprocal" else 0) and er[-1] <= er[0] * 1.01 + 1e-4, f"converge:{name}", f"{name} of an oscillator at {e0}: relative errors {er} for halved spacings")
        out.state(name, "shape", case["osc"])
    out.sample({"errors": {k: [float(x) for x in v] for k, v in errs.items()}})
