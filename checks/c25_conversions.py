"""C25: conversions between representations are consistent and invertible."""

import itertools

import numpy as np
import pandas as pd

from elli import utils as U
from mc.lab import elli, ev, iso, uni

ID = "C25"
LEVEL = "exploration"
RULE = (
    "every conversion function x every container and shape of the alphabet x every value grid; psi/delta tables x number of angles and "
    "wavelengths x row orders x ragged subsets x columns; bare substrates and films for the physical cross checks. "
    "state = one (conversion, container, values) or one table; evaluation = one comparison with the reference definition"
)
BOUNDS = {
    "quick": "5 unit conversions x 17 containers x 4 value grids; tables up to 7 angles x 1000 wavelengths, 6 row orders with and without repeated rows (all orders up to 6 rows), 3 column layouts, ragged; 58 bulk samples x 9 angles x 3 stacks",
    "thorough": "all row orders up to 7 rows; 58 bulk samples x 89 angles x 3 stacks",
}
ASSUMPTIONS = [
    "physical constants are the exact SI values", "tables have the levels and columns the importers produce", "values are finite and not zero where they are divided by"
]
TIMEOUT = {"quick": 300, "thorough": 1500}

C, HE = 299792458.0, 6.62607015e-34 / 1.602176634e-19
UNITS = {
    "conversion_wavelength_energy": (lambda v: C * HE / (v * 1e-9), "conversion_wavelength_energy"),
    "conversion_frequency2energy": (lambda v: v * HE, "conversion_energy2frequency"),
    "conversion_energy2frequency": (lambda v: v / HE, "conversion_frequency2energy"),
    "conversion_wavelength_frequency": (lambda v: C / (v * 1e-9), "conversion_wavelength_frequency"),
    "conversion_wavelength_wavenumber": (lambda v: 1e7 / v, "conversion_wavelength_wavenumber"),
}
GRIDS = [[1, 400, 633, 1239, 10**4], [0.4, 1.5, 2.33, 13.6], [1e-6, 1e6, 1e14, 5e15], [632.8]]
MCOLS = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]


def containers(vals):
    """name, object"""
    f = [float(v) for v in vals]
    yield "float", f[0]
    if all(isinstance(v, int) for v in vals):
        yield "int", vals[-1]
        yield "int array", np.array(vals)
    yield "numpy float", np.float64(f[-1])
    yield "0-d array", np.array(f[0])
    yield "array", np.array(f)
    yield "empty array", np.array([])
    yield "descending array", np.array(sorted(f, reverse=True))
    yield "repeated values", np.array(f * 2)
    yield "2-d array", np.array([f, f[::-1]])
    yield "3-d array", np.array(f * 6).reshape(3, 2, -1)
    yield "strided view", np.repeat(np.array(f), 3)[::3]
    yield "read-only array", _ro(np.array(f))
    yield "257 values", np.linspace(min(f), max(f) + 1, 257)
    yield "series", pd.Series(f, index=np.arange(len(f)) * 2.0 + 7, name="x")
    yield "frame", pd.DataFrame({"a": f, "b": f[::-1]}, index=pd.Index(np.arange(len(f)) + 3, name="i"))
    yield "index", pd.Index(f, name="Wavelength")


def _ro(a):
    a.flags.writeable = False
    return a


def axes(x):
    if isinstance(x, pd.DataFrame):
        return [list(x.index), list(x.columns), x.index.name]
    if isinstance(x, pd.Series):
        return [list(x.index), x.name]
    return [np.shape(x)]


def units(case, out):
    f = getattr(elli, case["f"], None) or getattr(U, case["f"])
    ref, inv = UNITS[case["f"]]
    g = getattr(elli, inv, None) or getattr(U, inv)
    for gi, grid in enumerate(GRIDS):
        for name, x in containers(grid):
            what = f"{case['f']}({name} {grid})"
            copy = x.copy() if hasattr(x, "copy") else x
            y = f(x)
            a = np.asarray(x, float)
            out.that(np.shape(y) == np.shape(x), "shape", lambda: f"{what}: shape {np.shape(y)}")
            out.that(np.allclose(np.asarray(y, float), ref(a), rtol=1e-8, atol=0), "value", lambda: f"{what} = {y}, expected {ref(a)}")
            out.that(np.array_equal(np.asarray(x), np.asarray(copy)), "modified", f"{what} changed its argument")
            if isinstance(x, (pd.Series, pd.DataFrame)):
                out.that(type(y) is type(x) and axes(y) == axes(x), "axes", f"{what} lost its axes: {y}")
            z = g(y)
            out.that(np.allclose(np.asarray(z, float), a, rtol=1e-12, atol=0), "inverse", lambda: f"{what} converted back is {z}")
            out.state(case["f"], name, gi)
    # the four quantities agree with each other
    for lb in GRIDS[0] + GRIDS[1]:
        e = elli.conversion_wavelength_energy(lb)
        fr = elli.conversion_wavelength_frequency(lb)
        out.that(abs(elli.conversion_frequency2energy(fr) / e - 1) < 1e-12, "agree", f"energy and frequency of {lb} nm")
        out.that(abs(elli.conversion_wavelength_wavenumber(lb) * 100 * C / fr - 1) < 1e-12, "agree", f"wavenumber and frequency of {lb} nm")


PSI = [0.0, 1e-6, 12.3, 30, 44.999, 45.0, 60.5, 89.9]
DEL = [0.0, 1e-9, 45.0, 89.9, 90.0, 135.0, 179.99, 180.0, 181.0, 270.0, 359.9, -90.0, -180.0, 400.0]


def table(na, nl, order, cols, ints=False, drop=0):
    angles = [60.0, 50.0, 70.0, 75.0, 45.0, 65.0, 55.0][:na]
    lb = np.round(np.linspace(300, 900, nl), 3) if nl > 1 else np.array([632.8])
    rows = [(a, x) for a in sorted(angles) for x in lb]
    if order == "down":
        rows = [(a, x) for a in sorted(angles) for x in lb[::-1]]
    elif order == "angles":
        rows = [(a, x) for a in angles for x in lb]
    elif order == "repeated":  # every point measured twice or more
        rows = [rows[0]] + rows + rows[:: 2]
    elif order == "twice":
        rows = [r for r in rows for _ in (0, 1)]
    elif order == "interleaved":
        rows = [(a, x) for x in lb for a in angles]
    elif isinstance(order, (list, tuple)):
        rows = [rows[i] for i in order]
    if drop:
        rows = [r for i, r in enumerate(rows) if i % 3 != drop % 3] or rows[:1]
    n = len(rows)
    k = np.arange(n)
    psi = np.array([PSI[(3 * i + 2) % len(PSI)] + (i // len(PSI)) * 1e-5 for i in k])
    delta = np.array([DEL[(5 * i + 1) % len(DEL)] + (i // len(DEL)) * 1e-5 for i in k])
    if ints:
        psi, delta = psi.astype(int), delta.astype(int)
    df = pd.DataFrame({"Ψ": psi, "Δ": delta}, index=pd.MultiIndex.from_tuples(rows, names=["Angle of Incidence", "Wavelength"]))
    if cols == "swapped":
        df = df[["Δ", "Ψ"]]
    elif cols == "extra":
        df.insert(0, "Depol", 1.0)
        df["Intensity"] = k * 2.0
    return df


def mueller(psi, delta):
    p, d = np.radians(2 * psi), np.radians(delta)
    m = np.zeros((len(psi), 4, 4))
    m[:, 0, 0] = m[:, 1, 1] = 1
    m[:, 0, 1] = m[:, 1, 0] = -np.cos(p)
    m[:, 2, 2] = m[:, 3, 3] = np.sin(p) * np.cos(d)
    m[:, 2, 3] = np.sin(p) * np.sin(d)
    m[:, 3, 2] = -m[:, 2, 3]
    return m


def tables(case, out):
    df = table(*case["args"])
    what = f"table {case['args']}"
    copy = df.copy()
    psi, delta = df["Ψ"].to_numpy(float), df["Δ"].to_numpy(float)
    want = np.tan(np.radians(psi)) * np.exp(-1j * np.radians(delta))

    def same_axes(x, name):
        out.that(x.index.equals(copy.index) and list(x.index.names) == list(copy.index.names), "axes", lambda: f"{name} of {what}: index {x.index}")

    rho = elli.calc_rho(df)
    same_axes(rho, "calc_rho")
    r = rho.to_numpy().astype(complex)
    out.that(isinstance(rho, pd.Series) and np.allclose(r, want, rtol=1e-12, atol=1e-15), "rho", lambda: f"rho of {what}: {r}, expected {want}")
    back = np.degrees(np.arctan(np.abs(r)))
    out.that(np.allclose(back, psi, atol=1e-9), "rho-inverse", lambda: f"psi of {what} converted back is {back}")
    turn = np.abs((np.degrees(-np.angle(r)) - delta + 180) % 360 - 180)
    out.that(np.all(turn[psi > 0] < 1e-9), "rho-inverse", lambda: f"delta of {what} differs by {turn}")

    mm = elli.convert_psi_delta_to_isotropic_mueller_matrix(df)
    same_axes(mm, "Mueller matrix")
    out.that(list(mm.columns) == MCOLS, "mueller", lambda: f"columns {list(mm.columns)}")
    m = mm.to_numpy(float).reshape(-1, 4, 4)
    out.that(np.allclose(m, mueller(psi, delta), rtol=0, atol=1e-12), "mueller", lambda: f"Mueller matrix of {what}: {m[:2]}, expected {mueller(psi, delta)[:2]}")
    # a pure state: the matrix determines psi and delta
    n, c, s = -m[:, 0, 1], m[:, 2, 2], m[:, 2, 3]
    out.that(np.allclose(n * n + c * c + s * s, 1, atol=1e-12), "mueller-pure", f"Mueller matrix of {what} is not pure")
    out.that(np.allclose(np.degrees(np.arccos(np.clip(n, -1, 1))) / 2, psi, atol=1e-5), "mueller-inverse", f"psi from the Mueller matrix of {what}")
    rr = (c - 1j * s) / (1 + n)
    out.that(np.allclose(rr, want, rtol=1e-6, atol=1e-9), "mueller-inverse", lambda: f"rho from the Mueller matrix of {what}: {rr}, expected {want}")

    for ang in (case["args"][0] + 57.25, 70, 45):
        t = np.radians(ang)
        eps = np.sin(t) ** 2 * (1 + np.tan(t) ** 2 * ((1 - want) / (1 + want)) ** 2)
        ok = np.abs(1 + want) > 1e-6
        src = rho.copy()
        e1, e2, e3 = (U.calc_pseudo_diel(rho, ang), U.calc_pseudo_diel(rho, ang, "epsi"), U.calc_pseudo_diel(rho, ang, output="n"))
        for x in (e1, e2, e3):
            same_axes(x, "calc_pseudo_diel")
        a = e1["ϵ1"].to_numpy(float) + 1j * e1["ϵ2"].to_numpy(float)
        b = e2.to_numpy().astype(complex)
        n = e3["n"].to_numpy(float) + 1j * e3["k"].to_numpy(float)
        out.that(list(e1.columns) == ["ϵ1", "ϵ2"] and list(e3.columns) == ["n", "k"], "pseudo", "columns")
        for x, y in (("eps", a), ("epsi", b), ("n", n * n)):
            out.that(np.allclose(y[ok], eps[ok], rtol=1e-9, atol=1e-12), "pseudo", lambda: f"pseudo dielectric function ({x}) of {what} at {ang}: {y}, expected {eps}")
        out.that(np.all(n.real[ok] >= 0), "pseudo", lambda: f"negative pseudo index for {what}: {n}")
        out.that(rho.equals(src), "modified", "calc_pseudo_diel changed its argument")
    out.that(df.equals(copy) and list(df.columns) == list(copy.columns), "modified", f"{what} was changed")
    out.state("table", case["args"])


def bulk(case, out):
    """values computed by the library for a bare substrate convert into each other"""
    n, ang = complex(*case["n"]), case["angle"]
    for lbs in ([500.0], [700.0, 400.0, 550.0, 650.0]):
        lb = np.array(lbs)
        for layers in ([], [elli.Layer(iso(1.7), 40.0)], [elli.Layer(iso(1.46 + 0.1j), 300.0), elli.Layer(iso(2.5), 15.0)]):
            what = f"{len(layers)} films on {n} at {ang}, {lbs}"
            r = ev(elli.Structure(elli.AIR, layers, iso(n)), lb, ang)
            df = pd.DataFrame({"Ψ": np.asarray(r.psi, float), "Δ": np.asarray(r.delta, float)}, index=pd.MultiIndex.from_product([[ang], lb], names=["Angle of Incidence", "Wavelength"]))
            rho = elli.calc_rho(df)
            out.that(np.allclose(rho.to_numpy(), r.rho, rtol=1e-9, atol=1e-12), "result-rho", lambda: f"rho of {what}: {rho.to_numpy()}, result {r.rho}")
            m = elli.convert_psi_delta_to_isotropic_mueller_matrix(df).to_numpy(float).reshape(-1, 4, 4)
            out.that(np.allclose(m, np.real(r.mueller_matrix), atol=1e-9), "result-mueller", lambda: f"Mueller matrix of {what}: {m}, result {r.mueller_matrix}")
            # element-wise values and all input types of one angle
            if not layers:
                e = U.calc_pseudo_diel(rho, ang)
                out.that(np.allclose(e["ϵ1"] + 1j * e["ϵ2"], n * n, rtol=1e-7, atol=1e-9), "result-pseudo", lambda: f"pseudo dielectric function of bare {n} at {ang}: {e}")
                k = U.calc_pseudo_diel(rho, ang, "n")
                out.that(np.allclose(k["n"] + 1j * k["k"], n, rtol=1e-7, atol=1e-6), "result-pseudo", lambda: f"pseudo index of bare {n} at {ang}: {k}")
            out.state("bulk", case["n"], ang, lbs, len(layers))


def tensors(case, out):
    """index and permittivity tables of dispersions and materials, quarter wave plates"""
    for lb in (633.0, 633, np.array([400.0]), np.array([700.0, 400.0, 400.0]), np.linspace(300, 900, 65), np.array([[400.0, 500.0], [600.0, 700.0]])):
        for name, d in DISP():
            what = f"{name} at {lb}"
            eps, n = d.get_dielectric(lb), d.get_refractive_index(lb)
            out.that(np.allclose(np.asarray(n) ** 2, eps, rtol=1e-12, atol=1e-14), "index", lambda: f"{what}: index {n}, permittivity {eps}")
            if np.ndim(lb) == 1 and np.size(lb) > 0:
                for conj in (False, True):
                    s = -1 if conj else 1
                    e, k = d.get_dielectric_df(lb, conj), d.get_refractive_index_df(lb, conj)
                    out.that(np.allclose(e.index, lb) and np.allclose(k.index, lb), "axes", f"{what}: index of the tables")
                    out.that(np.allclose(e["ϵ1"] + s * 1j * e["ϵ2"], eps), "frame", lambda: f"{what} conjugate={conj}: {e}")
                    out.that(np.allclose(k["n"] + s * 1j * k["k"], n), "frame", lambda: f"{what} conjugate={conj}: {k}")
                    out.that(np.all(np.asarray(k["n"]) >= 0), "frame", "negative index")
                # tables built from the values reproduce them
                x = np.unique(lb)
                if len(x) > 1:
                    t1 = elli.Table(lbda=x, n=d.get_refractive_index(x) + 0 * x)
                    t2 = elli.TableEpsilon(lbda=x, epsilon=d.get_dielectric(x) + 0 * x)
                    out.that(np.allclose(t1.get_dielectric(x), t2.get_dielectric(x), rtol=1e-12) and np.allclose(t1.get_dielectric(x), d.get_dielectric(x), rtol=1e-12), "tables", f"tables of {what}")
            if np.ndim(lb) < 2:
                for R in (None, (30, 0, 0), (20, 50, 70)):
                    mat = d.get_mat()
                    if R:
                        mat.set_rotation(elli.rotation_euler(*R))
                    t = mat.get_tensor(lb)
                    v = np.broadcast_to(np.atleast_1d(eps), (len(t),))
                    out.that(np.allclose(t, v[:, None, None] * np.eye(3), rtol=1e-12, atol=1e-12), "tensor", lambda: f"tensor of {what}")
                if np.size(lb) == 1:
                    q = elli.get_qwp_thickness(d.get_mat(), lb)
                    out.that(np.allclose(np.asarray(q, float), np.asarray(lb) / (4 * np.ravel(np.real(n))[0])), "qwp", lambda: f"quarter wave thickness of {what}: {q}")
                    u = uni(2.0, 2.5)
                    q = elli.get_qwp_thickness(u, lb)
                    out.that(np.allclose(np.asarray(q, float), np.asarray(lb) / 8.0), "qwp", lambda: f"quarter wave thickness of a uniaxial material at {lb}: {q}")
            out.state("disp", name, repr(lb))


def DISP():
    yield "constant", elli.ConstantRefractiveIndex(n=1.5)
    yield "absorbing", elli.ConstantRefractiveIndex(n=0.2 + 3j)
    yield "Cauchy", elli.Cauchy(1.5, 50, 10, 0.01, 5)
    yield "Sellmeier", elli.Sellmeier().add(A=1.2, B=0.01)
    yield "Lorentz", elli.LorentzEnergy().add(A=3, E=3.5, gamma=0.4)
    yield "TaucLorentz", elli.TaucLorentz(Eg=2.0).add(A=50, E=4, C=1.5)
    yield "sum", elli.EpsilonInf(1.5) + elli.Gaussian().add(A=2, E=2.5, sigma=0.3)


def cases(tier):
    for f in UNITS:
        yield dict(kind="units", f=f)
    deep = tier != "quick"
    for na in (1, 2, 3, 7) if not deep else (1, 2, 3, 4, 5, 6, 7):
        for nl in (1, 2, 3, 4, 5, 64, 65, 257, 1000):
            for order in ("up", "down", "angles", "interleaved", "repeated", "twice"):
                for cols in ("plain", "swapped", "extra"):
                    for drop in (0, 1, 2):
                        if nl > 4 and (cols == "swapped" or drop == 2) and not deep:
                            continue
                        yield dict(kind="tables", args=[na, nl, order, cols, False, drop])
            yield dict(kind="tables", args=[na, nl, "up", "plain", True, 0])
    for na, nl in ((1, 4), (2, 2), (1, 6), (3, 2), (2, 3)) + (((1, 7), (7, 1)) if deep else ()):
        for perm in itertools.permutations(range(na * nl)):
            yield dict(kind="tables", args=[na, nl, list(perm), "plain", False, 0])
    ns = [complex(a, b) for a in (0.05, 0.5, 1.01, 1.33, 1.5, 2.0, 3.5, 4.0, 6.0, 10.0) for b in (0, 1e-4, 0.1, 1.0, 3.3, 6.0) if not (b == 0 and a < 1)]
    for n in ns:
        for ang in (0.5, 10, 30, 45.0, 56, 60.0, 70, 80.0, 89.0) if not deep else range(1, 90):
            yield dict(kind="bulk", n=[complex(n).real, complex(n).imag], angle=ang)
    yield dict(kind="tensors")


def check(case, out):
    {"units": units, "tables": tables, "bulk": bulk, "tensors": tensors}[case["kind"]](case, out)
    out.sample(case)
