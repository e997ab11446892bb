"""C14: tabulated dispersions reproduce and interpolate their data."""

import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from scipy.interpolate import CubicSpline

from mc import disp, lab
from mc.lab import elli

ID = "C14"
LEVEL = "exploration"
RULE = (
    "every table of 2 to 5 nodes over the alphabet x every order of its rows x interpolation kind x container type, "
    "queried on, between and outside the nodes; pseudo-dielectric functions of every bulk sample x angle x order; generated "
    "SpectraRay files over units, orders, headers and columns. state = one table/file; evaluation = one set of queries"
)
BOUNDS = {
    "quick": "all row orders up to 4 nodes (a third for 5), 3 value sets, 7 kinds, 5 containers; tables of up to 65537 rows; 8 bulk indices x 4 angles; 96 files",
    "thorough": "all row orders up to 5 nodes; 20 bulk indices x 8 angles; 480 files",
}
ASSUMPTIONS = ["nodes are distinct", "quadratic with more than 3 and cubic with more than 5 nodes are judged at the nodes only"]

NODES = {2: [400.0, 520.0], 3: [300.0, 450.0, 700.0], 4: [300.0, 410.0, 500.0, 900.0], 5: [250.0, 333.0, 512.0, 640.5, 900.0]}
VALS = [
    [1.5, 1.7, 1.4, 2.2, 1.9],
    [2.0 + 0.1j, 1.2 + 3j, 0.4 + 2j, 5 + 0j, 1.1 + 1e-3j],
    [1, 2, 4, 3, 5],
    [-20 + 1e-7j, 0.0, -3 + 2j, 1e-3 - 0.1j, 12.0],
    [1e4, 3e4 + 2e5j, -1e5, 0, 7],
    [1.5, 1.5, 1.5, 1.5, 1.5],
    [2e-7j, 1e-9j, 0j, 3e-7 + 0j, 1e-8j],
]
# The same tables on nearly equal and on far wavelengths
SPREAD = {"plain": lambda x: x, "near": lambda x: 500 + 1e-5 * (x - 500), "far": lambda x: (x / 100) ** 4}
KINDS = ["linear", "nearest", "zero", "previous", "next", "quadratic", "cubic"]


def cases(tier):
    for cls in ("Table", "TableEpsilon"):
        for n in NODES:
            perms = list(itertools.permutations(range(n)))
            if n == 5 and tier == "quick":
                perms = perms[::3]
            for perm in perms:
                for v in range(len(VALS)):
                    for spread in SPREAD if v < 2 or tier != "quick" else ("plain",):
                        if n == 5 and spread != "plain" and tier == "quick":
                            continue
                        yield dict(kind="table", cls=cls, n=n, perm=list(perm), v=v, spread=spread)
    for n in ((4, 5, 7) if tier == "quick" else (4, 5, 6, 7, 16, 64, 101)):
        for k in range(8 if tier == "quick" else 20):
            for ang in ([45, 60, 70.0, 80] if tier == "quick" else [30, 45, 50, 55, 60, 65, 70.0, 80]):
                yield dict(kind="pseudo", n=n, k=k, angle=ang)
    yield dict(kind="invalid")
    for n in (33, 64, 100, 101, 128, 256, 257, 500, 512, 801, 1000, 1001, 2000, 2049, 3000, 5001, 8192, 10001, 20000, 65537):
        for cls in ("Table", "TableEpsilon"):
            yield dict(kind="large", cls=cls, n=n)
    for unit in ("eV", "Wavelength"):
        for n in (2, 3, 5) if tier == "quick" else (2, 3, 4, 5, 64):
            for order in ("up", "down", "mixed"):
                for head in range(4):
                    for extra in (0, 1) if tier == "quick" else (0, 1, 2, 5):
                        yield dict(kind="file", unit=unit, n=n, order=order, head=head, extra=extra)


CHUNK = 8


def expect(kind, x, y, q):
    """Own interpolation on sorted nodes; None where the reference is not defined."""
    if kind == "linear":
        i = min(max(np.searchsorted(x, q, side="right") - 1, 0), len(x) - 2)
        w = (q - x[i]) / (x[i + 1] - x[i])
        return y[i] * (1 - w) + y[i + 1] * w
    if kind in ("zero", "previous"):
        return y[np.searchsorted(x, q, side="right") - 1]
    if kind == "next":
        return y[np.searchsorted(x, q, side="left")]
    if kind == "nearest":
        d = np.abs(x - q)
        return y[np.argmin(d)]
    if kind == "quadratic" and len(x) == 3 or kind == "cubic" and len(x) == 4:
        return sum(y[i] * np.prod([(q - x[k]) / (x[i] - x[k]) for k in range(len(x)) if k != i]) for i in range(len(x)))
    if kind == "cubic" and len(x) == 5:
        return complex(CubicSpline(x, y.real)(q), CubicSpline(x, y.imag)(q))
    return None


def check(case, out):
    out.state(case)
    if case["kind"] == "table":
        x = SPREAD[case["spread"]](np.array(NODES[case["n"]]))
        y = np.array(VALS[case["v"]][: case["n"]])
        perm = case["perm"]
        xs, ys = x[perm], y[perm]
        cls = getattr(elli, case["cls"])
        eps = case["cls"] == "TableEpsilon"
        arg = "epsilon" if eps else "n"
        yc = y.astype(complex)
        size = np.abs(yc).max()
        near = 1e-7 * size if case["spread"] == "near" else 0  # rounding of the wavelengths
        rim = 1e-3 * min(1, np.diff(x).min() / 100)
        for kind in KINDS:
            if kind == "quadratic" and case["n"] < 3 or kind == "cubic" and case["n"] < 4:
                continue
            for cont in ("array", "list", "tuple", "series", "positional"):
                if cont != "array" and kind not in ("linear", "cubic"):
                    continue
                a, b = xs.copy(), ys.copy()
                mk = {"list": list, "tuple": tuple, "series": lambda z: pd.Series(z, index=range(5, 5 + len(z)))}.get(cont, lambda z: z)
                if cont == "positional":
                    d = cls(a, b, kind=kind)
                elif kind == "linear" and cont == "list":
                    d = cls(**{"lbda": mk(a), arg: mk(b)})
                else:
                    d = cls(**{"lbda": mk(a), arg: mk(b), "kind": kind})
                get = d.get_dielectric if eps else d.get_refractive_index
                what = f"{case['cls']}({list(xs)}, {list(ys)}, kind={kind}, as {cont})"
                got = np.asarray(get(x))
                out.that(np.allclose(got, yc, rtol=1e-9, atol=1e-11 * size), f"nodes:{kind}", lambda: f"{what}: at the nodes {got}, expected {yc}")
                got = np.asarray(get(xs[::-1]))
                out.that(np.allclose(got, ys[::-1], rtol=1e-9, atol=1e-11 * size), f"nodes:{kind}", lambda: f"{what}: nodes in another order")
                q, w = [], []
                for lo, hi in zip(x[:-1], x[1:]):
                    for f in (0.25, 0.49, 0.5001, 0.9, 1e-6, 1 - 1e-6):
                        p = lo + f * (hi - lo)
                        e = expect(kind, x, yc, p)
                        if e is not None:
                            q.append(p)
                            w.append(e)
                if q:
                    got = np.asarray(get(np.array(q)))
                    out.that(np.allclose(got, w, rtol=1e-8, atol=1e-8 * size + near), f"between:{kind}", lambda: f"{what}: at {q[:6]} {got[:6]}, expected {w[:6]}")
                    one = np.ravel(get(float(q[0])))[0]
                    out.that(abs(one - w[0]) < 1e-8 * size + near, f"single:{kind}", lambda: f"{what}: at {q[0]} {one}, expected {w[0]}")
                for p in (x[0] - rim, x[-1] + rim, x[0] - 1e-9 * x[0], x[-1] + 1e-9 * x[-1], 1.0, 1e7, [x[0], x[-1] + 10]):
                    try:
                        g = get(np.atleast_1d(p))
                    except ValueError:
                        out.ev()
                    else:
                        out.that(bool(np.isnan(np.ravel(g)[-1])), f"outside:{kind}", lambda: f"{what}: outside of the table at {p} it returns {g}")
                # own wavelengths are the default range
                got = np.asarray(get())
                out.that(got.shape == ys.shape and np.allclose(got, ys), f"default:{kind}", lambda: f"{what}: default range gives {got}, expected {ys}")
                df = d.get_dielectric_df() if eps else d.get_refractive_index_df()
                cols = df.to_numpy()
                out.that(np.array_equal(df.index.to_numpy(float), xs) and np.allclose(cols[:, 0] + 1j * cols[:, 1], ys), f"frame:{kind}", lambda: f"{what}: table of the default range")
                both = np.asarray(d.get_dielectric(x))
                out.that(np.allclose(both, yc if eps else yc**2, rtol=1e-9, atol=1e-9), f"permittivity:{kind}", lambda: f"{what}: permittivity {both}")
                n = np.asarray(d.get_refractive_index(x))
                out.that(np.allclose(n**2, yc if eps else yc**2, rtol=1e-9, atol=1e-9) and (not eps or bool(np.all(n.real >= 0))), f"index:{kind}", lambda: f"{what}: index {n}")
                ten = d.get_mat().get_tensor(x)
                out.that(np.allclose(ten[:, 2, 2], yc if eps else yc**2, rtol=1e-9, atol=1e-9), f"material:{kind}", lambda: f"{what}: tensor")
                if eps:
                    i = d.as_index()
                    out.that(np.allclose(np.asarray(i.get_refractive_index(x)) ** 2, yc), f"as_index:{kind}", lambda: f"{what}: as_index")
                    g = np.asarray(i.get_refractive_index())
                    out.that(g.shape == ys.shape and np.allclose(g**2, ys), f"as_index:{kind}", lambda: f"{what}: default range of as_index gives {g}")
                out.that(np.array_equal(a, xs) and np.array_equal(b, ys), "input", f"{what}: the given arrays were modified")
                if cont == "array":
                    before = np.array(get(x))
                    b[:] = 77
                    out.that(np.array_equal(before, get(x)), "alias", f"{what}: later changes of the given values changed the dispersion")
        out.sample(case)
        return
    if case["kind"] == "large":
        n = case["n"]
        x = np.linspace(200, 1000, n)
        y = 1.5 + 0.3 * np.sin(x / 50) + 0.2j * np.cos(x / 90) ** 2
        order = np.argsort((np.arange(n) * 37) % n, kind="stable")
        for o in (np.arange(n), np.arange(n)[::-1], order):
            d = getattr(elli, case["cls"])(x[o], y[o])
            get = d.get_dielectric if case["cls"] == "TableEpsilon" else d.get_refractive_index
            out.that(np.allclose(get(x), y, rtol=1e-10), "large:nodes", f"{n} nodes: values at the nodes")
            q = (x[1:] + 2 * x[:-1]) / 3
            out.that(np.allclose(get(q), (y[1:] + 2 * y[:-1]) / 3, rtol=1e-10), "large:between", f"{n} nodes: values between the nodes")
            eps = case["cls"] == "TableEpsilon"
            g = np.asarray(get())
            out.that(g.shape == (n,) and np.allclose(g, y[o], rtol=1e-10), "large:default", f"{n} nodes: default range has {g.shape}")
            g = np.asarray((d.get_refractive_index if eps else d.get_dielectric)())
            out.that(g.shape == (n,) and np.allclose(g**2 if eps else g, y[o] if eps else y[o] ** 2, rtol=1e-10), "large:default", f"{n} nodes: default range, other quantity")
            df = d.get_dielectric_df() if eps else d.get_refractive_index_df()
            v = df.to_numpy()
            out.that(len(df) == n and np.array_equal(df.index.to_numpy(float), x[o]) and np.allclose(v[:, 0] + 1j * v[:, 1], y[o], rtol=1e-10), "large:frame", f"{n} nodes: frame of the default range")
            t = d.get_mat().get_tensor(x[o])[:, 1, 1]
            out.that(np.allclose(t, y[o] if eps else y[o] ** 2, rtol=1e-10), "large:tensor", f"{n} nodes: tensor")
        return
    if case["kind"] == "invalid":
        for cls, arg in (("Table", "n"), ("TableEpsilon", "epsilon")):
            c = getattr(elli, cls)
            x, y = np.array([300.0, 400.0, 500.0]), np.array([1.0, 2.0, 3.0])
            bad = [
                dict(), dict(lbda=x), {arg: y}, {"lbda": [], arg: []}, {"lbda": x, arg: y[:2]}, {"lbda": x[:2], arg: y},
                {"lbda": x, arg: y, "foo": 1}, {"lbda": x, arg: []}, {"lbda": x, arg: y, "kind": "nonsense"},
                {"lbda": x[:1], arg: y}, {"lbda": x, "epsilon" if arg == "n" else "n": y},
            ]
            for kw in bad:
                try:
                    c(**kw)
                except Exception:
                    out.ev()
                else:
                    out.that(False, f"invalid:{cls}", f"{cls}({kw}) was accepted")
        for kw in (dict(), dict(angle=70), dict(angle=70, lbda=np.arange(5.0), psi=np.arange(5.0)), dict(angle=70, psi=np.arange(5.0), delta=np.arange(5.0))):
            try:
                elli.PseudoDielectricFunction(**kw)
            except Exception:
                out.ev()
            else:
                out.that(False, "invalid:pseudo", f"PseudoDielectricFunction({list(kw)}) was accepted")
        return
    if case["kind"] == "pseudo":
        n, k, ang = case["n"], case["k"], case["angle"]
        x = np.linspace(300, 800, n) + 7 * np.sin(np.arange(n))
        nk = (1.2 + 0.35 * (k % 7) + 0.4 * np.sin(x / 60 + k)) + 1j * (0.02 + 0.6 * (k % 5) + 0.3 * np.cos(x / 90) ** 2)
        eps = nk**2
        # reflection of the bulk, from Fresnel's equations
        th = np.radians(ang)
        ct = np.sqrt(1 - (np.sin(th) / nk) ** 2 + 0j)
        rp = (nk * np.cos(th) - ct) / (nk * np.cos(th) + ct)
        rs = (np.cos(th) - nk * ct) / (np.cos(th) + nk * ct)
        rho = rp / rs
        psi, delta = np.degrees(np.arctan(np.abs(rho))), -np.degrees(np.angle(rho))
        for order in (np.arange(n), np.arange(n)[::-1]):
            for shift in (0, 360):
                a = [x[order].copy(), psi[order].copy(), (delta + shift)[order].copy()]
                d = elli.PseudoDielectricFunction(angle=ang, lbda=a[0], psi=a[1], delta=a[2])
                got = np.asarray(d.get_dielectric(x))
                out.that(np.allclose(got, eps, rtol=1e-8), "pseudo", lambda: f"pseudo-dielectric function of a bulk with {eps[:3]} at {ang} deg is {got[:3]}")
                got = np.asarray(d.get_dielectric())
                out.that(got.shape == eps.shape and np.allclose(got, eps[order], rtol=1e-8), "pseudo:default", "default range of a pseudo-dielectric function")
                out.that(np.array_equal(a[0], x[order]) and np.array_equal(a[1], psi[order]) and np.array_equal(a[2], (delta + shift)[order]), "pseudo:input", "the measurement was modified")
                mid = x[: -1] + np.diff(x) / 2
                want = CubicSpline(x, eps)(mid)
                out.that(np.allclose(d.get_dielectric(mid), want, rtol=1e-6), "pseudo:between", "cubic interpolation of a pseudo-dielectric function")
                n_ = np.asarray(d.get_refractive_index(x))
                out.that(np.allclose(n_**2, eps, rtol=1e-8), "pseudo:index", "index of a pseudo-dielectric function")
                try:
                    d + 1
                    out.that(False, "pseudo:add", "a pseudo-dielectric function was added")
                except NotImplementedError:
                    out.ev()
                r = elli.Structure(lab.iso(1), [], d.get_mat()).evaluate(x, ang)
                dd = np.abs((r.delta - delta + 180) % 360 - 180)
                out.that(np.allclose(r.psi, psi, atol=1e-6) and dd.max() < 1e-6, "pseudo:bulk", "the bulk of a pseudo-dielectric function does not reproduce the measurement")
        return
    # SpectraRay files
    n = case["n"]
    base = np.linspace(1.3, 4.4, n) if case["unit"] == "eV" else np.linspace(290.0, 910.0, n)
    e1 = np.round(3 + np.sin(np.arange(n) * 1.3) * 4, 5)
    e2 = np.round(0.5 + np.arange(n) * 0.37, 5)
    order = {"up": np.arange(n), "down": np.arange(n)[::-1], "mixed": np.argsort((np.arange(n) * 2 + 1) % (n + (n % 2 == 0)), kind="stable")}[case["order"]]
    head = [
        ["[SpectraRay]", "Name=test", f"Units={case['unit']},E1E2", "Begin of array"],
        ["\u03b5 table", "", "Comment=Units are below", f"Units={case['unit']},E1E2", "NDat=3", "Begin of array"],
        ["x", f"Units={case['unit']},E1E2,1.0", "some text", "1.0 2.0 3.0", "", "  Begin of array  "],
        ["x"] * 20 + [f"Units={case['unit']},e", "Begin of array"],
    ][case["head"]]
    rows = []
    for i in order:
        sep = ["\t", " ", "   "][(i + case["head"]) % 3]
        rows.append(sep.join([f"{base[i]:.6f}", f"{e1[i]:.5f}", f"{e2[i]:.5f}"] + ["9.0"] * case["extra"]))
    tail = ["End of array"] + [[], ["1 2 3"], ["foo", "4 5 6"], []][case["head"]]
    d = tempfile.mkdtemp(prefix="c14_")
    try:
        with open(os.path.join(d, "a.mat"), "w", encoding="utf8") as f:
            f.write("\n".join(head + rows + tail) + ("\n" if case["head"] != 2 else ""))
        t = elli.TableSpectraRay(d + "/").load_dispersion_table("a.mat")
    finally:
        shutil.rmtree(d)
    x = np.round(base, 6)
    lb = disp.energy(x) if case["unit"] == "eV" else x
    inner = np.clip(lb, lb.min() * (1 + 1e-12), lb.max() * (1 - 1e-12))
    got = np.asarray(t.get_dielectric(inner))
    want = e1 + 1j * e2
    out.that(np.allclose(got, want, rtol=1e-6, atol=1e-6), f"file:{case['unit']}", lambda: f"file {case}: {got[:4]} at {lb[:4]} nm, expected {want[:4]}")
    got = np.asarray(t.get_dielectric())
    out.that(got.shape == want.shape and np.allclose(got, want[order], rtol=1e-6, atol=1e-6), "file:default", lambda: f"file {case}: default range")
    for p in (lb.min() - 1, lb.max() + 1):
        try:
            t.get_dielectric(np.array([p]))
            out.that(False, "file:outside", f"file {case}: value outside")
        except ValueError:
            out.ev()
