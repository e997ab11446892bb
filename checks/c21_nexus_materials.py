"""C21: NeXus material files are read faithfully."""

import itertools
import os
import shutil
import tempfile

import h5py
import numpy as np

from elli.importer.nexus import read_nexus_materials
from mc.lab import elli

ID = "C21"
LEVEL = "exploration"
RULE = (
    "every content of one axis (single tables and formulas, all pairs and triples of them), every combination of axes and entries is written "
    "with h5py and read back; the tensors of the material are compared with the generating model. state = (axes, contents)"
)
BOUNDS = {
    "quick": "all pieces (parameters of each numeric storage type), all ordered pairs and triples of pieces per axis; all pieces on x/z and x/y/z axes; 1-3 entries",
    "thorough": "all pairs of pieces on two axes, all triples of pieces on three axes, all pairs of pairs",
}
ASSUMPTIONS = ["formula units have no scale factor", "tables of wavelengths have their values in nanometres and tables of energies in electron volts (known finding: other units are ignored)"]
CHUNK = 4
HC = 1239.8419843320026
LB = np.array([500.0, 633.0, 400.0, 799.5, 450.25, 300.0])


def tabulated(axis, vals):
    """linear interpolation over wavelength"""
    o = np.argsort(axis)
    x, y = np.asarray(axis)[o], np.asarray(vals, complex)[o]
    return lambda lb: np.interp(lb, x, y.real) + 1j * np.interp(lb, x, y.imag)


WL = {"asc": np.array([250.0, 400, 500, 610, 900]), "desc": np.array([900.0, 610, 500, 400, 250]), "mix": np.array([500.0, 250, 900, 400, 610]), "two": np.array([200.0, 1000.0]), "int": np.array([200, 500, 1000])}
EN = {"E-asc": np.array([1.2, 2.0, 2.7, 6.0]), "E-desc": np.array([6.0, 3.1, 1.0])}


def tvals(n, kind):
    i = np.arange(n)
    if kind == "gain":  # amplifying medium
        return 1.5 + 0.3 * np.cos(1.7 * i) - 0.1j * (1 + i)
    if kind == "negative":
        return -4.0 + 0.5 * i + 0.01j * i
    if kind == "metal":
        return 0.05 + 0.02 * i + 1j * (3.5 - 0.4 * i)
    if kind == "zero":
        return 0.3 * i * (1 + 0.5j)
    if kind == "small":
        return 1e-7 * (1 + i) * (1 + 0.01j)
    if kind == "mixed":
        return 1.5 + 0.1 * i + 0.2j * (-1.0) ** i
    if kind == "near":  # the usual values, changed in the seventh digit
        return tvals(n, "cplx") * (1 + 3e-7)
    v = 1.5 + 0.3 * np.cos(1.7 * i) + (0.2j * i if kind != "real" else 0)
    return v if kind != "real" else v.real


def pieces():
    """name -> (representation, writer(group), function(lbda))"""
    res = {}

    def table(name, axis, rep, kind, group=None):
        is_e = axis in EN
        ax = EN[axis] if is_e else WL[axis]
        vals = tvals(len(ax), kind) if rep == "n" else tvals(len(ax), kind) * 2

        def write(g):
            d = g.create_dataset("energy" if is_e else "wavelength", data=ax)
            d.attrs["units"] = "eV" if is_e else "nm"
            g["refractive_index" if rep == "n" else "dielectric_function"] = vals
            g["convention"] = "n + ik"
            g.attrs["NX_class"] = "NXdispersion_table"

        res[name] = (rep, write, tabulated(HC / ax if is_e else ax, vals), "T")

    for a in WL:
        table(f"Tn-{a}", a, "n", "cplx")
        table(f"Te-{a}", a, "eps", "cplx")
    for k in ("gain", "metal", "zero", "small", "mixed"):
        table(f"Tn-{k}", "asc", "n", k)
        table(f"Te-{k}", "asc", "eps", k)
    table("Tn-near", "asc", "n", "near")
    table("Te-near", "asc", "eps", "near")
    table("Te-negative", "desc", "eps", "negative")
    table("Tn-real", "asc", "n", "real")
    table("Te-real", "asc", "eps", "real")
    for a in EN:
        table(f"Tn-{a}", a, "n", "cplx")
        table(f"Te-{a}", a, "eps", "cplx")

    def formula(name, rep, text, ident, unit, single, reps, fn, scale, value=1, extra=0):
        """scale: nm -> argument of the formula"""

        def write(g):
            g["formula"] = f"{rep} = {text}"
            g["representation"] = rep
            g["wavelength_identifier"] = ident
            g["wavelength_unit"] = value
            g["wavelength_unit"].attrs["units"] = unit
            g["model_name"] = "model"
            for i, (k, v) in enumerate(single.items()):
                p = g.create_group(f"p{i}" if extra else k)
                p["name"], p["value"] = k, v
                p.attrs["NX_class"] = "NXdispersion_single_parameter"
                p["value"].attrs["units"] = ""
            for i, (k, v) in enumerate(reps.items()):
                p = g.create_group(f"r{i}" if extra else k)
                p["name"], p["values"] = k, v
                p["parameter_units"] = ["a"] * len(v)
                p.attrs["NX_class"] = "NXdispersion_repeated_parameter"
            if extra:
                g.create_group("other").attrs["NX_class"] = "NXnote"
                g["wavelength_min"] = 0.1
            g.attrs["NX_class"] = "NXdispersion_function"

        res[name] = (rep, write, lambda lb: np.asarray(fn(scale(lb))) + 0j * lb, "F")

    um, nm, ang, ev = (lambda l: l / 1e3), (lambda l: l), (lambda l: l * 10), (lambda l: HC / l)
    A, B = [0.6, 0.4], [0.11, 0.02]
    sell = lambda x: 1.1 + sum(a * x**2 / (x**2 - b**2) for a, b in zip(A, B))
    formula("F-sell-um", "eps", "e0 + sum[A * lambda ** 2 / (lambda ** 2 - B ** 2)]", "lambda", "micrometer", {"e0": 1.1}, {"A": np.array(A), "B": np.array(B)}, sell, um)
    formula("F-sell-n", "n", "sqrt(e0 + sum[A * x ** 2 / (x ** 2 - B ** 2)])", "x", "um", {"e0": 1.1}, {"A": A, "B": B}, lambda x: np.sqrt(sell(x)), um, extra=1)
    formula("F-cauchy-nm", "n", "n0 + n1 / lbda ** 2 + 1j * k", "lbda", "nanometer", {"n0": 1.45, "n1": 3000.0, "k": 0.02}, {}, lambda x: 1.45 + 3000.0 / x**2 + 0.02j, nm, value=1.0)
    formula("F-ang", "eps", "a + b * w", "w", "angstrom", {"a": 2.0, "b": 1e-4}, {}, lambda x: 2.0 + 1e-4 * x, ang)
    formula("F-eV", "eps", "a / (g ** 2 - E ** 2 - 1j * E * w)", "E", "eV", {"a": 60.0, "g": 6.5, "w": 0.3}, {}, lambda x: 60.0 / (6.5**2 - x**2 - 1j * x * 0.3), ev, extra=1)
    formula("F-poly", "eps", "sum[f * lambda ** e]", "lambda", "micrometer", {}, {"f": np.array([2.0, 0.3, -0.05]), "e": np.array([0.0, 1.0, 2.0])}, lambda x: 2 + 0.3 * x - 0.05 * x**2, um, extra=1)
    formula("F-one", "n", "n0", "lambda", "nm", {"n0": 1.7}, {}, lambda x: 1.7 + 0 * x, nm)
    formula("F-one-near", "n", "n0", "lambda", "nm", {"n0": 1.7000004}, {}, lambda x: 1.7000004 + 0 * x, nm)
    formula("F-ang-near", "eps", "a + b * w", "w", "angstrom", {"a": 2.0, "b": 1.00001e-4}, {}, lambda x: 2.0 + 1.00001e-4 * x, ang)
    formula("F-ang-um", "eps", "a + b * w", "w", "micrometer", {"a": 2.0, "b": 1e-4}, {}, lambda x: 2.0 + 1e-4 * x, um)
    formula("F-rep1", "n", "1 + sum[A * B] * lambda ** 0", "lambda", "nm", {}, {"A": [0.5], "B": [1.5]}, lambda x: 1.75 + 0 * x, nm)
    formula("F-int", "eps", "a + sum[f * lambda ** e] + b ** -2", "lambda", "micrometer", {"a": np.int64(2), "b": np.int8(2)}, {"f": np.array([100, 2], np.int8), "e": np.array([-1, 2], np.int8)}, lambda x: 2.25 + 100 / x + 2 * x**2, um)
    formula("F-f4", "n", "a * b + sum[f * f / lambda ** e]", "lambda", "micrometer", {"a": np.float32(1.5), "b": np.float32(1.1)}, {"f": np.array([0.3, 0.1], np.float32), "e": np.array([2, 4], np.int32)}, lambda x: 1.5 * float(np.float32(1.1)) + float(np.float32(0.3)) ** 2 / x**2 + float(np.float32(0.1)) ** 2 / x**4, um)
    formula("F-powers", "eps", "sum[a ** e] + s ** p", "lambda", "nm", {"s": np.uint8(200), "p": np.int16(2)}, {"a": np.array([2, 4]), "e": np.array([-1, 2])}, lambda x: 40016.5 + 0 * x, nm)
    return res


PIECES = pieces()
NAMES = list(PIECES)


def ok_combo(combo):
    reps = {PIECES[p][0] for p in combo}
    tabs = sum(PIECES[p][3] == "T" for p in combo)
    return len(reps) == 1 and tabs <= 1


def cases(tier):
    for p in NAMES:
        yield dict(axes={"x": [p]})
    for p, q in itertools.permutations(NAMES, 2):
        yield dict(axes={"x": [p, q]})
    # the same formula several times on an axis: all of them count
    forms = [n for n in NAMES if n[0] == "F"]
    for p in forms:
        yield dict(axes={"x": [p, p]})
        yield dict(axes={"x": [p, p, p]})
        yield dict(axes={"x": [p], "z": [p, p]})
        for q in forms:
            if q != p and ok_combo([p, q]):
                for c in ([p, p, q], [q, p, p], [p, q, p]):
                    yield dict(axes={"x": c})
    for p in [n for n in NAMES if n[0] == "T"]:
        yield dict(axes={"x": [p, p]})  # two tables: rejected
        yield dict(axes={"x": [p], "y": [p], "z": [p]})
    # nearly the same on the axes
    for p, q in (("Tn-asc", "Tn-near"), ("Te-asc", "Te-near"), ("F-one", "F-one-near"), ("F-ang", "F-ang-near"), ("F-ang", "F-ang-um")):
        for c in itertools.product((p, q), repeat=3):
            yield dict(axes=dict(zip("xyz", [[a] for a in c])))
        for c in itertools.product((p, q), repeat=2):
            yield dict(axes=dict(zip("xz", [[a] for a in c])))
    for p, q in itertools.product(NAMES, repeat=2):
        if tier == "thorough" or NAMES.index(p) % 3 == NAMES.index(q) % 3:
            yield dict(axes={"x": [p], "z": [q]})
            yield dict(axes={"x": [p], "y": [NAMES[(NAMES.index(p) + 4) % len(NAMES)]], "z": [q]})
    for c in itertools.permutations([n for n in NAMES if n[0] == "F"] + ["Tn-asc", "Te-asc"], 3):
        if ok_combo(c):
            yield dict(axes={"x": list(c)})
    good = [c for c in itertools.combinations(NAMES, 2) if ok_combo(c)]
    for i, c in enumerate(good):
        for k in range(len(good) if tier == "thorough" else 3):
            d = good[(i * 7 + k) % len(good)]
            yield dict(axes={"x": list(c), "z": list(d)})
            yield dict(axes={"x": list(c), "y": ["F-one"], "z": list(d)})
    if tier == "thorough":
        for c in itertools.product(NAMES, repeat=3):
            yield dict(axes=dict(zip("xyz", [[p] for p in c])))
    for k in range(3):
        yield dict(entries=k)
    yield dict(reject=1)
    yield dict(units=1)


def write_entry(e, axes, nxclass=True):
    e["definition"] = "NXdispersive_material"
    s = e.create_group("sample")
    s["chemical_formula"] = "TiO2"
    for ax, combo in axes.items():
        g = e.create_group(f"dispersion_{ax}")
        g["model_name"] = "x"
        g.create_group("plot").attrs["NX_class"] = "NXdata"
        g["plot/wavelength"] = [1.0, 2.0]
        g.create_group("reference")["text"] = "ref"
        g.attrs["NX_class"] = "NXdispersion"
        for i, p in enumerate(combo):
            PIECES[p][1](g.create_group(f"{'abc'[i]}_{p}"))


def model(combo):
    rep = PIECES[combo[0]][0]

    def eps(lb):
        v = sum(PIECES[p][2](lb) for p in combo)
        return v**2 if rep == "n" else v

    return eps


def judge(out, mat, axes, what):
    kind = {1: elli.IsotropicMaterial, 2: elli.UniaxialMaterial, 3: elli.BiaxialMaterial}[len(axes)]
    if not out.that(type(mat) is kind, "type", f"{what}: {type(mat).__name__}, expected {kind.__name__}"):
        return
    use = {1: "xxx", 2: "xxz", 3: "xyz"}[len(axes)]
    for lb in (LB, LB[:1], np.linspace(300, 790, 65)):
        got = mat.get_tensor(lb)
        exp = np.zeros((len(lb), 3, 3), complex)
        for i, a in enumerate(use):
            exp[:, i, i] = model(axes[a])(lb)
        ok = got.shape == exp.shape and np.allclose(got, exp, rtol=1e-8, atol=1e-9 * min(1, np.abs(exp).max() + 1e-300))
        out.that(ok, "value", lambda: f"{what}: tensor at {lb[:2]}: {got[:2].tolist()}, expected {exp[:2].tolist()}")
    # the documented attributes of the material
    for i, a in enumerate(axes):
        d = getattr(mat, f"dispersion_{a}")
        out.that(np.allclose(d.get_dielectric(LB), model(axes[a])(LB), rtol=1e-8), "axis", lambda: f"{what}: dispersion_{a}")


def check(case, out):
    tmp = tempfile.mkdtemp(prefix="c21-")
    path = os.path.join(tmp, "m.nxs")
    try:
        if "axes" in case:
            axes = case["axes"]
            with h5py.File(path, "w") as f:
                write_entry(f.create_group("entry"), axes)
            if not all(ok_combo(c) for c in axes.values()):
                reject(out, path, f"axes {axes}")
                return
            mats = read_nexus_materials(path)
            again = read_nexus_materials(path)
            os.unlink(path)
            what = f"axes {axes}"
            out.that(list(mats) == ["entry"], "entries", f"{what}: {list(mats)}")
            judge(out, mats["entry"], axes, what)
            # materials of several reads are independent
            d = mats["entry"].dispersion_x
            mats["entry"].set_rotation(elli.rotation_euler(10, 20, 30))
            judge(out, again["entry"], axes, what + " (second read)")
            out.state(axes)
        elif "entries" in case:
            for picks in itertools.product(["Tn-asc", "F-sell-um", "F-sell-n", "Te-desc"], repeat=case["entries"] + 1):
                names = ["entry", "Beta", "an entry 2"][: len(picks)]
                allax = {n: ({"x": [p]}, {"x": [p], "z": ["F-one"]}, {"x": ["F-one"], "y": ["F-ang"], "z": [p]})[i] for i, (n, p) in enumerate(zip(names, picks))}
                with h5py.File(path, "w") as f:
                    for n, ax in allax.items():
                        write_entry(f.create_group(n), ax)
                mats = read_nexus_materials(path)
                os.unlink(path)
                out.that(set(mats) == set(names), "entries", f"{set(mats)} instead of {names}")
                for n, ax in allax.items():
                    judge(out, mats[n], ax, f"entry {n} of {allax}")
                out.state(allax)
        elif "reject" in case:
            rejections(out, path)
        else:
            units(out, path)
        out.sample(case)
    finally:
        shutil.rmtree(tmp)


def reject(out, path, what, exc=Exception):
    try:
        m = read_nexus_materials(path)
    except exc:
        out.ev()
        out.state("reject", what)
    except Exception as e:
        out.that(False, "reject", f"{what}: raised {type(e).__name__}: {e}")
    else:
        out.that(False, "reject", f"{what}: accepted as {m}")


def rejections(out, path):
    def file(axes, edit=None):
        if os.path.exists(path):
            os.unlink(path)
        with h5py.File(path, "w") as f:
            e = f.create_group("entry")
            write_entry(e, axes)
            if edit:
                edit(e)

    def sub(e, ax="x", i="a"):
        g = e[f"dispersion_{ax}"]
        return g[[k for k in g if k.startswith(i + "_")][0]]

    for axes in ({"y": ["F-one"]}, {"z": ["F-one"]}, {"y": ["F-one"], "z": ["F-one"]}):
        file(axes)
        reject(out, path, f"no dispersion_x: {axes}", ValueError)
    for p in ("F-eV", "F-sell-n"):
        file({"x": [p]}, lambda e: sub(e).__setitem__("energy_identifier", "E"))
        reject(out, path, f"energy identifier in {p}", NotImplementedError)

        def energy_only(e):
            del sub(e)["wavelength_identifier"], sub(e)["wavelength_unit"]
            sub(e)["energy_identifier"] = "E"

        file({"x": [p]}, energy_only)
        reject(out, path, f"energy axis in {p}", NotImplementedError)

        def no_identifier(e):
            del sub(e)["wavelength_identifier"]

        file({"x": [p]}, no_identifier)
        reject(out, path, f"no axis in {p}")
    for rep in ("N", "", "k", "epsilon"):

        def edit(e):
            del sub(e)["representation"]
            sub(e)["representation"] = rep

        for p in ("F-one", "F-sell-um"):
            file({"x": [p]}, edit)
            reject(out, path, f"representation {rep!r}", ValueError)
    for p, rep in (("F-one", "eps"), ("F-sell-um", "n")):

        def edit(e):
            del sub(e)["representation"]
            sub(e)["representation"] = rep

        file({"x": [p]}, edit)
        reject(out, path, f"representation {rep!r} of formula {p}", ValueError)
    for unit in ("second", "", "1/cm", "kelvin"):

        def edit(e):
            sub(e)["wavelength_unit"].attrs["units"] = unit

        file({"x": ["F-one"]}, edit)
        reject(out, path, f"unit {unit!r}", ValueError)

    def no_axis(e):
        del sub(e)["wavelength"]

    def no_data(e):
        for k in ("refractive_index", "dielectric_function"):
            if k in sub(e):
                del sub(e)[k]

    for p in ("Tn-asc", "Te-asc"):
        file({"x": [p]}, no_axis)
        reject(out, path, "table without axis", ValueError)
        file({"x": [p]}, no_data)
        reject(out, path, "table without values", ValueError)

    def short(e):
        v = sub(e)["wavelength"][()]
        del sub(e)["wavelength"]
        sub(e)["wavelength"] = v[:-1]

    file({"x": ["Tn-asc"]}, short)
    reject(out, path, "table with different lengths")

    def ragged(e):
        del sub(e)["A"]["values"]
        sub(e)["A"]["values"] = [1.0]

    file({"x": ["F-sell-um"]}, ragged)
    reject(out, path, "repeated parameters of different lengths", ValueError)


def units(out, path):
    """tables whose axis has another unit"""
    for axis, unit, f in (("wavelength", "micrometer", 1e-3), ("wavelength", "angstrom", 10.0), ("energy", "joule", 1.602176634e-19)):
        for rep in ("n", "eps"):
            lb = np.array([250.0, 500.0, 900.0])
            stored = (HC / lb if axis == "energy" else lb) * f
            vals = tvals(3, "cplx")
            with h5py.File(path, "w") as h:
                g = h.create_group("entry/dispersion_x/table")
                g.attrs["NX_class"] = "NXdispersion_table"
                g[axis] = stored
                g[axis].attrs["units"] = unit
                g["refractive_index" if rep == "n" else "dielectric_function"] = vals
            exp = tabulated(lb, vals)(LB)
            exp = exp**2 if rep == "n" else exp
            # known finding: the numbers are taken as nanometres or electron volts
            asis = HC / stored if axis == "energy" else stored
            ign = tabulated(asis, vals)
            probe = asis.min() + (asis.max() - asis.min()) * np.array([0.1, 0.4, 0.77])
            d = read_nexus_materials(path)["entry"].dispersion_x
            try:
                got = d.get_dielectric(LB)
            except ValueError:
                got = None
            right = got is not None and np.allclose(got, exp, rtol=1e-6)
            if right:
                out.ev()
            else:
                try:
                    known = np.allclose(d.get_dielectric(probe), ign(probe) ** 2 if rep == "n" else ign(probe))
                except ValueError:
                    known = False
                out.that(False, f"table-unit-ignored:{axis}:{unit}" if known else "table-unit", f"table over {axis} in {unit} ({rep})")
            os.unlink(path)
            out.state("units", axis, unit, rep)
