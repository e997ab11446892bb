"""C20: measurement files are read back exactly."""

import cmath
import itertools
import logging
import math
import os
import pathlib
import shutil
import tempfile

import h5py
import numpy as np

from mc.lab import elli

logging.disable(logging.CRITICAL)

ID = "C20"
LEVEL = "exploration"
RULE = (
    "every small data set of the alphabet (angles x wavelengths x row order x number format x unit x header x extra rows x line ends) is "
    "written in each file format and read with the real importer; the returned table has to be the data set. state = (format, options, shape)"
)
BOUNDS = {
    "quick": "1-3 angles x {1,2,3,5} wavelengths (and 64, 65, 257, 1001, 2049) x 6 row orders (repeated measurements, extreme axes) x formats and options of each file type x text encodings",
    "thorough": "1-4 angles x {1,2,3,4,5,8} wavelengths (and 64, 65, 257, 1000, 1001, 2049, 9000) x 8 row orders, all options",
}
ASSUMPTIONS = [
    "repeated wavelengths are part of the line based formats (Woollam, Accurion), not of the grid based ones",
    "Woollam Delta values and NeXus Delta values are returned as stored; Accurion and SpectraRay Delta as the same angle within [-180, 180]",
]
CHUNK = 1

PSI = [0.0, 45.0, -0.0123, 90.0, 12.3456789012, 89.999, 1e-5, 30.5, 7.0, 0.25]
DEL = [0.0, 180.0, -180.0, 90.5, 270.25, 359.9, -89.75, 12.0123456789, 1e-4, -0.001, 181.0]


def dataset(na, nw, order, odd=0):
    """rows (aoi, wl, psi, delta) in file order; wl in nm"""
    aois = [[50.0], [65.0, 70.5], [70.0, 50.2, 60.06], [40, 45.5, 55, 75]][na - 1]
    wl = [190.13558, 300.0, 1000.0, 412.5, 2100.25, 999.9, 500.0, 633.0][:nw] if nw <= 8 else [200 + 3.25 * i for i in range(nw)]
    if order == "wide":
        aois, wl = [0.0, 90.0, 5.5, 89.9][:na], [33333.3, 1.25, 121.6, 10600.0, 0.5, 8000.25, 99.99, 2e5][:nw] if nw <= 8 else wl
    rows = [(a, w) for a in aois for w in wl]
    if order == "wavelength":
        rows = [(a, w) for w in wl for a in aois]
    elif order == "sorted":
        rows = sorted(rows)
    elif order == "reversed":
        rows = sorted(rows, reverse=True)
    elif order == "odd":  # some pairs are not measured
        rows = [r for i, r in enumerate(rows) if i % 3 != 1]
    elif order == "twice":  # repeated measurements at the same angle and wavelength
        rows = [r for i, r in enumerate(rows) for _ in range(1 + (i % 2 == 0))] + rows[:2]
    elif order == "zip":
        rows = sorted(rows, key=lambda r: (r[0] * 7 + r[1] * 3) % 11)
    return [(a, w, PSI[(i * 5 + int(a)) % len(PSI)], DEL[(i * 7 + int(w) + odd) % len(DEL)]) for i, (a, w) in enumerate(rows)]


FMT = {"f6": "%.6f", "g": "%.10g", "e": "%.11e", "f1": "%.1f", "s": "%+.5f"}


def q(fmt, x):
    """text and the value this text has"""
    t = FMT[fmt] % x
    if fmt == "g":
        t = t[1:] if t.startswith("0.") else t
    return t


def orders(tier):
    return ["given", "wavelength", "reversed", "odd", "wide", "twice"] + (["sorted", "zip"] if tier == "thorough" else [])


def sizes(tier):
    if tier == "quick":
        return [(a, w) for a in (1, 2, 3) for w in (1, 2, 3, 5)] + [(1, 64), (2, 65), (3, 257), (1, 1001), (2, 2049)]
    return [(a, w) for a in (1, 2, 3, 4) for w in (1, 2, 3, 4, 5, 8)] + [(1, 64), (2, 65), (3, 257), (1, 1001), (2, 2049), (4, 1000), (4, 9000)]


KINDS = ["wvase", "ease", "accurion", "spectra", "mueller", "nexus", "nxopt"]


def cases(tier):
    for k in KINDS:
        for a, w in sizes(tier):
            yield dict(kind=k, na=a, nw=w, tier=tier)
    for a in (1, 2, 3):
        for fmt in ("wvase", "ease", "accurion", "spectra", "mueller"):
            yield dict(kind="encode", fmt=fmt, na=a, tier=tier)
    yield dict(kind="reject")


def check(case, out):
    tmp = tempfile.mkdtemp(prefix="c20-")
    try:
        globals()["k_" + case["kind"]](case, out, tmp)
    finally:
        shutil.rmtree(tmp)
    out.sample(case)


def turn(row):
    a, w, p, d = row
    return (a, w, p, round(d % 360, 6) % 360)


def judge(out, df, rows, what, wrap, value=None):
    """rows: list of (aoi, wl_nm, psi, delta) with the values written in the file"""
    names = list(df.index.names)
    out.that(names == ["Angle of Incidence", "Wavelength"], "index", lambda: f"{what}: index {names}")
    out.that(sorted(df.columns) == ["Δ", "Ψ"], "columns", lambda: f"{what}: columns {list(df.columns)}")
    try:
        got = sorted(((float(a), float(w), float(p), float(d)) for (a, w), p, d in zip(df.index, df["Ψ"], df["Δ"])), key=turn)
    except Exception as e:
        out.fail("type", f"{what}: {type(e).__name__} {e}: {df}")
        return
    out.that(all(isinstance(a, (int, float, np.number)) and isinstance(w, (int, float, np.number)) for a, w in df.index) and all(df[c].dtype.kind in "if" for c in df.columns), "type", lambda: f"{what}: not numeric {df.index[:2]} {df.dtypes}")
    exp = sorted(rows, key=turn)
    if not out.that(len(got) == len(exp), "rows", lambda: f"{what}: {len(got)} rows instead of {len(exp)}"):
        return
    if len(got) > 1000:  # the same comparisons, vectorised
        G, E = np.array(got).reshape(-1, 4), np.array(exp).reshape(-1, 4)
        d = (G[:, 3] - E[:, 3] + 180) % 360 - 180 if wrap else G[:, 3] - E[:, 3]
        rng = np.abs(G[:, 3]) <= 180 + 1e-9 if wrap else True
        if np.all(np.abs(G[:, :2] - E[:, :2]) <= 1e-9 * np.abs(E[:, :2])) and np.all(np.abs(G[:, 2] - E[:, 2]) < 1e-9) and np.all((np.abs(d) < 1e-9) & rng):
            out.ev(2 * len(got))
            got, exp = got[::97], exp[::97]
    for g, e in zip(got, exp):
        ok = abs(g[0] - e[0]) <= 1e-9 * abs(e[0]) and abs(g[1] - e[1]) <= 1e-9 * abs(e[1]) and abs(g[2] - e[2]) < 1e-9
        if not out.that(ok, "value", lambda: f"{what}: row {g}, the file has {e}"):
            return
        if wrap:
            d = (g[3] - e[3] + 180) % 360 - 180
            ok = abs(d) < 1e-9 and -180 - 1e-9 <= g[3] <= 180 + 1e-9
        else:
            ok = abs(g[3] - e[3]) < 1e-9
        if not out.that(ok, "delta", lambda: f"{what}: Delta {g[3]}, the file has {e[3]} (row {e})"):
            return
    # an angle is selected by its value
    for a in sorted({r[0] for r in rows}):
        sel = df.loc[a]
        ws = sorted(r[1] for r in rows if r[0] == a)
        out.that(np.allclose(sorted(np.asarray(sel.index, float)), ws), "select", lambda: f"{what}: angle {a} has wavelengths {list(sel.index)}, expected {ws}")


def order(item):
    """by angle, wavelength and (for repeated measurements) modulus and phase; both nearly exact"""
    return (item[0], round(abs(item[1]), 6), round(item[1].real, 6))


def judge_rho(out, rho, rows, what):
    try:
        got = sorted((((float(a), float(w)), complex(z)) for (a, w), z in zip(rho.index.tolist(), rho.to_numpy().tolist())), key=order)
    except Exception as e:
        out.fail("rho", f"{what}: {type(e).__name__} {e}")
        return
    exp = sorted((((a, w), math.tan(math.radians(p)) * cmath.exp(-1j * math.radians(d))) for a, w, p, d in rows), key=order)
    ok = len(got) == len(exp) and all(math.isclose(g[0][0], e[0][0], rel_tol=1e-7) and math.isclose(g[0][1], e[0][1], rel_tol=1e-7) and abs(g[1] - e[1]) <= 1e-9 * (1 + abs(e[1])) for g, e in zip(got, exp))
    out.that(ok, "rho", lambda: f"{what}: rho {got[:3]}, expected {exp[:3]}")


def write(path, text, encoding="utf-8", newline="\n"):
    with open(path, "wb") as f:
        f.write(text.replace("\n", newline).encode(encoding))
    return path


# ---------------------------------------------------------------- Woollam

HC = 1239.8419843320026
UNITS = {"nm": 1.0, "Angstroms": 0.1, "angstrom": 0.1, "um": 1e3}
HEADS = [["Sample"], ["Glas substrate with tape, AR high", "VASEmethod[EllipsometerType=5, Isotropic, 3.5]", "Original[glas_e1.dat]"], ["12 nm SiO2 on Si 3", "1 2 3", ""], ["SiO2+AlN-Si T+100-20", "~{a~}"], ["Dicke 30 µm, 20 °C"]]


def woollam(case, out, tmp, ease):
    full = case["tier"] == "thorough"
    big = case["nw"] > 10
    huge = case["nw"] > 1000
    units = list(UNITS) + ["eV", "cubits"]
    for order, fmt, unit, head, extra, nl in itertools.product(orders(case["tier"]), FMT, units, range(len(HEADS)), (0, 1, 2, 3), ("\n", "\r\n")):
        if not full and (head, nl) not in ((0, "\n"), (1, "\n"), (2, "\r\n"), (3, "\n"), (4, "\n")):
            continue
        if not full and head and fmt not in ("f6", "g"):
            continue
        if huge and (fmt != "f6" or nl != "\n" or order not in ("given", "reversed") or (extra >= 2 and unit != "nm")):
            continue
        if extra == 3 and fmt != "f6":
            continue
        if big and (head or unit not in ("nm", "Angstroms") or fmt not in ("f6", "g")):
            continue
        if not full and unit in ("eV", "cubits", "um") and (fmt != "f6" or order != "given"):
            continue
        data = dataset(case["na"], case["nw"], order)
        if not data:
            continue
        scale = UNITS.get(unit, 1.0)
        body, rows = [], []
        for i, (a, w, p, d) in enumerate(data):
            # the fourth layout mixes the number formats within the file
            f = ("f6", "g", "e", "s")[(i + i // 3) % 4] if extra == 3 else fmt
            t = [q(f, x) for x in (HC / w if unit == "eV" else w / scale, a, p, d, 0.01 * i, 0.5)]
            v = [float(x) for x in t]
            body.append("\t".join((["E"] if ease else []) + t))
            rows.append((v[1], HC / v[0] if unit == "eV" else v[0] * scale, v[2], v[3]))
        dep = []
        for i, (a, w, p, d) in enumerate(data):
            tag = "m34" if extra == 3 else "dPolE" if ease else "dpolE"
            dep.append("\t".join([tag, q(fmt, HC / w if unit == "eV" else w / scale), q(fmt, a), q(fmt, -0.01 * i), q(fmt, 0.02)]))
            if ease:
                dep.append("\t".join(["mm12" if extra == 3 else "uR", q(fmt, HC / w if unit == "eV" else w / scale), q(fmt, a), q(fmt, 0.3), q(fmt, 0.001)]))
        if extra == 1:
            body = body + dep
        elif extra >= 2:
            body = [body[0]] + [x for pair in itertools.zip_longest(dep, body[1:]) for x in pair if x is not None]
        if extra == 3 and not ease:
            body.append("Interim 5")
        what = f"{'CompleteEASE' if ease else 'WVASE'} file {order}/{fmt}/{unit}/header {head}/extra {extra}/{nl!r}"
        path = write(os.path.join(tmp, "m.dat"), "\n".join(HEADS[head] + [unit] + body) + ("\n" if nl == "\n" else ""), "latin-1" if head == 4 else "utf-8", nl)
        judge(out, elli.read_woollam_psi_delta(path), rows, what, False)
        judge_rho(out, elli.read_woollam_rho(path), rows, what)
        out.state(ease, order, fmt, unit, head, extra, nl, case["na"], case["nw"])


def k_wvase(case, out, tmp):
    woollam(case, out, tmp, False)


def k_ease(case, out, tmp):
    woollam(case, out, tmp, True)


# ---------------------------------------------------------------- Accurion


def k_accurion(case, out, tmp):
    for order, fmt, enc, cols in itertools.product(orders(case["tier"]), ("f6", "g", "e"), ("latin-1", "utf-8"), (0, 1)):
        if case["nw"] > 1000 and (fmt != "f6" or enc != "latin-1" or cols or order == "odd"):
            continue
        data = dataset(case["na"], case["nw"], order, 3)
        if not data:
            continue
        names = ["#ROIidx", "AOI", "Lambda", "Bandwidth", "ExposureTime", "ROI_x", "ROI_y", "Delta", "Psi"]
        units = ["#-", "deg", "nm", "nm", "µs", "µm", "µm", "deg", "deg"]
        if cols:  # other column order
            perm = [0, 8, 2, 1, 7, 3, 4, 5, 6]
            names, units = [names[i] for i in perm], [units[i] for i in perm]
        rows, text = [], ["\t".join(names) + "\t", "\t".join(units) + "\t"]
        for i, (a, w, p, d) in enumerate(data):
            rec = {"#ROIidx": "0", "AOI": q(fmt, a), "Lambda": q(fmt, w), "Bandwidth": "6.1", "ExposureTime": str(1000 + i), "ROI_x": "417.6", "ROI_y": "409.8", "Delta": q(fmt, d), "Psi": q(fmt, p)}
            text.append("\t".join(rec[n] for n in names) + "\t")
            rows.append(tuple(float(rec[n]) for n in ("AOI", "Lambda", "Psi", "Delta")))
        path = write(os.path.join(tmp, "m.ds.dat"), "\n".join(text) + "\n", enc, "\r\n")
        what = f"Accurion file {order}/{fmt}/{enc}/columns {cols}"
        judge(out, elli.read_accurion_psi_delta(path), rows, what, True)
        out.state("accurion", order, fmt, enc, cols, case["na"], case["nw"])


# ---------------------------------------------------------------- SpectraRay


def grid(case, order):
    """angles, wavelengths and the full table, in file order"""
    data = dataset(case["na"], case["nw"], "wide" if order == "wide" else "given", 5)
    aois, wls = [], []
    for a, w, _, _ in data:
        if a not in aois:
            aois.append(a)
        if w not in wls:
            wls.append(w)
    if order == "reversed":
        aois, wls = aois[::-1], wls[::-1]
    elif order == "sorted":
        aois, wls = sorted(aois), sorted(wls)
    elif order == "wavelength":
        wls = sorted(wls)
    elif order == "odd":
        wls = wls[len(wls) // 2 :] + wls[: len(wls) // 2]
        aois = aois[1:] + aois[:1]
    return aois, wls, {(a, w): (p, d) for a, w, p, d in data}


def k_spectra(case, out, tmp):
    for order, fmt, sep, dec, trail, nl in itertools.product(orders(case["tier"]), ("f6", "g", "e"), (None, r"\s+", " ", "\t"), (".", ","), (0, 1), ("\n", "\r\n")):
        if case["nw"] > 1000 and (fmt != "f6" or sep == " " or dec != "." or trail or nl != "\n"):
            continue
        aois, wls, tab = grid(case, order)
        s = sep if sep in (" ", "\t") else " "
        num = lambda x: q(fmt, x).replace(".", dec)
        val = lambda x: float(q(fmt, x))
        head = s.join([";", "WAVELENGTH"] + [num(a) for a in aois for _ in (0, 1)])
        lines, rows = [head], []
        for w in wls:
            lines.append(s.join([num(w)] + [num(x) for a in aois for x in tab[a, w]]) + (s if trail else ""))
            rows += [(val(a), val(w), val(tab[a, w][0]), val(tab[a, w][1])) for a in aois]
        path = write(os.path.join(tmp, "m.txt"), "\n".join(lines) + "\n", newline=nl)
        kw = {}
        if sep is not None:
            kw["sep"] = sep
        if dec != ".":
            kw["decimal"] = dec
        what = f"SpectraRay file {order}/{fmt}/{sep!r}/{dec}/trailing {trail}/{nl!r}"
        df = elli.read_spectraray_psi_delta(path, **kw)
        judge(out, df, rows, what, True)
        out.that(df.index.is_monotonic_increasing and list(df.columns) == ["Ψ", "Δ"], "sorted", lambda: f"{what}: not sorted")
        judge_rho(out, elli.read_spectraray_rho(path, **kw), rows, what)
        if sep is not None:
            judge_rho(out, elli.read_spectraray_rho(path, sep, dec), rows, what)
        out.state("spectra", order, fmt, str(sep), dec, trail, nl, case["na"], case["nw"])


def k_mueller(case, out, tmp):
    if case["na"] != 1:
        return
    names = [f"M{i}{k}" for i in range(1, 5) for k in range(1, 5)]
    for order, fmt, sep, dec, nl in itertools.product(orders(case["tier"]), ("f6", "g", "e", "s"), (None, r"\s+"), (".", ","), ("\n", "\r\n")):
        if case["nw"] > 1000 and (fmt != "f6" or dec != "." or nl != "\n"):
            continue
        aois, wls, _ = grid(case, order)
        num = lambda x: q(fmt, x).replace(".", dec)
        lines = [" ".join(["; WAVELENGTH"] + [num(aois[0]) + ("" if j == 0 else "") for j in range(16)])]
        exp = []
        for i, w in enumerate(wls):
            m = [1.0] + [math.cos(0.7 * i + 1.3 * j) for j in range(1, 16)]
            lines.append(" ".join([num(w)] + [num(x) for x in m]) + " ")
            exp.append((float(q(fmt, w)), [float(q(fmt, x)) for x in m]))
        path = write(os.path.join(tmp, "m.txt"), "\n".join(lines) + "\n", newline=nl)
        kw = {} if sep is None else {"sep": sep}
        if dec != ".":
            kw["decimal"] = dec
        df = elli.read_spectraray_mmatrix(path, **kw)
        what = f"Mueller file {order}/{fmt}/{sep!r}/{dec}/{nl!r}"
        out.that(list(df.columns) == names and df.index.name == "Wavelength", "columns", lambda: f"{what}: {list(df.columns)} {df.index.name}")
        out.that(np.allclose(np.asarray(df.index, float), [w for w, _ in exp], rtol=1e-10), "mueller:index", lambda: f"{what}: {list(df.index)[:4]}")
        got = df.to_numpy()
        out.that(got.shape == (len(exp), 16) and got.dtype.kind == "f" and np.allclose(got, [m for _, m in exp], atol=1e-9), "mueller:value", lambda: f"{what}: {got[:2]}")
        for n, j in (("M11", 0), ("M12", 1), ("M21", 4), ("M34", 11), ("M43", 14), ("M44", 15)):
            out.that(np.allclose(np.asarray(df[n], float), [m[j] for _, m in exp], atol=1e-9), "mueller:element", lambda: f"{what}: {n}")
        out.state("mueller", order, fmt, str(sep), dec, nl, case["nw"])


# ---------------------------------------------------------------- text encodings

ENC = ["ascii", "latin-1", "cp1252", "utf-8", "utf-8-sig", "utf-16", "utf-32"]
WORDS = ["WAVELENGTH", "Wellenlänge/µm", "WELLENLÄNGE", "λ", "Länge—“x”", "Größe30µm20°C"]


def k_encode(case, out, tmp):
    fmt, big = case["fmt"], case["tier"] == "thorough"
    for enc, word, nw, last, nl, form in itertools.product(ENC, WORDS, (1, 2, 5), (0, 1), ("\n", "\r\n"), range(3)):
        try:
            word.encode(enc)
        except UnicodeError:
            continue
        if not big and ((form and nl != "\n") or (nw == 2 and nl != "\n")):
            continue
        aois, wls, tab = grid(dict(na=case["na"], nw=nw), "given")
        rows, lines = [], []
        if fmt == "spectra":
            lines = [" ".join([";", word] + ["%g" % a for a in aois for _ in (0, 1)])]
            for w in wls:
                lines.append(" ".join(["%.15g" % w] + ["%.15g" % x for a in aois for x in tab[a, w]]))
        elif fmt == "mueller":
            lines = [" ".join([";", word] + ["%g" % aois[0]] * 16)]
            exp = [[float("%.9f" % math.cos(0.7 * i + 1.3 * j)) for j in range(16)] for i in range(nw)]
            for w, m in zip(wls, exp):
                lines.append(" ".join(["%.15g" % w] + ["%.9f" % x for x in m]) + " ")
        elif fmt == "accurion":
            lines = ["#ROIidx\tAOI\tLambda\tBandwidth\tDelta\tPsi\t", f"#-\tdeg\tnm\t{word}\tdeg\tdeg\t"]
            lines += ["\t".join(["0"] + ["%.15g" % x for x in (a, w, 6.1, tab[a, w][1], tab[a, w][0])]) + "\t" for a in aois for w in wls]
        else:
            lines = [word, "VASEmethod[EllipsometerType=5, Isotropic, 3.5]", "Original[x.dat]", "nm"]
            tag = ["E"] if fmt == "ease" else []
            lines += ["\t".join(tag + ["%.15g" % x for x in (w, a, *tab[a, w], 0.01, 0.02)]) for a in aois for w in wls]
        rows = [(float(a), w, *tab[a, w]) for a in aois for w in wls]
        path = write(os.path.join(tmp, "mé 1.txt" if form == 2 else "m.txt"), "\n".join(lines) + ("\n" if last else ""), enc, nl)
        if form == 1:
            path = pathlib.Path(path)
        what = f"{fmt} file, {enc}, word {word}, {nw} wavelengths, final newline {last}, {nl!r}, name {path!r}"
        try:
            if fmt == "spectra":
                judge(out, elli.read_spectraray_psi_delta(path), rows, what, True)
                judge_rho(out, elli.read_spectraray_rho(path), rows, what)
            elif fmt == "mueller":
                df = elli.read_spectraray_mmatrix(path)
                ok = df.shape == (nw, 16) and np.allclose(np.asarray(df.index, float), wls, rtol=1e-9) and np.allclose(df.to_numpy(float), exp, atol=1e-9)
                out.that(ok, "mueller:encoding", lambda: f"{what}: {df}")
            elif fmt == "accurion":
                judge(out, elli.read_accurion_psi_delta(path), rows, what, True)
            else:
                judge(out, elli.read_woollam_psi_delta(path), rows, what, False)
                judge_rho(out, elli.read_woollam_rho(path), rows, what)
        except Exception as e:
            out.fail("encoding", f"{what}: {type(e).__name__} {e}")
        out.state("encode", fmt, enc, word, nw, last, nl, form, case["na"])


# ---------------------------------------------------------------- NeXus

H5UNITS = [(None, 0.1), ("angstrom", 0.1), ("nm", 1.0), ("nanometer", 1.0), ("um", 1e3), ("", 0.1)]


def nexus(case, out, tmp, opt):
    names = [None, ("entry", "sample", "instrument"), ("scan1", "my_sample", "ellipsometer")]
    for order, (unit, scale), gn, dt, extra in itertools.product(orders(case["tier"]), H5UNITS, range(3), ("f8", "f4"), (0, 1)):
        if (case["nw"] > 10 and gn == 2) or (case["nw"] > 1000 and (gn or dt == "f4")):
            continue
        aois, wls, tab = grid(case, order)
        e, s, ins = names[gn] or names[1]
        path = os.path.join(tmp, "m.nxs")
        wl = np.array(wls) / scale
        data = np.array([[[tab[a, w][k] for w in wls] for k in (0, 1)] for a in aois], dt)
        with h5py.File(path, "w") as f:
            if opt:
                base = f"{e}/data_collection"
                f[f"{base}/data_type"] = "Psi/Delta"
                f[f"{base}/measured_data"] = data
                ds = f.create_dataset(f"{base}/wavelength_spectrum", data=wl)
                if extra:
                    f[f"{base}/data_error"] = data * 0.01
                    f[f"{e}/{s}/sample_name"] = "SiO2"
            else:
                f[f"{e}/{s}/data_type"] = "psi/delta"
                full = np.full((1, 1 + extra) + data.shape, 7.0, dt) if extra else np.zeros((1, 1) + data.shape, dt)
                full[0, 0] = data
                f[f"{e}/{s}/measured_data"] = full
                ds = f.create_dataset(f"{e}/{ins}/spectrometer/wavelength", data=wl)
            if unit is not None:
                ds.attrs["units"] = unit
            f[f"{e}/{ins}/angle_of_incidence"] = np.array(aois, float)
            if extra:
                f["other_entry/title"] = "x"
        kw = {} if names[gn] is None else {"group_names": elli.importer.nexus.NexusGroupNames(entry=e, sample=s, instrument=ins)}
        what = f"NeXus {'NXopt' if opt else 'legacy'} file {order}/{unit}/names {names[gn]}/{dt}/{extra}"
        rows = [(a, w, float(data[i, 0, k]), float(data[i, 1, k])) for i, a in enumerate(aois) for k, w in enumerate(wls)]
        df = elli.read_nexus_psi_delta(path, **kw)
        judge(out, df, rows, what, False)
        if gn == 0:
            judge_rho(out, elli.read_nexus_rho(path), rows, what)
        out.state("nexus", opt, order, str(unit), gn, dt, extra, case["na"], case["nw"])
        os.unlink(path)


def k_nexus(case, out, tmp):
    nexus(case, out, tmp, False)


def k_nxopt(case, out, tmp):
    nexus(case, out, tmp, True)


# ---------------------------------------------------------------- rejections


def raises(out, exc, fn, what):
    try:
        r = fn()
    except exc:
        out.ev()
        return
    except Exception as e:
        out.that(False, "reject", f"{what}: raised {type(e).__name__} {e} instead of {exc}")
        return
    out.that(False, "reject", f"{what}: accepted as {r}")


def k_reject(case, out, tmp):
    p = os.path.join(tmp, "x")
    for head in (["nm  TRIG"], ["Sample", "method", "nm  TRIG"], ["Sample", "Angstroms TRIG"]):
        for rows in (["300 70  .245    .123"], ["300 70 .2 .1", "400 70 .3 -.1"]):
            write(p, "\n".join(head + rows) + "\n")
            raises(out, NotImplementedError, lambda: elli.read_woollam_psi_delta(p), f"Tan/Cos file {head}")
            raises(out, NotImplementedError, lambda: elli.read_woollam_rho(p), f"Tan/Cos file {head}")
    for text in ("", "a", "no table\nhere\nnm\n", "1\t2\t3\n4\t5\t6\n", "nm\n300\t70\t1\t2\n"):
        write(p, text)
        if text:
            raises(out, ValueError, lambda: elli.read_woollam_psi_delta(p), f"no Woollam file {text!r}")
    N = elli.importer.nexus.NexusGroupNames
    for kind in ("Psi/delta", "tan(psi)/cos(delta)", "mueller matrix", "N/C/S", ""):
        for path in ("entry/sample/data_type", "entry/data_collection/data_type"):
            with h5py.File(p, "w") as f:
                f[path] = kind
            raises(out, NotImplementedError, lambda: elli.read_nexus_psi_delta(p), f"NeXus data type {kind!r}")
    with h5py.File(p, "w") as f:
        f["entry/title"] = "x"
    raises(out, ValueError, lambda: elli.read_nexus_psi_delta(p), "NeXus file without definition")
    raises(out, ValueError, lambda: elli.read_nexus_psi_delta(p, N(entry="a")), "NeXus file without definition")
    for bad in ("entry", {"entry": "entry"}, ("entry", "sample"), 1):
        raises(out, ValueError, lambda: elli.read_nexus_psi_delta(p, bad), f"group_names={bad!r}")
    out.state("reject")
