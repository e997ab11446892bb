"""C26: plots and structure drawings show the data they are given."""

import copy
import itertools
import math
import os
import sys

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import plotly.io

import elli.plot as elliplot
from elli.plot.structure import draw_structure, get_index_profile, get_permittivity_profile
from mc import lab, ref
from mc.lab import elli

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c04_layers as tree  # layer trees and the independent flattening model

ID = "C26"
LEVEL = "exploration"
RULE = (
    "every structure of the alphabet x half spaces x wavelength argument x direction: the profile is compared with an independently flattened "
    "stack, both kinds of drawing are compared through their drawn data; every combination of plot options x tables for Mueller matrices. "
    "state = one profile, drawing or figure; evaluation = one comparison"
)
BOUNDS = {
    "quick": "structures of <= 2 of 12 leaf layers and 60 repetitions, 6 directions, 5 wavelength arguments; 1-4 tables x 288 option sets",
    "thorough": "structures of <= 3 of 12 leaf layers",
}
ASSUMPTIONS = ["figures are judged through the data of their artists, not their pixels", "Mueller tables have the columns M11 to M44 in order, or a part of them"]
TIMEOUT = {"quick": 300, "thorough": 1500}
CHUNK = 4
plotly.io.templates.default = "none"

LBS = [None, 1000, 500.0, [633.0], [700.0, 400.0, 633.0]]
DIRS = [None, [1, 0, 0], [0, 1, 0], [0, 0, 1], [0.6, 0.0, 0.8], [0.6, -0.8, 0.0]]
HALF = {"air-Si": ("air", 3.8 + 0.02j), "glass-metal": (1.5, 0.2 + 3.0j), "crystal": (1.0, "u"), "default": None}


def half(x):
    if x == "air":
        return elli.AIR, lambda lb: 1.0
    if x == "u":
        return tree.mat("u"), None
    return lab.iso(x), lambda lb: complex(x) ** 2


def cases(tier):
    depth = 2 if tier == "quick" else 3
    for n in range(depth + 1):
        for seq in itertools.product(range(len(tree.LEAF)), repeat=n):
            yield dict(kind="structure", tree=[tree.LEAF[i] for i in seq], half=list(HALF)[sum(seq) % 3])
    for n in (1, 2, 3):
        for rep in (1, 2, 5):
            for b, a in itertools.product(range(0, n + 1), repeat=2):
                yield dict(kind="structure", tree=[["R", [tree.LEAF[i] for i in (0, 4, 8)[:n]], rep, b, a]], half="air-Si")
                yield dict(kind="structure", tree=[tree.LEAF[1], ["R", [["R", [tree.LEAF[0], tree.LEAF[2]], rep, b % 2, a % 2], tree.LEAF[6]][:n], 2, 1, 0], tree.LEAF[3]], half="glass-metal")
    for h in HALF:
        if HALF[h]:
            yield dict(kind="structure", tree=[], half=h)
            yield dict(kind="structure", tree=[["L", "g", 0.0], ["L", "h", 0]], half=h)
            yield dict(kind="structure", tree=[["L", "g", 1e-3], ["L", "h", 1e6]], half=h)
            for d in (1e-5, 1e-3, 0.1, 0.5, 1, 1.0, 2.5, 1e3, 1e7):
                yield dict(kind="structure", tree=[["L", "h", d]], half=h)
                yield dict(kind="structure", tree=[["L", "h", d], ["L", "g", d], ["L", "h", d]], half=h)
            yield dict(kind="structure", tree=[["L", "m", 12.5]] * 65, half=h)
            yield dict(kind="structure", tree=[["T", "u", 4000.0, 257, 720.0]], half=h)
    for nf in (1, 2, 3, 4):
        for cols in ("all", "first", "some"):
            for single in (True, False, None):
                for full in (True, False, None):
                    for sharex in (True, False):
                        yield dict(kind="mm", frames=nf, cols=cols, single=single, full=full, sharex=sharex, styles="all" if tier != "quick" or (not full and not sharex and nf > 1) else "some")


def eps_list(case, lb):
    tree.LB = np.atleast_1d(np.asarray(lb, float))
    h = HALF[case["half"]]
    res = []
    for x in h:
        _, f = half(x)
        e = tree.eps_of("u") if f is None else np.tile(np.eye(3) * f(lb), (len(tree.LB), 1, 1))
        res.append((math.inf, e))
    layers = []
    for t in case["tree"]:
        layers += tree.flat(t)
    return [res[0]] + layers + [res[1]]


def build(case):
    h = HALF[case["half"]]
    # equal layers are the same object
    return elli.Structure(half(h[0])[0], tree.shared(case["tree"]), half(h[1])[0])


def nref(eps, v):
    v = np.asarray(v, float)
    x = complex(np.einsum("i,ij,j", v, eps[0], v))
    r = np.sqrt(x)
    return r if r.real >= 0 else -r


def snapshot(s):
    out = []
    for lb in (400.0, 812.0):
        out += [(float(d), np.array(e)) for d, e in s.get_permittivity_profile(lb)]
    return out


def structure(case, out):
    s = build(case)
    before = snapshot(s)
    for lb in LBS:
        if lb is None:
            continue
        arg = np.array(lb) if isinstance(lb, list) else lb
        what = f"{str(case)[:600]} at {lb}"
        want = eps_list(case, lb)
        for name, prof in (("function", get_permittivity_profile(s, arg)), ("method", s.get_permittivity_profile(arg))):
            ok = len(prof) == len(want) and all(
                (math.isinf(d) and math.isinf(w[0]) or abs(d - w[0]) <= 1e-9 * (1 + abs(w[0]))) and np.allclose(e, w[1], rtol=1e-9, atol=1e-9) for (d, e), w in zip(prof, want)
            )
            out.that(ok, f"permittivity-profile:{name}", lambda: f"{what}: profile {prof[:4]} ({len(prof)}), expected {want[:4]} ({len(want)})")
        for v in DIRS:
            prof = get_index_profile(s, arg) if v is None else get_index_profile(s, arg, v=np.array(v))
            exp = [(d, nref(e, v or [1, 0, 0])) for d, e in want]
            ok = len(prof) == len(exp) and all((math.isinf(d) and math.isinf(w[0]) or abs(d - w[0]) <= 1e-9 * (1 + abs(w[0]))) and abs(n - w[1]) < 1e-9 * (1 + abs(w[1])) for (d, n), w in zip(prof, exp))
            out.that(ok, "index-profile", lambda: f"{what} along {v}: {prof[:6]}, expected {exp[:6]}")
        out.state("profile", case["tree"], case["half"], lb)
    for lb, method, margin in ((None, None, None), (1000, "graph", 0.15), (500.0, "section", None), ([700.0, 400.0], "graph", 0.5), (633.0, "section", 0.01), (500, "graph", 0.0)):
        kw = {}
        if lb is not None:
            kw["lbda"] = np.array(lb) if isinstance(lb, list) else lb
        if method is not None:
            kw["method"] = method
        if margin is not None:
            kw["margin"] = margin
        draw(out, case, s, kw)
    after = snapshot(s)
    out.that(len(after) == len(before) and all(a[0] == b[0] and np.array_equal(a[1], b[1]) for a, b in zip(after, before)), "modified", f"drawing changed the structure {case}")
    out.that(draw_structure(s, method="other") is None, "method", "unknown method drew something")
    plt.close("all")


def draw(out, case, s, kw):
    lb, method, margin = kw.get("lbda", 1000), kw.get("method", "graph"), kw.get("margin", 0.15)
    what = f"{method} drawing of {str(case)[:500]} at {lb}, margin {margin}"
    want = eps_list(case, lb)
    n = [nref(e, [1, 0, 0]).real for _, e in want]
    edges = [0.0]
    for d, _ in want[1:-1]:
        edges.append(edges[-1] + d)
    total = edges[-1]
    m = margin * total if total else 1e-6
    plt.close("all")
    ax = elliplot.draw_structure(s, **kw)
    lim = ax.get_xlim()
    tol = 1e-9 * (1 + total)
    if margin > 0:
        out.that(abs(lim[0] + m) < tol and abs(lim[1] - total - m) < tol, "limits", lambda: f"{what}: shows {lim}, expected {-m} to {total + m}")
    out.that("z" in ax.get_xlabel() and "nm" in ax.get_xlabel(), "labels", lambda: f"{what}: label {ax.get_xlabel()}")
    # the middle of every slice, and of both margins
    mids = [(-m / 2, n[0])] + [((a + b) / 2, x) for a, b, x in zip(edges, edges[1:], n[1:-1]) if b - a > 1e-7 * (1 + total)] + [(total + m / 2, n[-1])]
    if margin == 0:
        mids = mids[1:-1]
    if method == "graph":
        out.that(len(ax.lines) == 1, "artists", f"{what}: {len(ax.lines)} lines")
        line = ax.lines[0]
        x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        where = line.get_drawstyle()

        def at(z):
            if where == "steps-post":
                return y[np.searchsorted(x, z, side="right") - 1]
            if where in ("steps-pre", "steps"):
                return y[np.searchsorted(x, z, side="left")]
            return np.interp(z, x, y)

    else:
        mesh = [c for c in ax.collections if type(c).__name__ == "QuadMesh"]
        out.that(len(mesh) == 1, "artists", f"{what}: {len(mesh)} meshes")
        xs = np.asarray(mesh[0].get_coordinates())[0, :, 0]
        a = np.asarray(mesh[0].get_array(), float).reshape(-1)
        out.that(len(a) == len(xs) - 1, "artists", f"{what}: {len(a)} cells, {len(xs)} edges")

        def at(z):
            return a[np.searchsorted(xs, z, side="right") - 1]

        lo, hi = mesh[0].get_clim()
        out.that(lo <= min(n) + 1e-9 and hi >= max(n) - 1e-9, "colours", lambda: f"{what}: colours from {lo} to {hi}, indices {n}")
    bad = [(z, at(z), v) for z, v in mids if abs(at(z) - v) > 1e-9 * (1 + abs(v))]
    out.that(not bad, "drawing", lambda: f"{what}: (z, drawn, expected) {bad[:5]}")
    out.state("drawing", case["tree"], case["half"], str(kw))


MCOLS = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]
SOME = {"all": MCOLS, "first": MCOLS[:1], "some": ["M12", "M21", "M33", "M34", "M44"]}


def frames(n, cols):
    res = []
    for k in range(n):
        x = np.array([400.0, 500.0, 650.0, 700.0][: 4 - (k == 1)]) + (k == 2) * 7
        if k == 3:
            x = x[::-1]
        v = np.sin(np.outer(np.arange(1, len(x) + 1), np.arange(1, 17)) * (k + 0.7))
        df = pd.DataFrame(v, index=pd.Index(x, name="Wavelength"), columns=MCOLS)
        # the first table decides the order; others may have more columns
        res.append(df[SOME[cols]] if k == 0 else df[SOME[cols][::-1]] if k == 1 else df)
    return res


PALETTE = ["#636EFA", "#EF553B", "#00CC96", "#AB63FA", "#FFA15A", "#19D3F3", "#FF6692", "#B6E880", "#FF97FF", "#FECB52"]


def mm(case, out):
    cc, dd, nn = (None, ["red"], ["#112233", "#445566", "#778899"], [f"rgb({i},0,0)" for i in range(20)]), (None, ["dot"], ["solid", "dashdot", "dot", "dash", "longdash"]), (None, ["x"], ["a", "b", "c", "d", "e"], [""])
    styles = list(itertools.product(cc, dd, nn))
    if case["styles"] == "some":
        styles = styles[::11]
    for colors, dashes, names in styles:
        fr = frames(case["frames"], case["cols"])
        keep = [f.copy() for f in fr]
        kw = {k: copy.copy(v) for k, v in dict(colors=colors, dashes=dashes, names=names, single=case["single"], full_scale=case["full"], sharex=case["sharex"]).items() if v is not None}
        kept = copy.deepcopy(kw)
        single = case["single"] is not False
        arg = fr[0] if case["frames"] == 1 and case["sharex"] else fr
        what = f"{case['frames']} tables ({case['cols']}), {kw}"
        fig = elliplot.plot_mmatrix(arg, **kw)
        cs, ds, ns = colors or PALETTE, dashes or ["solid", "dash", "dot"], names or ["", "theory"]
        elems = SOME[case["cols"]]
        out.that(len(fig.data) == len(elems) * len(fr), "traces", lambda: f"{what}: {len(fig.data)} traces")
        for i, (e, j) in enumerate(itertools.product(elems, range(len(fr)))):
            t = fig.data[i]
            out.that(np.array_equal(np.asarray(t.x, float), keep[j].index) and np.array_equal(np.asarray(t.y, float), keep[j][e].to_numpy()), "curve", lambda: f"{what}: curve of {e} of table {j} shows {t.x}, {t.y}")
            out.that(t.name.split() == f"{e} {ns[j % len(ns)]}".split(), "name", lambda: f"{what}: {e} of table {j} is called {t.name}")
            k = elems.index(e)
            out.that(t.line.color == cs[k % len(cs)] and t.line.dash == ds[j % len(ds)], "style", lambda: f"{what}: {e} of table {j} is drawn {t.line.color}, {t.line.dash}")
            if single:
                out.that(t.xaxis in (None, "x") and t.yaxis in (None, "y"), "cell", lambda: f"{what}: {e} on axes {t.xaxis}, {t.yaxis}")
            elif case["cols"] != "some":
                # the cell of the grid through the domain of its axes
                xa, ya = (getattr(fig.layout, a.replace("x", "xaxis").replace("y", "yaxis")) for a in (t.xaxis or "x", t.yaxis or "y"))
                col, row = round((sum(xa.domain) / 2) * 4 - 0.5), 3 - round((sum(ya.domain) / 2) * 4 - 0.5)
                out.that((row, col) == (int(e[1]) - 1, int(e[2]) - 1), "cell", lambda: f"{what}: {e} is in row {row + 1}, column {col + 1}")
        used = {t.yaxis or "y" for t in fig.data}
        for y in used:
            r = getattr(fig.layout, y.replace("y", "yaxis")).range
            ok = r is not None and list(map(float, r)) == [-1, 1] if case["full"] else r is None
            out.that(ok, "scale", lambda: f"{what}: range of {y} is {r}")
        ms = {getattr(fig.layout, (t.xaxis or "x").replace("x", "xaxis")).matches for t in fig.data}
        if not single:
            out.that(ms == {"x"} if case["sharex"] else ms == {None}, "sharex", lambda: f"{what}: axes match {ms}")
        out.that(all(f.equals(k) and list(f.columns) == list(k.columns) for f, k in zip(fr, keep)) and kw == kept and len(fr) == case["frames"], "modified", f"{what}: arguments changed")
        out.state("mm", what)


def check(case, out):
    (structure if case["kind"] == "structure" else mm)(case, out)
    out.sample(str(case)[:300])
