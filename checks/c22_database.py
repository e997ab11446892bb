"""C22: the refractive-index database returns the stored page and nothing else."""

import atexit
import itertools
import os
import shutil
import tempfile

import numpy as np
import yaml

from mc.lab import elli

ID = "C22"
LEVEL = "exploration"
RULE = (
    "a synthetic database in the published layout holds one page per data type, formula and coefficient layout of the alphabet; every page is "
    "looked up and compared with its generating model, every query of the alphabet with a linear scan of the catalog, and all histories of "
    "lookups up to the bound leave later answers unchanged. state = page / query with its answer / history"
)
BOUNDS = {
    "quick": "all pages (hand-written ones with every YAML spelling of the same coefficients, and generated ones: 5 formulas x coefficient counts x tables n/k/nk x combinations; zeros at every subset of the places); queries: all values and near misses x columns x wavelength filters; histories of <= 3 of 12 operations",
    "thorough": "histories of <= 4 of 12 operations, all pairs of queries and columns",
}
ASSUMPTIONS = [
    "the database of refractiveindex.info is not part of the sandbox: a synthetic one in its published layout is used",
    "formulas 6 to 9 are not implemented by the library and have to be rejected",
    "approximate (fuzzy) search has to contain the exact matches and only rows of the catalog; its scoring is not specified",
]
CHUNK = 4

LB = np.array([300.0, 500.0, 632.8, 1000.0, 450.0])
COEF = [0.6, 0.05, 0.4, 0.11, 0.9, 9.5, 0.03, 0.2, 0.25, 0.31, 0.01, 0.15, 0.002, 0.1, 0.07, 0.12, 0.011]
EXP = [-2.0, 2.0, 1.0, -4.0, 0.0, 0.5, -6.0, 4.0]


def um(lb):
    return np.asarray(lb, float) / 1e3


def f1(c):
    return lambda l: np.sqrt(1 + c[0] + sum((a * l**2 / (l**2 - b**2) for a, b in zip(c[1::2], c[2::2])), 0 * l) + 0j)


def f2(c):
    return lambda l: np.sqrt(1 + c[0] + sum((a * l**2 / (l**2 - b) for a, b in zip(c[1::2], c[2::2])), 0 * l) + 0j)


def f3(c):
    return lambda l: np.sqrt(c[0] + sum((a * l**b for a, b in zip(c[1::2], c[2::2])), 0 * l) + 0j)


def f4(c):
    def fn(l):
        v = c[0] + 0 * l
        for i in (1, 5):
            if len(c) > i:
                v = v + c[i] * l ** c[i + 1] / (l**2 - c[i + 2] ** c[i + 3])
        return np.sqrt(v + sum((a * l**b for a, b in zip(c[9::2], c[10::2])), 0 * l) + 0j)

    return fn


def f5(c):
    return lambda l: c[0] + sum((a * l**b for a, b in zip(c[1::2], c[2::2])), 0 * l) + 0j


TAB = {
    "asc": [0.25, 0.4, 0.5, 0.77, 1.2], "desc": [1.2, 0.8, 0.45, 0.29], "two": [0.2, 2.0], "mix": [0.5, 0.25, 1.5, 0.7],
    "long": [0.25 + 0.01 * i for i in range(100)],
    # values of amplifying, negative-index and nearly empty media
    "gain": [0.25, 0.4, 0.5, 0.77, 1.2], "negative": [0.3, 0.6, 0.9], "xray": [1e-4, 0.01, 0.3], "nothing": [0.25, 1.5], "infrared": [5.0, 120.0, 900.0],
}


SPAN = {}  # content -> range of its table in nm


def table(kind, key, style):
    ax = TAB[key]
    fmt = {"plain": "%.6f", "sci": "%.8E", "g": "%.6g"}[style]
    n = [1.5 + 0.4 * np.cos(2.1 * i) for i in range(len(ax))]
    k = [abs(0.3 * np.sin(1.3 * i)) * (1e-6 if i % 4 == 2 else 1) for i in range(len(ax))]
    if style == "g":
        n[0], k[-1] = 2, 0
    if key == "gain":
        k = [-x - 0.01 for x in k]
    elif key == "negative":
        n, k = [-1.2 - x for x in n], [x - 0.1 for x in k]
    elif key == "xray":
        n, k = [1 - 1e-3 / (i + 1) for i in range(3)], [1e-5 * x for x in k]
    elif key == "nothing":
        n, k = [0.0, 0.0], [0.0, 0.0]
    cols = {"nk": (ax, n, k), "n": (ax, n), "k": (ax, k)}[kind]
    txt = [[fmt % v for v in row] for row in zip(*cols)]
    sep = {"plain": " ", "sci": "\t", "g": "   "}[style]
    data = "\n".join(sep.join(r) for r in txt) + "\n"
    val = np.array([[float(t) for t in r] for r in txt])
    o = np.argsort(val[:, 0])
    val = val[o]

    def fn(l):
        res = 0j * l
        if kind != "k":
            res = res + np.interp(l, val[:, 0], val[:, 1])
        if kind != "n":
            res = res + 1j * np.interp(l, val[:, 0], val[:, -1])
        return res

    return {"type": f"tabulated {kind}", "data": data}, fn


def formula(num, c):
    return {"type": f"formula {num}", "wavelength_range": "0.2 2.0", "coefficients": " ".join(repr(x) for x in c)}, {1: f1, 2: f2, 3: f3, 4: f4, 5: f5}[num](c)


def contents():
    """name -> (list of blocks, n + ik as function of the wavelength in um | None when unsupported)"""
    res = {}
    for kind, key, style in itertools.product(("nk", "n", "k"), TAB, ("plain", "sci", "g")):
        b, fn = table(kind, key, style)
        res[f"tab-{kind}-{key}-{style}"] = ([b], fn)
        SPAN[f"tab-{kind}-{key}-{style}"] = (1e3 * min(TAB[key]), 1e3 * max(TAB[key]))
    for num in (1, 2):
        for terms in range(0, 9):
            c = [0.3] + COEF[: 2 * terms]
            res[f"form{num}-{terms}"] = ([formula(num, c)[0]], formula(num, c)[1])
    for num in (1, 2):
        c = [0, 1.25, 0.1, -0.3, 12.0]
        res[f"form{num}-neg"] = ([formula(num, c)[0]], formula(num, c)[1])
    for num in (3, 5):
        for terms in range(0, 9):
            c = [2.1 if num == 3 else 1.4]
            for i in range(terms):
                c += [(-1) ** i * 0.004 / (i + 1), EXP[i]]
            res[f"form{num}-{terms}"] = ([formula(num, c)[0]], formula(num, c)[1])
    for c in ([2.2], [2.2, 0.5, 2, 0.1, 2], [2.2, 0.5, 0, 0.1, 1], [2.2, 0.5, 2, 0.01, 1, 0.3, 2, 0.2, 2], [1.9, 0.5, 2, 0.1, 2, 0.2, 0, 0.04, 1], [2.2, 0.0, 0, 0, 1, 0, 0, 0, 1, 0.3, 1], [2.2, 0.5, 2, 0.1, 2, 0.3, 2, 9.0, 1, -0.02, 2], [2.2, 0.5, 1, 0.1, 2, 0.3, 2, 0.2, 2, 0.02, -2, -0.001, 4], [2.2, 0.5, 2, 0.1, 2, 0.3, 2, 0.2, 2, 0.02, -2, -0.001, 4, 0.003, 1]):
        res[f"form4-{len(c)}-{len(res)}"] = ([formula(4, c)[0]], formula(4, c)[1])
    # zeros at any subset of the places of a short list
    for num, full in ((1, [0.2, 1.1, 0.1, 0.3, 0.15, 0.05, 0.12]), (2, [0.2, 1.1, 0.01, 0.3, 0.02, 0.05, 0.015]), (3, [2.1, 0.004, -2, 0.003, 2, -0.002, -4]), (5, [1.4, 0.004, -2, 0.003, 2, -0.002, -4]), (4, [2.2, 0.5, 2, 0.1, 2, 0.3, 2, 0.2, 2, 0.02, -2, -0.001, 4])):
        places = (0, 1, 3, 5) if num != 4 else (0, 1, 5, 9, 11)
        for mask in range(1, 2 ** len(places)):
            c = list(full)
            for j, pl in enumerate(places):
                if mask >> j & 1:
                    c[pl] = 0
            res[f"zero{num}-{mask}"] = ([formula(num, c)[0]], formula(num, c)[1])
        if num != 4:
            for pl in range(2, len(full), 2):
                c = list(full)
                c[pl] = 0
                res[f"zeroexp{num}-{pl}"] = ([formula(num, c)[0]], formula(num, c)[1])
    base = [k for k in res if k.startswith("form") and k.split("-")[1] in ("3", "9", "neg")]
    for k in base:
        for key, style in (("asc", "plain"), ("desc", "sci"), ("two", "g")):
            for first in (0, 1):
                b, fn = table("k", key, style)
                blocks = [b] + res[k][0] if first else res[k][0] + [b]
                res[f"comb-{k}-{key}-{first}"] = (blocks, lambda l, a=res[k][1], fn=fn: a(l) + fn(l))
    b1, g1 = table("n", "asc", "plain")
    for key in ("asc", "desc", "two", "mix", "long"):
        b2, g2 = table("k", key, "sci")
        res[f"comb-n-k-{key}"] = ([b1, b2], lambda l, g2=g2: g1(l) + g2(l))
        res[f"comb-k-n-{key}"] = ([b2, b1], lambda l, g2=g2: g1(l) + g2(l))
    for num in (6, 7, 8, 9):
        res[f"form{num}"] = ([{"type": f"formula {num}", "coefficients": "1 0.2 0.3 0.4"}], None)
    res["tab-xyz"] = ([{"type": "tabulated xyz", "data": "1 2 3\n"}], None)
    return res


CONTENT = contents()
RANGES = [("0.188", "1.94"), ("0.25", "0.6"), ("0.6", "2"), ("1.5e0", "12.5"), ("0.5", "0.5"), ("2", "10")]


def catalog():
    """the database as a list of pages; the order is the one of the file"""
    pages = []
    names = list(CONTENT)
    book = {"tab": ("Ag", "Silver"), "form1": ("SiO2", "Silicon dioxide"), "form2": ("BK7", "SCHOTT glasses"), "form3": ("HOYA-optical", "HOYA"), "form4": ("AgCl", "Silver chloride"), "form5": ("SF6", "Sulfur hexafluoride")}
    for i, n in enumerate(names):
        b, long = book.get(n.split("-")[0], ("Au", "Gold"))
        shelf = ("main", "MAIN - simple inorganic materials") if i % 2 else ("glass", "GLASS - glasses")
        lo, hi = RANGES[i % len(RANGES)]
        author = ["Johnson and Christy", "Aspnes", "Müller et al.", "Li", "Aspnes and Studna"][i % 5]
        year = 1960 + (i * 7) % 60
        sep = "–" if i % 2 else "-"
        pre, post = [(None, None), ("thin film", None), (None, "20 °C"), ("thin film", "20 °C")][i % 4]
        tail = f", k 0.3{sep}0.9 µm" if i % 3 == 0 else ""
        match = i % 11 != 5
        title = f"{author} {year}{'a' if i % 5 == 1 else ''}: {pre + '; ' if pre else ''}{'n,k' if i % 3 else 'n'} {lo}{sep}{hi} µm{tail}{'; ' + post if post else ''}" if match else f"Model {i} of silver"
        pages.append(dict(
            shelf=shelf[0], shelf_longname=shelf[1], book_divider=["Elements", None, "Oxides"][i % 3], book=b, book_longname=long, page=n, page_type=[None, "Thin films"][i % 2],
            author=author if match else None, year=year if match else None, comment=" ".join(filter(None, (pre, post))) if match else title,
            lower=float(lo) * 1e3 if match else None, upper=float(hi) * 1e3 if match else None, data=f"{shelf[0]}/{b}/p{i}.yml", title=title, content=n,
        ))
    # the same page twice (another shelf), and the same page name in another book
    dup = dict(pages[3], shelf="other", shelf_longname="OTHER", data="other/dup.yml")
    pages.append(dup)
    pages.append(dict(pages[4], book="Si", book_longname="Silicon", data="other/si.yml", shelf="other", shelf_longname="OTHER", content=names[40]))
    pages.append(dict(pages[6], book="silicon", page="Ag", book_longname="SiO2", data="other/ag.yml", shelf="other", shelf_longname="OTHER", content=names[41]))
    return pages


PAGES = catalog()


def write(root):
    db = os.path.join(root, "refractiveindexinfo-database", "database")
    os.makedirs(db)
    groups = {}
    for p in PAGES:
        groups.setdefault((p["shelf"], p["shelf_longname"]), []).append(p)
    cat = []
    for (s, long), ps in groups.items():
        content, bdiv = [], None
        for b, grp in itertools.groupby(ps, key=lambda p: (p["book_divider"], p["book"], p["book_longname"])):
            if b[0] is None and bdiv is not None:
                pass
            content.append((b, list(grp)))
        out = []
        # books without a divider come first, as a divider lasts until the next one
        content.sort(key=lambda x: (x[0][0] is not None, x[0][0] or "", x[0][1]))
        for b, grp in content:
            if b[0] is not None and b[0] != bdiv:
                out.append({"DIVIDER": b[0]})
                bdiv = b[0]
            pg, pdiv = [], None
            for p in sorted(grp, key=lambda p: p["page_type"] is not None):
                if p["page_type"] is not None and p["page_type"] != pdiv:
                    pg.append({"DIVIDER": p["page_type"]})
                    pdiv = p["page_type"]
                pg.append({"PAGE": p["page"], "name": p["title"], "data": p["data"]})
            out.append({"BOOK": b[1], "name": b[2], "content": pg})
        cat.append({"SHELF": s, "name": long, "content": out})
        cat.append({"DIVIDER": "more"})
    with open(os.path.join(db, "catalog-nk.yml"), "w", encoding="utf8") as f:
        yaml.safe_dump(cat, f, allow_unicode=True, sort_keys=False)
    for i, p in enumerate(PAGES):
        path = os.path.join(db, "data", p["data"])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        p["ref"] = f"{i}. A. Author, Journal {i} (2000)" if i % 2 else f"{i}. Å. Müller, Ö. Größer, «Revue française», 20 °C, µm (1999)"
        p["com"] = f"Comment {i}: room temperature"
        if i % 4:
            raw(path, p, i)
            continue
        with open(path, "w", encoding="utf8") as f:
            yaml.safe_dump({"REFERENCES": p["ref"], "COMMENTS": p["com"], "DATA": CONTENT[p["content"]][0], "SPECS": {"n_is_absolute": True}}, f, allow_unicode=True, sort_keys=False)


def raw(path, p, i):
    """the page as a hand-written file: literal blocks, unquoted numbers, other white space"""
    text = yaml.safe_dump({"REFERENCES": p["ref"]}, allow_unicode=True) + f'COMMENTS: "{p["com"]}"\n'
    text = "# this file is part of a database\n\n" * (i % 3 == 0) + text + "DATA:\n"
    for b in CONTENT[p["content"]][0]:
        text += f"  - type: {b['type']}\n"
        if "data" in b:
            text += "    data: |\n" + "".join((" " * 8 + line + " " * (i % 4 == 2)).rstrip(" " if i % 4 != 2 else "") + "\n" for line in b["data"].splitlines())
        if "wavelength_range" in b:
            text += f"    wavelength_range: {b['wavelength_range']}\n"
        if "coefficients" in b:
            c = b["coefficients"].split()
            text += "    coefficients: " + {1: " ", 2: "   ", 3: "\n        "}[i % 4].join(c) + "\n"
        if i % 5 == 0:
            text += "    comment: none\n"
    with open(path, "wb") as f:
        f.write(text.replace("\n", "\r\n" if i % 7 == 0 else "\n").encode("utf8"))


DB = None
ROOT = None


def setup(tier):
    global DB, ROOT
    import elli.database

    ROOT = tempfile.mkdtemp(prefix="c22-")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(ROOT, ignore_errors=True))
    write(ROOT)
    elli.database.__path__.insert(0, ROOT)
    DB = elli.db.RII()


def cases(tier):
    for i in range(len(PAGES)):
        yield dict(page=i)
    yield dict(catalog=1)
    for col in COLS:
        yield dict(search=col)
    yield dict(filter=1, pairs=tier == "thorough")
    yield dict(unknown=1)
    for i in range(len(OPS)):
        yield dict(first=i, depth=3 if tier == "quick" else 4)


def unique(p):
    return sum(q["book"] == p["book"] and q["page"] == p["page"] for q in PAGES) == 1


def judge_page(out, db, p, what):
    blocks, fn = CONTENT[p["content"]]
    if not unique(p) or fn is None:
        for call in (db.get_dispersion, db.get_mat):
            try:
                r = call(p["book"], p["page"])
            except ValueError:
                out.ev()
            else:
                out.that(False, "reject", f"{what}: {p['book']}/{p['page']} returned {r}")
        return
    d = db.get_dispersion(p["book"], p["page"])
    m = db.get_mat(p["book"], p["page"])
    out.that(type(m) is elli.IsotropicMaterial, "type", f"{what}: {type(m)}")
    lo, hi = SPAN.get(p["content"], (300.0, 1100.0))
    if lo > 300 or hi < 1100:
        lbs = [np.array([lo, (lo + 2 * hi) / 3, hi, (2 * lo + hi) / 3]), np.array([lo]), np.linspace(lo, hi, 65), float(hi)]
    else:
        lbs = [LB, LB[:1], np.linspace(300, 1100, 65), 500.0, 500]
    for lb in lbs:
        exp = np.atleast_1d(fn(um(lb)))
        n = np.asarray(d.get_refractive_index(lb))
        e = np.asarray(d.get_dielectric(lb))
        if n.ndim == 0 and not any(len(b.get("coefficients", "0 0").split()) > 1 for b in blocks):
            # a page with a constant only may answer with a scalar
            n, e = np.broadcast_to(n, np.shape(lb)), np.broadcast_to(e, np.shape(lb))
        ok = n.size == exp.size and np.ndim(n) == np.ndim(lb) and np.allclose(np.ravel(n), exp, rtol=1e-9, atol=1e-12)
        out.that(ok, "index", lambda: f"{what}: {p['page']} n({lb}) = {n}, stored {exp}")
        ok = e.size == exp.size and np.allclose(np.ravel(e), exp**2, rtol=1e-9, atol=1e-12)
        out.that(ok, "permittivity", lambda: f"{what}: {p['page']} eps({lb}) = {e}, stored {exp**2}")
        if np.ndim(lb):
            t = m.get_tensor(lb)
            out.that(t.shape == (len(lb), 3, 3) and np.allclose(t, exp[:, None, None] ** 2 * np.eye(3), rtol=1e-9, atol=1e-12), "tensor", lambda: f"{what}: {p['page']} material")
    out.that(db.get_reference(p["book"], p["page"]) == p["ref"], "reference", lambda: f"{what}: {db.get_reference(p['book'], p['page'])!r} instead of {p['ref']!r}")
    out.that(db.get_comment(p["book"], p["page"]) == p["com"], "comment", lambda: f"{what}: {db.get_comment(p['book'], p['page'])!r}")


COLS = ["shelf", "shelf_longname", "book_divider", "book", "book_longname", "page", "page_type", "author", "comment", "all", "pairs"]
FUZZY = ["book_divider", "book", "book_longname", "page", "author", "comment"]


def key(r):
    return (r["shelf"], r["book"], r["page"])


def rows(df):
    return sorted((s, b, p) for s, b, p in zip(df["shelf"], df["book"], df["page"]))


def isna(x):
    return x is None or (not isinstance(x, str) and bool(np.any(np.asarray([x != x]))) if not repr(x) == "<NA>" else True)


def check(case, out):
    if "page" in case:
        p = PAGES[case["page"]]
        judge_page(out, DB, p, "lookup")
        out.state("page", p["content"], p["book"])
    elif "catalog" in case:
        judge_catalog(out, DB)
    elif "search" in case:
        search(out, case["search"])
    elif "filter" in case:
        filters(out)
    elif "unknown" in case:
        for call in (DB.get_dispersion, DB.get_mat, DB.get_reference, DB.get_comment):
            for b, g in (("foo", "bar"), ("Ag", "foo"), ("foo", PAGES[0]["page"]), ("", ""), ("ag", PAGES[0]["page"]), (PAGES[0]["book"], PAGES[0]["page"].upper()), (PAGES[0]["page"], PAGES[0]["book"]), ("Silver", PAGES[0]["page"]), (PAGES[0]["book"] + " ", PAGES[0]["page"])):
                try:
                    r = call(b, g)
                except ValueError:
                    out.ev()
                except Exception as e:
                    out.that(False, "reject", f"{b}/{g}: {type(e).__name__} {e}")
                else:
                    out.that(False, "reject", f"{b}/{g} returned {r}")
                out.state("unknown", call.__name__, b, g)
    else:
        history(case, out)
    out.sample(case)


def judge_catalog(out, db):
    c = db.catalog
    out.that(len(c) == len(PAGES), "catalog:size", lambda: f"{len(c)} entries instead of {len(PAGES)}")
    got = {os.path.normpath(str(r["path"])): r for _, r in c.iterrows()}
    for p in PAGES:
        r = got.get(os.path.join("data", p["data"]))
        if not out.that(r is not None, "catalog:path", f"no entry with path {p['data']}"):
            continue
        for col in ("shelf", "shelf_longname", "book", "book_longname", "page", "author", "comment", "book_divider", "page_type"):
            v, e = r[col], p[col]
            out.that((isna(v) and not e) or (not isna(v) and v == e), f"catalog:{col}", lambda: f"{p['title']}: {col} is {v!r}, stored {e!r}")
        for col, e in (("year", p["year"]), ("lower_range", p["lower"]), ("upper_range", p["upper"])):
            v = r[col]
            out.that((isna(v) and e is None) or (not isna(v) and e is not None and abs(float(v) - e) <= 1e-9 * abs(e)), f"catalog:{col}", lambda: f"{p['title']}: {col} is {v!r}, stored {e!r}")
        out.state("catalog", p["title"])


def values(col):
    return sorted({p[col] for p in PAGES if p[col]})


def search(out, col):
    if col == "all":
        qs = sorted({v for c in FUZZY + ["shelf", "shelf_longname", "page_type"] for v in values(c)})
        cols = FUZZY + ["shelf", "shelf_longname", "page_type"]
        for q in qs[:120:2] + ["Aspnes", "Ag", "Silver", "SiO2", "nothing", "", "silver", "Johnson"]:
            exp = sorted(key(p) for p in PAGES if any(p[c] == q for c in cols))
            for kw in ({}, {"column": "all"}):
                got = rows(DB.search(q, fuzzy=False, **kw))
                out.that(got == exp, "search:exact", lambda: f"search({q!r}, fuzzy=False): {got[:5]}.. {len(got)} entries, expected {len(exp)}: {exp[:5]}")
                sup = rows(DB.search(q, **kw))
                need = sorted(key(p) for p in PAGES if q and any(p[c] == q for c in FUZZY))
                out.that(set(need) <= set(sup) and len(set(sup)) <= len({key(p) for p in PAGES}), "search:fuzzy", lambda: f"search({q!r}) misses {set(need) - set(sup)}")
            out.state("search", "all", q, len(exp))
        out.that(len(DB.search("")) == 0, "search:empty", "an empty query returns entries")
        return
    if col == "pairs":
        for c1, c2 in itertools.combinations(["book", "book_longname", "page", "author", "comment", "shelf"], 2):
            for q in (["Ag"], ["SiO2"], ["Ag", "Aspnes"], ["Silver", "SiO2", "main"], ["Li", "thin film"], ["x"]):
                exp = sorted(key(p) for p in PAGES if any(p[c] == x for c in (c1, c2) for x in q))
                got = rows(DB.search(q, column=[c1, c2], fuzzy=False))
                out.that(got == exp, "search:columns", lambda: f"search({q}, {[c1, c2]}): {len(got)} entries, expected {len(exp)}")
                out.state("search", c1, c2, q)
        return
    vals = values(col)
    for q in vals + [vals[0].lower(), vals[0][:-1], vals[-1] + "x", "", " " + vals[0]]:
        exp = sorted(key(p) for p in PAGES if p[col] == q)
        for query, column in ((q, col), ([q], col), (q, [col]), ([q], [col])):
            df = DB.search(query, column=column, fuzzy=False)
            got = rows(df)
            out.that(got == exp, "search:exact", lambda: f"search({query!r}, {column!r}, fuzzy=False): {len(got)} entries, expected {len(exp)}")
            out.that(list(df.columns) == list(DB.catalog.columns), "search:columns", "other columns")
            if col in FUZZY and q:
                fz = rows(DB.search(query, column=column))
                out.that(set(exp) <= set(fz), "search:fuzzy", lambda: f"search({query!r}, {column!r}) misses {set(exp) - set(fz)}")
        out.state("search", col, q)


def filters(out):
    wls = [100, 188, 188.0, 187.9, 250, 500, 500.0, 600, 600.5, 1500, 1940, 1941, 2000, 10000, 12500, 12501.0, 20000]
    fl = wls + [[500], [500, 600], (250, 600), [600, 2000], np.array([300.0, 550.0]), [188, 1940], [], (12500,), [2000, 500], [500.0, 188, 700]]
    for col, q in (("shelf", "main"), ("shelf", "glass"), ("book", "Ag"), ("author", "Aspnes"), ("shelf", "nothing"), ("author", ["Li", "Aspnes"])):
        for w in fl:
            need = np.atleast_1d(np.asarray(w, float))
            qs = [q] if isinstance(q, str) else q
            exp = sorted(key(p) for p in PAGES if p[col] in qs and (need.size == 0 or (p["lower"] is not None and all(p["lower"] - 1e-6 <= x <= p["upper"] + 1e-6 for x in need))))
            got = rows(DB.search(q, column=col, wavelength_filter=w, fuzzy=False))
            out.that(got == exp, "filter", lambda: f"search({q!r}, {col}, wavelength_filter={w!r}): {len(got)} entries, expected {len(exp)}; difference {sorted(set(got) ^ set(exp))[:4]}")
            out.state("filter", col, str(q), str(w))
    for bad in ("500", {"a": 1}, {500}):
        try:
            DB.search("Ag", wavelength_filter=bad)
        except ValueError:
            out.ev()
        else:
            out.that(False, "filter:reject", f"wavelength_filter={bad!r} accepted")


OPS = ["get0", "get1", "comb", "nk", "mat", "ref", "bad", "dup", "search", "filter", "edit", "new"]


def history(case, out):
    """earlier lookups, failed ones and edits of returned objects do not change later answers"""
    by = {p["content"]: p for p in PAGES if unique(p)}
    probe = [by["form1-3"], by["tab-nk-asc-plain"], by["comb-form2-3-asc-0"], by["form5-3"]]
    for rest in itertools.product(range(len(OPS)), repeat=case["depth"] - 1):
        hist = [OPS[i] for i in (case["first"],) + rest]
        if hist.count("new") > 1:
            continue
        db, got = DB, []
        for op in hist:
            out.trans()
            if op == "get0":
                got.append(db.get_dispersion(probe[0]["book"], probe[0]["page"]))
            elif op == "get1":
                got.append(db.get_dispersion(probe[3]["book"], probe[3]["page"]))
            elif op == "comb":
                got.append(db.get_dispersion(probe[2]["book"], probe[2]["page"]))
            elif op == "nk":
                got.append(db.get_dispersion(probe[1]["book"], probe[1]["page"]))
            elif op == "mat":
                m = db.get_mat(probe[0]["book"], probe[0]["page"])
                got.append(m.dispersion_x)
                m.set_rotation(elli.rotation_euler(10, 20, 30))
            elif op == "ref":
                db.get_reference(probe[0]["book"], probe[0]["page"])
            elif op in ("bad", "dup"):
                p = PAGES[3]
                try:
                    db.get_dispersion(p["book"], "nothing" if op == "bad" else p["page"])
                except ValueError:
                    pass
                else:
                    out.that(False, "reject", f"history {hist}: accepted")
            elif op == "search":
                db.search("Ag", fuzzy=False)
            elif op == "filter":
                db.search("Aspnes", column="author", wavelength_filter=[500, 600])
            elif op == "edit":  # an edit of what was returned
                for d in got:
                    if hasattr(d, "rep_params") and d.rep_params and "A" in d.rep_params[0]:
                        d.rep_params[0]["A"] = 77.0
                    elif hasattr(d, "dispersions"):
                        d.dispersions.append(elli.EpsilonInf(eps=5).as_index())
                df = db.search("Ag", column="book", fuzzy=False)
                df["page"] = "scribble"
            elif op == "new":
                db = elli.db.RII()
        for p in probe:
            fn = CONTENT[p["content"]][1]
            d = db.get_dispersion(p["book"], p["page"])
            out.that(np.allclose(d.get_refractive_index(LB), fn(um(LB)), rtol=1e-9), "history", lambda: f"after {hist}: {p['page']} returns {d.get_refractive_index(LB)}, stored {fn(um(LB))}")
        exp = sorted(key(p) for p in PAGES if p["book"] == "Ag")
        out.that(rows(db.search("Ag", column="book", fuzzy=False)) == exp, "history:search", lambda: f"after {hist}: another search result")
        out.trace()
        out.state("history", hist)
