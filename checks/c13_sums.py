"""C13: sums of dispersions add the permittivities (indices) and leave the operands alone."""

import copy
import itertools
import pickle

import numpy as np

from mc import lab
from mc.lab import elli

ID = "C13"
LEVEL = "model_checking"
RULE = (
    "programs: every bracketed sum of up to 4 leaves over an alphabet of dispersions, tables, formulas and numbers, "
    "dielectric and index based, evaluated on the real operators and as plain numbers; misuse: every inadmissible pair; "
    "histories: every sequence up to the depth of building, extending in place, editing operands, adding terms, copying. "
    "state = (terms of every sum and parameters of every operand); transition = one operation"
)
BOUNDS = {
    "quick": "all trees with <= 3 leaves over 9 to 12 atoms per family and 4 leaves over 5 atoms; sums of 5..101 terms (19 lengths, 4 bracketings); histories of length <= 4 (with index views: 3) over 15 operations",
    "thorough": "4 leaves over 9 atoms, 5 leaves over 4 atoms; histories of length <= 5",
}
ASSUMPTIONS = ["a sum refers to its operands: later edits of an operand are seen by the sum (no copy is made)", "direct sums of two tables are documented as not supported"]
LB = np.array([350.0, 512.5, 797.0])


def atoms(fam):
    from elli.dispersions.formula import Formula, FormulaIndex

    lb = np.linspace(300, 900, 13)
    if fam == "eps":
        return {
            "L": elli.LorentzEnergy().add(A=12, E=3.3, gamma=0.2),
            "G": elli.Gaussian().add(A=2, E=3, sigma=0.5).add(A=1, E=4, sigma=0.3),
            "E": elli.EpsilonInf(eps=2.2),
            "2": 2,
            "T": elli.TableEpsilon(lbda=lb, epsilon=lb / 300 + 0.01j * lb),
            "h": 0.5,
            "P": elli.Polynomial(e0=1.3).add(f=1e3, e=-1),
            "F": Formula("eps = a + b * x", "x", {"a": 1.1, "b": 0.001}, {}, "nm"),
            "m": -1,
            "t": 5e-4,
            "0": 0,
            "B": 4e6,
        }
    return {
        "C": elli.Cauchy(n0=1.4, n1=30, k0=0.02),
        "K": elli.ConstantRefractiveIndex(n=1.7),
        "X": elli.CauchyCustomExponent(n0=1.2).add(f=50.0, e=-1),
        "2": 2,
        "N": elli.Table(lbda=lb, n=lb / 400 + 0.003j * lb),
        "h": 0.5,
        "U": elli.CauchyUrbach(n0=1.1, B=0.02, D=0.1),
        "I": elli.LorentzEnergy().add(A=12, E=3.3, gamma=0.2).as_index(),
        "m": -1,
        "t": 5e-4,
        "0": 0,
        "B": 4e6,
    }


def val(x, fam):
    if isinstance(x, (int, float)):
        return np.full(LB.shape, complex(x))
    f = x.get_dielectric if fam == "eps" else x.get_refractive_index
    return np.broadcast_to(np.asarray(f(LB), complex), LB.shape).copy()


def trees(leaves):
    """All bracketings of a leaf sequence."""
    if len(leaves) == 1:
        yield leaves[0]
        return
    for i in range(1, len(leaves)):
        for a in trees(leaves[:i]):
            for b in trees(leaves[i:]):
                yield (a, b)


def cases(tier):
    for fam in ("eps", "n"):
        names = list(atoms(fam))
        for n in (2, 3):
            for first in names:
                yield dict(kind="trees", fam=fam, n=n, first=[first], names=names)
        four = names[:9] if tier == "thorough" else names[:5]
        for a, b in itertools.product(four, repeat=2):
            yield dict(kind="trees", fam=fam, n=4, first=[a, b], names=four)
        if tier == "thorough":
            for a, b in itertools.product(names[:4], repeat=2):
                yield dict(kind="trees", fam=fam, n=5, first=[a, b], names=names[:4])
        for n in (5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 101):
            yield dict(kind="long", fam=fam, n=n)
        yield dict(kind="misuse", fam=fam)
        depth = 4 if tier == "quick" else 5
        for a, b in itertools.product(range(len(OPS)), repeat=2):
            yield dict(kind="hist", fam=fam, first=[a, b], depth=depth)
    for a, b in itertools.product(range(len(OPS)), repeat=2):  # index views of dielectric dispersions
        yield dict(kind="hist", fam="view", first=[a, b], depth=depth - 1)


CHUNK = 1
NUMS = ("2", "h", "m", "t", "0", "B")
TABS = ("T", "N")


def build(tree, A):
    """(object, leaves, supported)"""
    if isinstance(tree, str):
        return A[tree], [tree], True
    a, la, oka = build(tree[0], A)
    b, lb_, okb = build(tree[1], A)
    if not (oka and okb):
        return None, la + lb_, False
    if len(la) == 1 and len(lb_) == 1 and la[0] in TABS and lb_[0] in TABS:
        try:
            a + b
        except NotImplementedError:
            return None, la + lb_, False
        return "accepted", la + lb_, False
    return a + b, la + lb_, True


def check(case, out):
    fam = case["fam"]
    if case["kind"] == "trees":
        A = atoms(fam)
        base = {k: val(x, fam) for k, x in A.items()}
        shown = {k: repr(x) for k, x in A.items()}
        k = case["n"] - len(case["first"])
        progs = [case["tree"]] if "tree" in case else (t for rest in itertools.product(case["names"], repeat=k) for t in trees(case["first"] + list(rest)))
        for t in progs:
            if isinstance(t, list):
                t = tup(t)
            obj, leaves, ok = build(t, A)
            out.trans(len(leaves) - 1)
            if not ok:
                out.that(obj is None, "tables", f"the sum of two tables {t} was accepted")
                continue
            rep = dict(case, tree=t)
            want = sum(base[x] for x in leaves)
            out.trace()
            if all(x in NUMS for x in leaves):
                continue
            got = val(obj, fam)
            out.that(np.allclose(got, want, rtol=1e-10, atol=1e-10), "value", lambda: f"{t} evaluates to {got}, expected {want}", rep)
            for x in leaves:
                out.that(np.array_equal(val(A[x], fam), base[x]) and repr(A[x]) == shown[x], f"operand:{x}", lambda: f"building {t} changed the operand {x}", rep)
            other = np.asarray(obj.get_refractive_index(LB) if fam == "eps" else obj.get_dielectric(LB))
            out.that(np.allclose(other**2 if fam == "eps" else other, want if fam == "eps" else want**2, rtol=1e-9, atol=1e-9), "value:other", lambda: f"{t}: index and permittivity do not belong together", rep)
            ten = obj.get_mat().get_tensor(LB)[:, 1, 1]
            out.that(np.allclose(ten, want if fam == "eps" else want**2, rtol=1e-9, atol=1e-9), "value:material", lambda: f"{t} as material", rep)
            out.state(fam, t)
            if not set(leaves) & set(TABS) and (case["n"] == 2 or "tree" in case):  # without wavelengths: 200 to 1000 nm
                x = np.linspace(200, 1000, 801)
                w = sum((np.asarray(A[l].get_dielectric(x) if fam == "eps" else A[l].get_refractive_index(x)) if l not in NUMS else A[l]) for l in leaves) + 0 * x
                for g in (np.asarray(obj.get_dielectric()), np.asarray(obj.get_refractive_index()) ** 2, obj.get_dielectric_df().to_numpy() @ [1, 1j], (obj.get_refractive_index_df().to_numpy() @ [1, 1j]) ** 2):
                    out.that(np.shape(g) in ((), x.shape) and np.allclose(g, w if fam == "eps" else w**2, rtol=1e-9, atol=1e-9), "default range", lambda: f"{t} over the default range", rep)
        # python's sum() starts with the number 0
        objs = [A[x] for x in case["names"] if x not in NUMS + TABS]
        got = val(sum(objs), fam)
        out.that(np.allclose(got, sum(val(o, fam) for o in objs)), "builtin-sum", "sum() of a list of dispersions")
        out.sample({"family": fam, "leaves": case["n"]})
        return
    if case["kind"] == "long":
        A = atoms(fam)
        base = {k: val(x, fam) for k, x in A.items()}
        names, n = list(A), case["n"]
        for step, skip in ((1, ()), (1, TABS), (2, ()), (4, NUMS), (0, ())):
            use = [x for x in names if x not in skip]
            word = [use[(i * step) % len(use)] for i in range(n)]
            want = sum(base[x] for x in word)

            def left():
                r = A[word[0]]
                for x in word[1:]:
                    r = r + A[x]
                return r

            def right():
                r = A[word[-1]]
                for x in word[-2::-1]:
                    r = A[x] + r
                return r

            def halves(w):
                return A[w[0]] if len(w) == 1 else halves(w[: len(w) // 2]) + halves(w[len(w) // 2 :])

            def inplace():
                r = A[word[0]] + A[word[1]]
                for x in word[2:]:
                    r += A[x]
                return r

            for nm, f in (("left", left), ("right", right), ("halves", lambda: halves(word)), ("in place", inplace)):
                try:
                    obj = f()
                except NotImplementedError:
                    continue  # two tables met
                got = val(obj, fam)
                out.that(np.allclose(got, want, rtol=1e-10, atol=1e-10), "long", lambda: f"the sum of {n} terms {word[:9]}... built from the {nm} evaluates to {got}, expected {want}")
                out.trans(n - 1)
                out.state(fam, nm, word)
            for x in A:
                out.that(np.array_equal(val(A[x], fam), base[x]), f"operand:{x}", lambda: f"building a sum of {n} terms changed the operand {x}")
        out.trace()
        return
    if case["kind"] == "misuse":
        A, B = atoms(fam), atoms("n" if fam == "eps" else "eps")
        base = {k: val(x, fam) for k, x in A.items()}
        a_list = [(k, x) for k, x in A.items() if k not in NUMS]
        b_list = [(k, x) for k, x in B.items() if k not in NUMS]
        s = a_list[0][1] + a_list[1][1]
        t = b_list[0][1] + b_list[1][1]
        a_list.append(("sum", s))
        b_list.append(("sum", t))
        base["sum"] = val(s, fam)
        bad = b_list + [(repr(x), x) for x in ("1", None, 1 + 2j, [1], np.array([1.0, 2.0, 3.0]), {}, lab.iso(1.5))]
        for (an, a), (bn, b) in itertools.product(a_list, bad):
            for order in (0, 1):
                out.trans()
                if isinstance(b, np.ndarray) and order == 1:
                    continue
                try:
                    r = a + b if order == 0 else b + a
                except TypeError:
                    out.ev()
                else:
                    out.that(False, "misuse", f"{(an, bn) if order == 0 else (bn, an)} was added: {r}")
                out.that(np.array_equal(val(a, fam), base[an]), f"misuse:{an}", f"a rejected addition of {bn} changed {an}")
                if hasattr(a, "dispersions") or hasattr(a, "index_dispersions"):
                    out.that(len(getattr(a, "dispersions", None) or a.index_dispersions) == 2, "misuse:sum", "a rejected addition left its operand in the sum")
            out.state("misuse", fam, an, bn)
        return
    if "seq" in case:
        return history(case, out, fam, case["seq"])
    n = len(OPS)
    for length in range(case["depth"] - 1):
        for rest in itertools.product(range(n), repeat=length):
            history(case, out, fam, tuple(case["first"]) + rest)


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


# two operands a, b; two sums s, t (terms by reference)
OPS = [
    ("s=a+b",), ("t=s+a",), ("t=b+s",), ("s=s+t",), ("s+=a",), ("t+=2",), ("edit a",), ("term b",), ("edit b",),
    ("t=s",), ("t=deepcopy s",), ("s=pickle s",), ("eval",), ("set a",), ("set b",),
]


def history(case, out, fam, seq):
    for reads in (False, True):
        history_(case, out, fam, seq, reads)


def history_(case, out, fam, seq, reads):
    if fam == "eps":
        a, b = elli.EpsilonInf(eps=1.5), elli.LorentzEnergy().add(A=3, E=4, gamma=0.3)
    elif fam == "view":
        a, b = elli.ConstantRefractiveIndex(n=1.5), elli.LorentzEnergy().add(A=3, E=4, gamma=0.3).as_index()
    else:
        a, b = elli.ConstantRefractiveIndex(n=1.5), elli.CauchyCustomExponent(n0=1.2).add(f=20.0, e=-1)
    key = "eps" if fam == "eps" else "n"
    # the model: cells (kind, parameter dicts), a sum is a list of cells
    ca, cb = ["a", {key: 1.5}, []], ["b", {"n0": 1.2} if fam == "n" else {}, [dict(A=3, E=4, gamma=0.3) if fam != "n" else dict(f=20.0, e=-1)]]
    s, ms = a + b, [ca, cb]
    t, mt = s + 1, [ca, cb, 1]

    def value(cell):
        if isinstance(cell, int):
            return np.full(LB.shape, complex(cell))
        if cell[0] == "a":
            return np.full(LB.shape, complex(cell[1][key]))
        if fam != "n":
            e = 1239.841984332003 / LB
            v = 1 + sum(c["A"] / (c["E"] ** 2 - e**2 - 1j * c["gamma"] * e) for c in cell[2])
            return v if fam == "eps" else np.sqrt(v)
        return cell[1]["n0"] + sum(c["f"] * LB ** c["e"] for c in cell[2]) + 0j

    def clone(cells):
        memo = {}
        return copy.deepcopy(cells, memo)

    for step, k in enumerate(seq):
        op = OPS[k][0]
        out.trans()
        if reads:
            for x in (a, b, s, t):
                val(x, fam), x.get_dielectric(LB), x.get_refractive_index(LB)
        if op == "s=a+b":
            s, ms = a + b, [ca, cb]
        elif op == "t=s+a":
            t, mt = s + a, ms + [ca]
        elif op == "t=b+s":
            t, mt = b + s, [cb] + ms
        elif op == "s=s+t":
            if len(ms) + len(mt) < 20:
                s, ms = s + t, ms + mt
        elif op == "s+=a":
            s += a
            ms = ms + [ca]
        elif op == "t+=2":
            t += 2
            mt = mt + [2]
        elif op == "edit a":
            a.single_params[key] = 1.6 + step
            ca[1][key] = 1.6 + step
        elif op == "term b":
            new = dict(A=2 + step, E=5.0, gamma=0.1) if fam != "n" else dict(f=3.0 + step, e=-0.5)
            b.add(**new)
            cb[2].append(new)
        elif op == "edit b":
            q = "A" if fam != "n" else "f"
            b.rep_params[0][q] = 7.0 + step
            cb[2][0][q] = 7.0 + step
        elif op == "set a":  # the parameters are replaced as a whole
            a.single_params = {key: 2.1 + step}
            ca[1][key] = 2.1 + step
        elif op == "set b":
            new = dict(A=1.5 + step, E=4.5, gamma=0.2) if fam != "n" else dict(f=8.0 + step, e=-0.75)
            if fam == "view":
                b.rep_params[:] = [dict(new)]
            else:
                b.rep_params = [dict(new)]
            cb[2][:] = [new]
        elif op == "t=s":
            t, mt = s, ms
        elif op == "t=deepcopy s":
            t, mt = copy.deepcopy(s), clone(ms)
        elif op == "s=pickle s":
            # index views have a class of their own that cannot be pickled
            s, ms = copy.deepcopy(s) if fam == "view" else pickle.loads(pickle.dumps(s)), clone(ms)
        elif op == "eval":
            s.get_dielectric(LB), t.get_refractive_index(LB), repr(s), t.get_mat().get_tensor(LB)
    out.trace()
    rep = dict(case, seq=list(seq))
    what = [OPS[k][0] for k in seq]
    for nm, obj, cells in (("s", s, ms), ("t", t, mt), ("a", a, [ca]), ("b", b, [cb])):
        got, want = val(obj, fam), sum(value(c) for c in cells)
        out.that(np.allclose(got, want, rtol=1e-7, atol=1e-9), f"history:{nm}", lambda: f"{nm} evaluates to {got}, expected {want} after {what}", rep)
    out.state(fam, [[c if isinstance(c, int) else [c[0], c[1], c[2]] for c in m] for m in (ms, mt)])
