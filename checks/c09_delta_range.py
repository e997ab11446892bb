"""C09: delta range conversion adds full turns and lands in the requested range."""

import copy

import numpy as np
import pandas as pd

from mc import lab, ref
from mc.lab import elli

ID = "C09"
LEVEL = "model_checking"
RULE = (
    "values: every angle of a grid over seven turns (including range bounds and their float neighbours) x every "
    "admissible range x container type; histories: every sequence of range requests (admissible and not), copies and "
    "reads on two results and a list sharing them, up to the depth. state = (ranges of all objects) or (range, container); "
    "transition = one operation; every history is replayed on the real objects and on a reference table"
)
BOUNDS = {
    "quick": "all 361 full-turn ranges and (0, 180) x 400+ angles x 9 containers; all histories of length <= 3 over 20 operations",
    "thorough": "10000 angles; all histories of length <= 4",
}
ASSUMPTIONS = ["a value may sit on the upper bound when it rounds to it"]

OKR = [(-180, 180), (0, 360), (0, 180), (-90, 270), (-360, 0), (-1, 359)]
BADR = [(0, 181), (-180, 179), (20, 180), (-361, -1), (10, 370), (0, 720), (360, 0), (180, 0), (-90, 90), (0.0, 360.0), (0, 360.0), (-180.0, 180), ("a", "b"), (None, 360)]


def angles(tier):
    n = 10000 if tier == "thorough" else 200
    a = [k * 90.0 for k in range(-14, 15)] + [k * 90.0 + d for k in range(-8, 9) for d in (1e-9, -1e-9, 0.5, -0.5, 37.25, 1e-3)]
    a += list(np.linspace(-1260, 1260, n))
    a += [float(np.nextafter(x, y)) for x in (-360.0, -180.0, 0.0, 180.0, 360.0) for y in (-np.inf, np.inf)]
    return np.array(a)


def fold(a, lo, up):
    """Reference: (value, period)."""
    if (lo, up) == (0, 180):
        w = np.mod(a, 360.0)
        return np.where(w > 180, 360 - w, w)
    return np.mod(a - lo, 360.0) + lo


def same_angle(got, want, lo, up):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    if (lo, up) == (0, 180):
        return bool(np.all(np.abs(got - want) < 1e-9) and np.all((got >= 0) & (got <= 180)))
    d = np.abs(np.mod(got - want + 180, 360) - 180)
    return bool(np.all(d < 1e-9) and np.all((got >= lo) & (got <= up)))


def cases(tier):
    rngs = [(lo, lo + 360) for lo in range(-360, 1)] + [(0, 180)]
    for r in rngs:
        yield dict(kind="values", range=list(r), tier=tier)
    for r in range(len(BADR)):
        yield dict(kind="bad", r=r)
    for lo in range(-362, 4):  # every bound around the limits, every width that is off by one
        yield dict(kind="limits", lo=lo)
    depth = 3 if tier == "quick" else 4
    nops = len(ops())
    for a in range(nops):
        for b in range(nops):
            yield dict(kind="hist", prefix=[a, b], depth=depth)


# -- histories --------------------------------------------------------------
def ops():
    res = [("range", i, r) for i in (0, 1) for r in OKR]
    res += [("bad", 0, r) for r in (BADR[0], BADR[2], BADR[9])]
    res += [("read", 0), ("read", 1), ("copy", 0), ("deepcopy", 0), ("list",)]
    return res


def make():
    from elli.result import Result

    g = [1, 1j, -1, -1j, 0.5 + 0.5j, -0.4 - 0.9j, 0.1 - 0.3j, -2 + 0.01j]
    J = np.array([[[a, 0.3 * b], [0.2j * b, 0.5]] for a, b in zip(g, g[3:] + g[:3])], complex)
    lb = np.linspace(400, 700, len(g))
    exp = elli.Experiment(elli.Structure(lab.iso(1), [], lab.iso(1.5)), lb, 60, [1, 0.6, 0.8, 0])
    return [Result(exp, J, J[::-1] * 0.7), Result(exp, J[::-1] * 0.9, J[[3, 2, 1, 0, 7, 6, 5, 4]])]


QUANT = ["delta", "delta_t", "delta_matrix", "delta_matrix_t"]
OTHER = ["psi", "psi_t", "psi_matrix", "rho_matrix", "rho_matrix_t", "mueller_matrix", "R", "T", "jones_matrix_r", "jones_matrix_t", "Rc_matrix"]


def history(case, out, seq, base):
    res = make()
    rng = [(-180, 180), (-180, 180)]
    extra = []  # frozen copies: (result, which base, range)
    lst = elli.ResultList(list(res))

    def judge(r, b, rg, who):
        for q in QUANT:
            raw = base[b][q]
            out.that(same_angle(getattr(r, q), fold(raw, *rg), *rg), f"history:{q}", lambda: f"{q} of {who} in range {rg} is {np.ravel(getattr(r, q))[:5]}, expected {np.ravel(fold(raw, *rg))[:5]} after {[ops()[k] for k in seq]}", dict(case, seq=list(seq)))
        for q in OTHER:
            out.that(lab.err(getattr(r, q), base[b][q]) < 1e-12, f"history:{q}", lambda: f"{q} of {who} changed with the delta range after {[ops()[k] for k in seq]}", dict(case, seq=list(seq)))
        for nm in ("rho", "rho_t"):
            want = base[b][nm]
            if rg == (0, 180):
                want = want.real - 1j * np.abs(want.imag)
            out.that(lab.err(getattr(r, nm), want) < 1e-12, f"history:{nm}", lambda: f"{nm} of {who} in range {rg} after {[ops()[k] for k in seq]}", dict(case, seq=list(seq)))

    for k in seq:
        op = ops()[k]
        out.trans()
        if op[0] == "range":
            back = res[op[1]].as_delta_range(*op[2])
            out.that(back is res[op[1]], "history:self", "as_delta_range did not return the result itself")
            rng[op[1]] = op[2]
        elif op[0] == "bad":
            try:
                res[op[1]].as_delta_range(*op[2])
            except (TypeError, ValueError):
                out.ev()
            else:
                out.that(False, "history:bad", f"range {op[2]} was accepted")
        elif op[0] == "read":
            judge(res[op[1]], op[1], rng[op[1]], f"result {op[1]}")
        elif op[0] == "copy":
            extra.append((copy.copy(res[op[1]]), op[1], rng[op[1]]))
        elif op[0] == "deepcopy":
            extra.append((copy.deepcopy(res[op[1]]), op[1], rng[op[1]]))
        elif op[0] == "list":
            lst = elli.ResultList([res[1], res[0]])
            lst = elli.ResultList(lst.results[::-1])
    out.trace()
    out.state(rng, [(b, r) for _, b, r in extra])
    for i in (0, 1):
        judge(res[i], i, rng[i], f"result {i}")
    for n, (r, b, rg) in enumerate(extra):
        judge(r, b, rg, f"copy {n} of result {b}")
    want = np.array([np.asarray(r.delta) for r in res])
    out.that(lab.err(lst.delta, want) < 1e-12, "history:list", lambda: f"delta of the list differs from its members after {[ops()[k] for k in seq]}", dict(case, seq=list(seq)))
    out.that(lab.err(lst.mean.delta, want.mean(axis=0)) < 1e-9, "history:mean", lambda: "mean delta differs", dict(case, seq=list(seq)))


_BASE = []


def base_values():
    """Raw values without a range, computed from the amplitudes (not with the code under test)."""
    if not _BASE:
        for r in make():
            d = {}
            for sfx, J in (("", r.jones_matrix_r), ("_t", r.jones_matrix_t)):
                rho = J / J[:, 1:, 1:]
                e = np.array([np.sqrt(0.8), 0.8 / (2 * np.sqrt(0.8))])
                f = J @ e
                d["rho_matrix" + sfx] = rho
                d["delta_matrix" + sfx] = -np.degrees(np.angle(rho))
                d["delta" + sfx] = -np.degrees(np.angle(f[:, 0] / f[:, 1]))
                d["rho" + sfx] = f[:, 0] / f[:, 1]
            for q in OTHER:
                d.setdefault(q, np.array(getattr(r, q)))
            _BASE.append(d)
    return _BASE


def check(case, out):
    conv = elli.utils.convert_delta_range
    if case["kind"] == "hist":
        base = base_values()
        n = len(ops())
        if "seq" in case:
            return history(case, out, case["seq"], base)
        history(case, out, case["prefix"], base)
        for c in range(n):
            history(case, out, case["prefix"] + [c], base)
            if case["depth"] > 3:
                for d in range(n):
                    history(case, out, case["prefix"] + [c, d], base)
        return
    if case["kind"] == "bad":
        r = BADR[case["r"]]
        from elli.utils import DeltaRange

        for f in (lambda: conv(np.array([1.0, 200.0]), *r), lambda: DeltaRange(*r)):
            try:
                got = f()
            except (TypeError, ValueError):
                out.ev()
            else:
                out.that(False, "bad-range", f"range {r} was accepted: {got}")
        out.state("bad", str(r))
        return
    if case["kind"] == "limits":
        lo = case["lo"]
        from elli.utils import DeltaRange

        for up in sorted({lo + 359, lo + 360, lo + 361, lo + 180, lo + 720, -1, 0, 1, 179, 180, 181, 359, 360, 361}):
            ok = (-360 <= lo <= 0 and up - lo == 360) or (lo, up) == (0, 180)
            out.trans()
            try:
                DeltaRange(lo, up)
                got = True
            except ValueError:
                got = False
            out.that(got == ok, "limits", f"range ({lo}, {up}) is {'accepted' if got else 'rejected'}")
            out.state("limits", lo, up, ok)
        return
    lo, up = case["range"]
    a = angles(case["tier"])
    want = fold(a, lo, up)

    def judge(how, got, src=None, w=None, arg=None):
        out.trans()
        out.state(case["range"], how)
        g = np.asarray(got, float)
        ww = want if w is None else w
        if src is not None:
            out.that(np.array_equal(np.asarray(src[0]), src[1]), f"values:{how}:input", f"the input was modified ({how}, range {lo},{up})")
        ok = same_angle(g, ww, lo, up)
        out.that(ok, f"values:{how}", lambda: f"{how}: conversion to ({lo}, {up}) wrong, e.g. {[(x, y, z) for x, y, z in zip(np.ravel(a if arg is None else arg), np.ravel(g), np.ravel(ww)) if not same_angle(y, z, lo, up)][:3]}")

    x = a.copy()
    once = conv(x, lo, up)
    judge("array", once, (x, a))
    judge("twice", conv(np.array(once), lo, up), w=np.asarray(once))
    inside = a[(a > lo + 1e-6) & (a < up - 1e-6)]
    got = np.asarray(conv(inside, lo, up))
    out.that(lab.err(got, inside) < 1e-9, "values:inside", f"values inside ({lo}, {up}) were changed")
    for sz in (1, 2, 3, 64, 65, 257):
        judge(f"array{sz}", conv(a[:sz].copy(), lo, up), w=want[:sz], arg=a[:sz])
    m = len(a) // 6 * 6
    judge("2d", conv(a[:m].reshape(6, -1), lo, up), w=want[:m].reshape(6, -1), arg=a[:m])
    judge("3d", conv(a[:m].reshape(2, 3, -1), lo, up), w=want[:m].reshape(2, 3, -1), arg=a[:m])
    judge("empty", conv(a[:0], lo, up), w=want[:0], arg=a[:0])
    s = pd.Series(a, index=np.arange(len(a)) * 2.0 + 300)
    c = conv(s, lo, up)
    judge("series", c, (s, a))
    out.that(isinstance(c, pd.Series) and c.index.equals(s.index), "values:series-index", "a Series lost its index")
    df = pd.DataFrame({"Ψ": a, "Δ": a})
    judge("column", conv(df.loc[:, "Δ"], lo, up), (df["Ψ"], a))
    ints = np.arange(-1260, 1261, 15)
    judge("int", conv(ints, lo, up), w=fold(ints.astype(float), lo, up), arg=ints)
    for v in a[:: max(1, len(a) // 60)]:
        judge("scalar", conv(float(v), lo, up), w=fold(float(v), lo, up), arg=[v])
    for v in (-720, -360, -181, -180, -1, 0, 1, 90, 179, 180, 181, 270, 359, 360, 361, 720):
        judge("pyint", conv(v, lo, up), w=fold(float(v), lo, up), arg=[v])
    out.trace()
    out.sample(dict(case, angles=len(a)))
