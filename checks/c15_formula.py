"""C15: formula dispersions evaluate their formula."""

import cmath
import copy
import itertools
import math
import pickle
import warnings

import numpy as np
from scipy.special import dawsn

from mc import disp, lab
from mc.lab import elli

ID = "C15"
LEVEL = "exploration"
RULE = (
    "every expression tree up to the bound over the grammar's operators, functions, names, constants and sums, written with minimal "
    "brackets, full brackets and odd spacing, in both representations; all identifiers of the name alphabet in all roles; all axis units; "
    "all one-character deletions/insertions that leave the language; parameter errors. state = one program with a defined value; "
    "evaluation = one comparison with the evaluation of the tree"
)
BOUNDS = {
    "quick": "plain trees with <=2 binary operators over 7 leaves (all), 3 operators over 3 leaves (all shapes); sums with <=2 operators over 7 leaves; R,N in 1..3; 21 lengths R of 4..129 with N = 1,2,3,R-1,R,R+1; N up to 1025; parameters of each number type; chains of 4..32 operators, nesting up to 30, up to 50 parameters",
    "thorough": "plain trees with <=3 operators over 5 leaves; sums with <=3 operators over 4 leaves",
}
ASSUMPTIONS = [
    "a sign directly before a literal belongs to the literal (-2**2 is (-2)**2), as the grammar states",
    "programs whose value is not finite, or leaves the domain of a real function, are counted and skipped",
]
TIMEOUT = {"quick": 300, "thorough": 2000}

OPS = ["+", "-", "*", "/", "**"]
LEAVES = ["x", "a", "2", "-3", "pi", "1j", "0.5"]
LEAVES3 = ["x", "a", "1.5e0"]
LEAVES3T = ["x", "a", "-3", "1j", "2"]
SUML = ["x", "A", "B", "a", "2", "-0.5", "pi"]
SUML3 = ["x", "A", "a", "B"]
FUNCS = ["sin", "cos", "tan", "sqrt", "dawsn", "ln", "log", "heaviside"]
CONST = {"pi": math.pi, "1j": 1j, "c": 299792458.0, "h": 6.62607015e-34, "hbar": 6.62607015e-34 / 2 / math.pi, "eps_0": 8.8541878188e-12}
PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "**": 3}
SINGLE = {"a": 1.7, "b": -0.6}
REPS = {"A": [0.4, 2.1, -1.3], "B": [3.0, -1.25, 0.7]}
XS = [0.7, 1.3, 2.9]


def trees(nops, leaves):
    if nops == 0:
        for l in leaves:
            yield l
        return
    for k in range(nops):
        for op in OPS:
            for l in trees(k, leaves):
                for r in trees(nops - 1 - k, leaves):
                    yield [op, l, r]


def text(t, style, need=1):
    """minimal, full or spaced rendering"""
    if isinstance(t, str):
        return t
    if len(t) == 2:
        if t[0] == "sum":
            return f"sum[{text(t[1], style)}]" if style != "spaced" else f"sum [ {text(t[1], style)} ]"
        return f"{t[0]}({text(t[1], style)})" if style != "spaced" else f"{t[0]} ( {text(t[1], style)} )"
    op, l, r = t
    p = PREC[op]
    ln, rn = (4, 4) if op == "**" else (p, p + 1)
    s = {"minimal": op, "full": f" {op} ", "spaced": f"\t {op}  "}[style]
    body = text(l, style, 4 if style == "full" else ln) + s + text(r, style, 4 if style == "full" else rn)
    return f"({body})" if p < need else body


class Undefined(Exception):
    pass


def value(t, env, reps=None, i=None):
    if isinstance(t, str):
        if t in CONST:
            return CONST[t]
        if t in env:
            return env[t]
        if reps and t in reps:
            return reps[t][i]
        return float(t)
    if len(t) == 2:
        if t[0] == "sum":
            n = len(next(iter(reps.values()))) if reps else 0
            return sum((value(t[1], env, reps, k) for k in range(n)), 0.0)
        v = value(t[1], env, reps, i)
        f = t[0]
        if f in ("sin", "cos", "tan", "dawsn") and abs(v) > 1e3:
            raise Undefined()
        if isinstance(v, complex):
            if f == "heaviside":
                raise Undefined()
            return {"sin": cmath.sin, "cos": cmath.cos, "tan": cmath.tan, "sqrt": cmath.sqrt, "dawsn": dawsn, "ln": cmath.log, "log": cmath.log10}[f](v)
        if f == "heaviside":
            return 0.5 if v == 0 else float(v > 0)
        if f in ("ln", "log") and v <= 0:
            raise Undefined()
        if f == "sqrt":
            return math.sqrt(v) if v >= 0 else 1j * math.sqrt(-v)
        return {"sin": math.sin, "cos": math.cos, "tan": math.tan, "dawsn": dawsn, "ln": math.log, "log": math.log10}[f](v)
    op, a, b = t[0], value(t[1], env, reps, i), value(t[2], env, reps, i)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if not isinstance(a, complex) and not isinstance(b, complex) and a < 0 and b != int(b):
        raise Undefined()
    if (isinstance(a, complex) or isinstance(b, complex)) and abs(b) > 1e3 or abs(b) > 1e4:
        raise Undefined()  # phase of a huge power: numerically meaningless
    return a**b


def cond(t, env, reps):
    """value, and its change when every leaf is perturbed: a scale for the tolerance"""
    try:
        v = value(t, env, reps)
        if not cmath.isfinite(complex(v)) or abs(v) > 1e60:
            return None
        return v
    except (Undefined, ZeroDivisionError, OverflowError):
        return None


def build(s, rep, single=SINGLE, reps=None, unit=None, axis="x"):
    cls = elli.Formula if rep == "eps" else elli.FormulaIndex
    return cls(f"{rep} = {s}", axis, single, {k: np.array(v) for k, v in (reps or {}).items()}, unit)


def ask(d, rep, x):
    return d.get_dielectric(x) if rep == "eps" else d.get_refractive_index(x)


def cases(tier):
    def block(kind, total, size, **kw):
        for lo in range(0, total, size):
            yield dict(kind=kind, lo=lo, hi=min(total, lo + size), **kw)

    for n, leaves in ((0, "LEAVES"), (1, "LEAVES"), (2, "LEAVES"), (3, "LEAVES3" if tier == "quick" else "LEAVES3T")):
        total = sum(1 for _ in trees(n, globals()[leaves]))
        yield from block("plain", total, 600, n=n, leaves=leaves)
    for n, leaves in ((0, "SUML"), (1, "SUML"), (2, "SUML")) + (() if tier == "quick" else ((3, "SUML3"),)):
        total = sum(1 for _ in trees(n, globals()[leaves]))
        yield from block("sum", total, 600, n=n, leaves=leaves)
    yield dict(kind="functions")
    yield dict(kind="sumops")
    for i in range(8):
        yield dict(kind="names", part=i)
    yield dict(kind="units")
    for i in range(4):
        yield dict(kind="mutants", part=i)
    yield dict(kind="errors")
    yield dict(kind="shapes")
    yield dict(kind="types")
    for part in range(6):
        yield dict(kind="long", part=part)
    yield dict(kind="later")


CHUNK = 1


def judge(out, t, reps, rep, style, single=SINGLE, xs=XS, key="plain"):
    want = [cond(t, {"x": x, **single}, reps) for x in xs]
    if any(w is None for w in want):
        out.count("undefined")
        return None
    s = text(t, style)
    replay = dict(kind="one", tree=t, reps=reps, rep=rep, style=style, xs=xs, single=single)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = np.asarray(ask(build(s, rep, single, reps), rep, np.array(xs)))
        except Exception as e:
            out.that(False, f"{key}:error", f"{rep} = {s}: {type(e).__name__} {str(e)[:200]}", replay)
            return None
    w = np.array(want, complex)
    g = np.broadcast_to(got, w.shape)
    big = max(1.0, float(np.abs(w).max()))
    out.that(bool(np.allclose(g, w, rtol=1e-9, atol=1e-11 * big)), key, lambda: f"{rep} = {s} with {single}, {reps} at {xs}: {g}, expected {w}", replay)
    out.state(s, rep)
    return s


def subreps(R):
    return {k: v[:R] for k, v in REPS.items()}


def long(part, out):
    """many terms, many wavelengths, long chains, deep nesting, many parameters"""
    x2 = ["**", "x", "2"]
    bodies = {
        "sellmeier": ["sum", ["/", ["*", "A", x2], ["-", x2, "B"]]],
        "constant": ["sum", "2"],
        "poly": ["+", "a", ["sum", ["*", "A", ["**", "x", "B"]]]],
        "two": ["-", ["sum", "A"], ["*", "x", ["sum", ["/", "B", "x"]]]],
        "nox": ["sum", ["*", "A", "B"]],
    }
    if part < 3:
        rs = {0: (4, 5, 6, 7, 8, 9, 10), 1: (15, 16, 17, 20, 31, 32, 33), 2: (63, 64, 65, 100, 127, 128, 129)}[part]
        for R in rs:
            reps = {"A": [round(0.3 + (7 * i % 11) / 10, 3) for i in range(R)], "B": [round(-1.05 - (5 * i % 13) / 4, 3) for i in range(R)]}
            for N in (1, 2, 3, R - 1, R, R + 1):
                xs = [round(0.5 + 0.13 * i, 4) for i in range(N)]
                for b, t in bodies.items():
                    judge(out, t, reps, ("eps", "n")[N % 2], "minimal", xs=xs, key=f"long:{b}")
    elif part == 3:
        for N in (64, 65, 100, 128, 129, 255, 256, 257, 513, 1000, 1001, 1025):
            xs = [round(0.5 + 0.013 * i, 4) for i in range(N)]
            for b, t in bodies.items():
                for R in (1, 2, 3):
                    judge(out, t, subreps(R), ("eps", "n")[R % 2], "minimal", xs=xs, key=f"long:{b}")
            for t in ("x", "a", ["+", ["sqrt", "x"], "1j"]):
                judge(out, t, {}, "eps", "minimal", xs=xs, key="long:plain")
    elif part == 4:
        for op, alt in (("+", "-"), ("-", "+"), ("*", "/"), ("/", "*"), ("-", "-"), ("/", "/")):
            for n in range(4, 33):
                leaves = [LEAVES[i % 5] for i in range(n)]
                left = leaves[0]
                for i, l in enumerate(leaves[1:]):
                    left = [op if i % 2 else alt, left, l]
                right = leaves[-1]
                for i, l in enumerate(leaves[-2::-1]):
                    right = [op if i % 2 else alt, l, right]
                for t in (left, right):
                    for style in ("minimal", "full"):
                        judge(out, t, {}, ("eps", "n")[n % 2], style, key="long:chain")
        for f in ("sin", "sqrt", "dawsn"):
            t = ["+", "x", "1.5"]
            for n in range(20):
                t = [f, t]
                judge(out, t, {}, "eps", "minimal", key="long:nested")
        for n in range(1, 30):
            s = "(" * n + "x+a" + ")" * n + "*2"
            got = np.asarray(build(s, "eps").get_dielectric(np.array(XS)))
            out.that(np.allclose(got, [2 * (v + 1.7) for v in XS]), "long:brackets", f"{s} is {got}")
    else:
        for n in (5, 10, 11, 20, 26, 50):
            single = {f"p{i}": 0.5 + i for i in range(n)}
            reps = {f"R{i}": [1.0 + i, 0.25 * i, -2.0] for i in range(n)}
            s = "+".join(f"p{i}*x**{i % 3}" for i in range(n))
            xs = np.array(XS)
            want = sum((0.5 + i) * xs ** (i % 3) for i in range(n))
            got = np.asarray(build(s, "eps", single, {}).get_dielectric(xs))
            out.that(np.allclose(got, want), "long:names", f"{n} single parameters: {got}, expected {want}")
            s2 = s + "+sum[" + "+".join(f"R{i}*x**{i % 2}" for i in range(n)) + "]-sum[R0*p1]"
            want = want + sum(sum(r) * xs ** (i % 2) for i, r in enumerate(reps.values())) - 1.5 * sum(reps["R0"])
            got = np.asarray(build(s2, "n", single, reps).get_refractive_index(xs))
            out.that(np.allclose(got, want), "long:names", f"{n} single and repeated parameters: {got}, expected {want}")
            out.state("names", n)


def check(case, out):
    kind = case["kind"]
    if kind == "one":
        judge(out, case["tree"], case["reps"], case["rep"], case["style"], case["single"], case["xs"])
        return
    if kind == "plain":
        for j, t in enumerate(itertools.islice(trees(case["n"], globals()[case["leaves"]]), case["lo"], case["hi"])):
            styles = ("minimal", "full", "spaced") if case["n"] < 2 else ("minimal", "full") if j % 8 == 0 else ("minimal",)
            for style in styles:
                judge(out, t, {}, ("eps", "n")[j % 2], style)
        out.sample(case)
        return
    if kind == "sum":
        for j, t in enumerate(itertools.islice(trees(case["n"], globals()[case["leaves"]]), case["lo"], case["hi"])):
            combos = [(R, N) for R in (1, 2, 3) for N in (1, 2, 3)] if case["n"] < 2 else [((j % 3) + 1, ((j // 3) % 3) + 1)]
            for R, N in combos:
                judge(out, ["sum", t], subreps(R), ("eps", "n")[j % 2], "full" if j % 5 == 0 else "minimal", xs=XS[:N], key="sum")
        out.sample(case)
        return
    if kind == "functions":
        args = ["x", "a", "b", "2", "1", "0", "-3", "1j", "pi", ["+", "x", "1j"], ["*", "2", "x"], ["-", "x", "1.3"], ["-", "1.3", "x"], ["**", "x", "2"], ["/", "1", "x"]]
        for f in FUNCS:
            for a in args:
                for rep in ("eps", "n"):
                    for style in ("minimal", "full", "spaced"):
                        judge(out, [f, a], {}, rep, style, key=f"function:{f}")
                for op in OPS:
                    judge(out, [op, [f, a], "x"], {}, "eps", "minimal", key=f"function:{f}")
                    judge(out, [op, "x", [f, a]], {}, "eps", "minimal", key=f"function:{f}")
                for g in FUNCS:
                    judge(out, [g, [f, a]], {}, "n", "minimal", key=f"function:{f}")
            for a in ("x", "A", "B", "a", ["*", "A", "x"], ["-", "x", "A"], ["+", "A", "B"], ["-", "A", "A"], ["-", "x", "x"]):
                for R in (1, 2, 3):
                    judge(out, ["sum", [f, a]], subreps(R), "eps", "minimal", key=f"function:{f}:sum")
                    judge(out, ["sum", ["*", "A", [f, a]]], subreps(R), "n", "full", key=f"function:{f}:sum")
        for cst in CONST:
            for rep in ("eps", "n"):
                for t in (cst, ["*", cst, "x"], ["/", "x", cst], ["+", ["/", cst, cst], "x"], ["*", ["*", cst, "1e20"], "a"]):
                    w = cond(t, {"x": 1.3, **SINGLE}, {})
                    got = complex(np.ravel(ask(build(text(t, "minimal"), rep), rep, np.array([1.3])))[0])
                    out.that(abs(got - w) <= 1e-9 * abs(w), f"constant:{cst}", f"{text(t, 'minimal')} is {got}, expected {w}")
                for t in (["*", cst, "A"], ["/", "A", cst], cst):
                    for R in (1, 3):
                        w = cond(["sum", t], {"x": 1.3, **SINGLE}, subreps(R))
                        got = complex(np.ravel(ask(build(f"sum[{text(t, 'minimal')}]", rep, reps=subreps(R)), rep, np.array([1.3])))[0])
                        out.that(abs(got - w) <= 1e-9 * abs(w), f"constant:{cst}:sum", f"sum[{text(t, 'minimal')}] is {got}, expected {w}")
        for num, w in (("5", 5), ("5.", 5), (".5", 0.5), ("0.25e1", 2.5), ("1e-3", 1e-3), ("1E+3", 1e3), ("-1.5e-2", -0.015), ("+7", 7), ("007", 7), ("1234567.125", 1234567.125), ("0", 0)):
            for s, f in ((num, lambda v: v), (f"x+{num}", lambda v: 1.3 + v), (f"x-{num}", lambda v: 1.3 - v), (f"{num}*x", lambda v: 1.3 * v), (f"sum[A*{num}]", lambda v: 0.8 * v if False else (0.4 + 2.1) * v)):
                got = complex(np.ravel(build(s, "eps", reps=subreps(2)).get_dielectric(np.array([1.3])))[0])
                out.that(abs(got - f(w)) < 1e-9 * max(1, abs(f(w))), "number", f"{s} at 1.3 is {got}, expected {f(w)}")
        return
    if kind == "sumops":
        inner = ["A", "x", ["*", "A", "x"], ["/", ["*", "A", ["**", "x", "2"]], ["-", ["**", "x", "2"], "B"]], "2", "a"]
        for i, j in itertools.product(range(len(inner)), repeat=2):
            for op in OPS:
                for R, N in ((1, 1), (1, 3), (2, 2), (3, 3), (3, 2), (2, 3)):
                    judge(out, [op, ["sum", inner[i]], ["sum", inner[j]]], subreps(R), "eps", "minimal", xs=XS[:N], key="sums")
        for i in range(len(inner)):
            for op in OPS:
                for l in LEAVES:
                    for R, N in ((1, 1), (2, 2), (3, 3), (3, 2)):
                        judge(out, [op, ["sum", inner[i]], l], subreps(R), "n", "minimal", xs=XS[:N], key="sums")
                        judge(out, [op, l, ["sum", inner[i]]], subreps(R), "eps", "spaced", xs=XS[:N], key="sums")
            for f in FUNCS:
                judge(out, [f, ["sum", inner[i]]], subreps(3), "eps", "minimal", key="sums")
        # published dispersion laws
        for R in (1, 2, 3):
            x2 = ["**", "x", "2"]
            sell = ["+", "1", ["sum", ["/", ["*", "A", x2], ["-", x2, ["**", "B", "2"]]]]]
            judge(out, sell, subreps(R), "eps", "minimal", key="sellmeier")
            lor = ["+", "a", ["sum", ["/", ["*", "A", "B"], ["-", ["-", ["**", "B", "2"], x2], ["*", ["*", "1j", "A"], "x"]]]]]
            judge(out, lor, subreps(R), "eps", "minimal", key="lorentz")
        return
    if kind == "long":
        long(case["part"], out)
        return
    if kind == "names":
        names = ["x", "y", "A", "_a", "a1", "lbda", "lambda", "e", "E", "E0", "h1", "hbarx", "hx", "c1", "cc", "ch", "pi2", "pix", "eps", "eps0", "eps_00", "eps_inf", "epsinf",
                 "n", "n0", "k", "sinx", "sin1", "cosh", "tanh", "sqrt2", "lnx", "logx", "ln2", "log10", "sum1", "summe", "sums", "heaviside1", "dawsnx", "i", "j", "j1", "I",
                 "energy", "wavelength", "Very_Long_Name_12345", "x_y_z", "__", "x1e3", "e3", "inf", "nan", "None", "if", "s", "l"]
        for i, a in enumerate(names):
            if i % 8 != case["part"]:
                continue
            for j, b in enumerate(names):
                if a == b or (i + j) % 3:
                    continue
                cname = next(k for k in ("Q", "Z") if k not in (a, b))
                s = f"{b} + 2*{a} + sum[{cname}*{a}-{b}]"
                d = build(s, "eps", {b: 0.75}, {cname: [1.0, 2.5]}, axis=a)
                got = np.asarray(d.get_dielectric(np.array([0.5, 1.0])))
                want = np.array([0.75 + 2 * v + (3.5 * v - 1.5) for v in (0.5, 1.0)])
                out.that(np.allclose(got, want), "names", f"eps = {s} with axis {a}: {got}, expected {want}")
                s = f"sum[{b}**2*{a}] - {cname}/{a}"
                d = build(s, "n", {cname: 0.75}, {b: [1.0, 2.5, -2.0]}, axis=a)
                got = np.asarray(d.get_refractive_index(np.array([0.5, 1.0])))
                want = np.array([11.25 * v - 0.75 / v for v in (0.5, 1.0)])
                out.that(np.allclose(got, want), "names:rep", f"n = {s} with axis {a}: {got}, expected {want}")
                out.state("names", a, b)
        return
    if kind == "units":
        lb = np.array([250.0, 500.0, 1234.5])
        table = {
            "nm": lb, "nanometer": lb, "um": lb / 1e3, "micrometer": lb / 1e3, "angstrom": lb * 10, "m": lb * 1e-9, "mm": lb * 1e-6, "pm": lb * 1e3,
            "eV": disp.energy(lb), "meV": disp.energy(lb) * 1e3, "keV": disp.energy(lb) / 1e3, "J": disp.energy(lb) * 1.602176634e-19, None: lb,
        }
        for unit, want in table.items():
            for rep in ("eps", "n"):
                for s, f in (("x", lambda v: v), ("x**2 + a*x", lambda v: v**2 + 1.7 * v), ("sum[A*x]", lambda v: 2.5 * v), ("1/x", lambda v: 1 / v)):
                    d = build(s, rep, reps=subreps(2), unit=unit)
                    got = np.asarray(ask(d, rep, lb))
                    out.that(np.allclose(got, f(want), rtol=1e-8, atol=0), f"unit:{unit}", lambda: f"{rep} = {s} in {unit}: {got}, expected {f(want)}")
                    rng = np.linspace(200, 1000, 801)
                    got = np.asarray(d.get_dielectric() if rep == "eps" else d.get_refractive_index())
                    out.that(np.allclose(got, ask(d, rep, rng), rtol=1e-12, atol=0), f"unit:{unit}", f"default range in {unit}")
                    one = complex(np.ravel(ask(d, rep, 500.0))[0])
                    out.that(abs(one - f(want)[1]) <= 1e-8 * abs(one), f"unit:{unit}", f"single wavelength in {unit}")
                    out.state("unit", unit, rep, s)
                    for c2 in (copy.deepcopy(d), copy.copy(d), pickle.loads(pickle.dumps(d))):
                        out.that(np.allclose(ask(c2, rep, lb), f(want), rtol=1e-8, atol=0), "copy", f"copy of a formula in {unit}")
        # the case of a unit and of its prefix matters, whatever was used before
        en = disp.energy(lb)
        table2 = {"mm": lb * 1e-6, "Mm": lb * 1e-15, "pm": lb * 1e3, "Pm": lb * 1e-24, "meV": en * 1e3, "MeV": en / 1e6, "nm": lb, "um": lb / 1e3, "am": lb * 1e9, "eV": en, "EeV": en * 1e-18, "mJ": en * 1.602176634e-16, "MJ": en * 1.602176634e-25, "fm": lb * 1e6, "keV": en / 1e3,
                  "dm": lb * 1e-8, "cm": lb * 1e-7, "m": lb * 1e-9, "km": lb * 1e-12, "inch": lb * 1e-9 / 0.0254, "cal": en * 1.602176634e-19 / 4.184, "hartree": en / 27.211386245, "rydberg": en / 13.605693122, "Ry": en / 13.605693122, "nanometers": lb, "nm ": lb, " eV": en, "2*nm": None}
        table2 = {k: v for k, v in table2.items() if v is not None}
        for order in (list(table2), list(table2)[::-1], sorted(table2), sorted(table2, key=lambda u: (u.lower(), u)), sorted(table2, key=lambda u: (u.lower(), u.swapcase()))):
            for rep in ("eps", "n"):
                ds = []
                for unit in order:
                    ds.append((unit, build("x", rep, unit=unit)))
                    got = np.asarray(ask(ds[-1][1], rep, lb))
                    out.that(np.allclose(got, table2[unit], rtol=1e-8, atol=0), f"units:case", lambda: f"{rep} = x in {unit} after {order}: {got}, expected {table2[unit]}")
                for unit, d in ds:
                    got = np.asarray(ask(d, rep, lb))
                    out.that(np.allclose(got, table2[unit], rtol=1e-8, atol=0), f"units:case", lambda: f"{rep} = x in {unit} again: {got}, expected {table2[unit]}")
        for bad in ("s", "K", "kg", "1/cm", "Hz", "nonsense", "m**2", "eV/m"):
            for rep in ("eps", "n"):
                rejected(out, lambda: ask(build("x", rep, unit=bad), rep, lb), f"unit {bad}", "unit:bad")
        return
    if kind == "mutants":
        base = ["x*(a+2)**2/3", "sum[A*x**2/(x-B)]+a", "sqrt(x)*sin(a)", "1j*(a+b/x**2)", "a-2.5*x"]
        chars = "()[]*/+-,.=x2 a$?;:#\"'\\^%&|!@{}~<>"
        n = 0
        for b in base:
            muts = {b[:i] + b[i + 1 :] for i in range(len(b))} | {b[:i] + ch + b[i:] for i in range(len(b) + 1) for ch in chars}
            for m in sorted(muts):
                n += 1
                if n % 4 != case["part"]:
                    continue
                mutant(out, m)
        return
    if kind == "errors":
        x = np.array([1.0, 2.0])
        full = ["", "eps", "eps =", "= 1", "eps = = 1", "eps == 1", "eps = 1 = 2", "eps 1", "epsilon = 1", "EPS = 1", "n = 1", "x = 1", "1 = eps", "eps = ()", "eps = sum[]", "eps = sum()", "eps = sum(A)",
                "eps = sum[A", "eps = sum A]", "eps = sin", "eps = sin()", "eps = sin[x]", "eps = sin x", "eps = (x", "eps = x)", "eps = foo(x)", "eps = exp(x)", "eps = x^2", "eps = x ** ", "eps = ** x",
                "eps = * x", "eps = x *", "eps = x +", "eps = 2x", "eps = 2 x", "eps = x x", "eps = x; 1", "eps = x, 1", "eps = missing", "eps = x + missing", "eps = A", "eps = x * A", "eps = sum[missing]",
                "eps = sum[sum[A]]", "eps = sum[A] + B", "eps = <kkr> + 1j * x", "eps = x # y", "eps = 'x'", "eps = [x]", "eps = x if x else x", "eps = x // 2", "eps = x % 2", "eps = x.real", "eps = __import__('os')",
                "eps = sum[A] sum[B]", "eps = 1 eps = 2", "n = 1 eps = 1", "eps = 1j2", "eps = j", "eps = 3j", "eps = pi()", "eps = -", "eps = 1e", "eps = .", "eps = 1..2"]
        for s in full:
            rejected(out, lambda: elli.Formula(s, "x", SINGLE, {"A": np.array([1.0, 2.0]), "B": np.array([1.0, 2.0])}).get_dielectric(x), s, "malformed")
            t = s.replace("eps", "n") if "n = 1" not in s else "eps = 1"
            rejected(out, lambda: elli.FormulaIndex(t, "x", SINGLE, {"A": np.array([1.0, 2.0]), "B": np.array([1.0, 2.0])}).get_refractive_index(x), t, "malformed")
        for single in ({}, {"b": 1}, {"a": "1"}, {"a": None}, {"a": [1.0]}, {"A": 1.0}, {"a ": 1.0}):
            for s in ("a*x", "sum[A*a]", "x + a"):
                rejected(out, lambda: build(s, "eps", single, subreps(2)).get_dielectric(x), f"{s} with {single}", "parameters")
        for reps in ({"A": [1.0, 2.0], "B": [1.0]}, {"A": [1.0], "B": [1.0, 2.0]}, {"A": [1.0, 2.0, 3.0], "B": [1.0, 2.0]}, {"B": [1.0, 2.0]}, {}, {"a": [1.0]}):
            for s in ("sum[A*x+B]", "sum[A+B]", "sum[A]*sum[B]"):
                rejected(out, lambda: build(s, "eps", SINGLE, reps).get_dielectric(x), f"{s} with {reps}", "repeated")
        for reps in ({"A": 1.0}, {"A": "12"}, {"A": {1: 2}}, {"A": None}):
            rejected(out, lambda: elli.Formula("eps = sum[A]", "x", SINGLE, reps).get_dielectric(x), f"repeated parameters {reps}", "repeated")
        for axis in ("y", "A", ""):
            rejected(out, lambda: elli.Formula("eps = x*x", axis, SINGLE, {"A": [1.0]}).get_dielectric(x), f"axis {axis}", "axis")
        return
    if kind == "shapes":
        for s, f in (("x**2+a", lambda v: v**2 + 1.7), ("a", lambda v: 0 * v + 1.7), ("sum[A*x]", lambda v: 2.5 * v), ("sum[A]", lambda v: 0 * v + 2.5), ("2", lambda v: 0 * v + 2.0), ("1j*x", lambda v: 1j * v), ("sum[2]", lambda v: 0 * v + 4.0), ("1j*(x-x)", lambda v: 0 * v)):
            for rep in ("eps", "n"):
                for unit, sc in ((None, 1.0), ("um", 1e-3)):
                    d = build(s, rep, reps=subreps(2), unit=unit)
                    m = d.get_mat()
                    for n in (1, 2, 3, 64, 65, 257, 1000):
                        for order in ("up", "down", "dup"):
                            x = np.linspace(300, 900, n)
                            x = {"up": x, "down": x[::-1], "dup": np.repeat(x, 2)[:n]}[order]
                            w = f(x * sc) * np.ones(n)
                            got = np.broadcast_to(np.asarray(ask(d, rep, x)), (n,))
                            out.that(np.allclose(got, w), "shapes", f"{rep} = {s} at {n} wavelengths")
                            ten = m.get_tensor(x)
                            e = w if rep == "eps" else w**2
                            out.that(ten.shape == (n, 3, 3) and np.allclose(ten[:, 0, 0], e) and np.allclose(ten[:, 2, 2], e) and np.allclose(ten[:, 0, 1], 0), "material", f"tensor of {rep} = {s}")
                    for x in (500, 500.0, np.float64(500), np.array(500.0), [500], [400, 500, 700], (400.0, 500.0), np.array([400, 500], dtype=int), np.array([400], dtype=np.float32)):
                        got = np.asarray(ask(d, rep, x if not isinstance(x, (list, tuple)) else np.array(x)))
                        w = f(np.asarray(x, float) * sc)
                        out.that(np.allclose(got, w, rtol=1e-6), "shapes:types", f"{rep} = {s} at {x!r}: {got}")
                    out.state("shapes", s, rep, unit)
        # many formulas alternating: no result depends on what was parsed before
        forms = [(f"{k}*x+{k % 7}", lambda v, k=k: k * v + k % 7) for k in range(300)]
        ds = [build(s, "eps") for s, _ in forms]
        for rnd in range(3):
            for d, (s, f) in zip(ds[:: 1 if rnd % 2 else -1], forms[:: 1 if rnd % 2 else -1]):
                out.that(np.allclose(d.get_dielectric(np.array(XS)), f(np.array(XS))), "many", f"formula {s} among many")
        return
    if kind == "types":  # every kind of real number and of integer array is a parameter
        x = np.array(XS)
        T = (int, float, np.float64, np.float32, np.int64, np.int32, np.int16, np.int8, np.uint8)
        for t1, t2, neg in itertools.product(T, T, (0, 1)):
            if neg and np.uint8 in (t1, t2):
                continue
            a, b = t1(-3 if neg else 100), t2(-2 if neg else 2)
            fa, fb = float(a), float(b)
            for txt, fn in (("a*b+x", lambda v: fa * fb + v), ("a**b/x", lambda v: fa**fb / v), ("x-a+b", lambda v: v - fa + fb), ("sum[a*A-b]*x", lambda v: 5 * fa * v - 2 * fb * v), ("a/b+x**b", lambda v: fa / fb + v**fb)):
                for rep in ("eps", "n"):
                    d = build(txt, rep, {"a": a, "b": b}, {"A": [2, 3]})
                    w, got = fn(x), np.asarray(ask(d, rep, x))
                    out.that(np.allclose(got, w, rtol=1e-9, atol=0), "types", lambda: f"{rep} = {txt} with a={a!r}, b={b!r}: {got}, expected {w}")
                    out.that(type(d.single_params["a"]) is t1 or float(d.single_params["a"]) == fa, "types:kept", f"a={d.single_params['a']!r}")
            out.state("types", t1.__name__, t2.__name__, neg)
            A, B = ([-3, 2], [-2, 3]) if neg else ([100, 3], [2, 3])
            for arr in (lambda v, t: np.array(v, t), lambda v, t: [t(e) for e in v]):
                d = build("sum[A*B]+sum[A**B]*x+sum[x**B-A]", "eps", {}, {"A": arr(A, t1), "B": arr(B, t2)})
                w = sum(p * q for p, q in zip(A, B)) + sum(float(p) ** q for p, q in zip(A, B)) * x + sum(x**q - p for p, q in zip(A, B))
                got = d.get_dielectric(x)
                out.that(np.allclose(got, w, rtol=1e-9, atol=0), "types:repeated", lambda: f"A={A} ({t1.__name__}), B={B} ({t2.__name__}): {got}, expected {w}")
        return
    if kind == "later":
        x = np.array(XS)
        for s, f in (("a + sum[A*x-B]", lambda a, A, B, v: a + sum(p * v - q for p, q in zip(A, B))), ("a*sum[A/B]/x", lambda a, A, B, v: a * sum(p / q for p, q in zip(A, B)) / v)):
            for rep in ("eps", "n"):
                for unit in (None, "um"):
                    sc = 1e-3 if unit else 1
                    for hist in itertools.product("a+cd", repeat=3):
                        single = {"a": 1.7}
                        reps = {"A": np.array([0.4, 2.1]), "B": np.array([3.0, -1.25])}
                        d = (elli.Formula if rep == "eps" else elli.FormulaIndex)(f"{rep} = {s}", "x", single, reps, unit)
                        a, A, B = 1.7, [0.4, 2.1], [3.0, -1.25]
                        others = []
                        for op in hist:
                            if op == "a":
                                d.single_params["a"] = a = a + 1
                            elif op == "+":
                                d.add(A=0.9, B=1.1)
                                A, B = A + [0.9], B + [1.1]
                            elif op == "c":
                                others.append((d, a, list(A), list(B)))
                                d = copy.deepcopy(d)
                            else:
                                d.rep_params[0]["A"] = 5.0
                                A = [5.0] + A[1:]
                            out.trans()
                            others_now = others + [(d, a, A, B)]
                            for o, a_, A_, B_ in others_now:
                                got = np.asarray(ask(o, rep, x))
                                w = f(a_, A_, B_, x * sc)
                                out.that(np.allclose(got, w), "later", lambda: f"{s} after {hist}: {got}, expected {w}")
                        out.state("later", s, rep, unit, hist)
                        out.that(single == {"a": 1.7} and np.array_equal(reps["A"], [0.4, 2.1]) and np.array_equal(reps["B"], [3.0, -1.25]), "later:input", f"the given parameters were changed by {hist}")
        return


def rejected(out, f, what, key):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = f()
        except Exception:
            out.ev()
            return
    out.that(False, key, f"{what!r} was accepted and gives {got}")


# -- an own recogniser of the language, for mutants -------------------------
import re

TOKEN = re.compile(r"[ \t]*(?:(?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)|(?P<name>[A-Za-z_][A-Za-z0-9_]*)|(?P<op>\*\*|[-+*/()\[\]]))")


def parse(s):
    """Own recursive-descent parser; returns the tree, or None if not in the language."""
    s = s.rstrip(" \t")
    toks, i = [], 0
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m or m.end() == i:
            return None
        if m.group("num") == "1" and s[m.end() : m.end() + 1] == "j" and not re.match(r"\w", s[m.end() + 1 : m.end() + 2]):
            toks.append(("name", "1j", m.start("num")))
            i = m.end() + 1
            continue
        k = m.lastgroup
        toks.append((k, m.group(k), m.start(k)))
        i = m.end()
    pos = 0

    class Bad(Exception):
        pass

    def peek(n=0):
        return toks[pos + n] if pos + n < len(toks) else (None, None, None)

    def take(v=None):
        nonlocal pos
        t = peek()
        if t[0] is None or v is not None and t[1] != v:
            raise Bad()
        pos += 1
        return t

    def expr(rep):
        t = term(rep)
        while peek()[1] in ("+", "-"):
            op = take()[1]
            t = [op, t, term(rep)]
        return t

    def term(rep):
        t = factor(rep)
        while peek()[1] in ("*", "/"):
            op = take()[1]
            t = [op, t, factor(rep)]
        return t

    def factor(rep):
        t = atom(rep)
        if peek()[1] == "**":
            take()
            t = ["**", t, atom(rep)]
        return t

    def atom(rep):
        k, v, p = peek()
        if v == "(":
            take()
            t = expr(rep)
            take(")")
            return t
        if k == "num":
            take()
            return v
        if v in ("+", "-"):
            nk, nv, np_ = peek(1)
            if nk == "num" and np_ == p + 1:
                take()
                take()
                return v + nv
            raise Bad()
        if k == "name":
            take()
            if v in FUNCS:
                take("(")
                t = expr(rep)
                take(")")
                return [v, t]
            if v == "sum":
                if rep:
                    raise Bad()
                take("[")
                t = expr(True)
                take("]")
                return ["sum", t]
            return v
        raise Bad()

    try:
        t = expr(False)
    except Bad:
        return None
    return t if pos == len(toks) else None


def names_ok(t, insum=False):
    if isinstance(t, str):
        if t in CONST or t in SINGLE or t == "x":
            return True
        if t in REPS:
            return insum
        try:
            float(t)
            return t[0] in "+-.0123456789"
        except ValueError:
            return False
    if len(t) == 2:
        return names_ok(t[1], insum or t[0] == "sum")
    return names_ok(t[1], insum) and names_ok(t[2], insum)


def mutant(out, m):
    t = parse(m)
    replay = dict(kind="mutant1", text=m)
    if t is None or not names_ok(t):
        rejected(out, lambda: build(m, "eps", reps=subreps(2)).get_dielectric(np.array(XS)), m, "mutant:accepted")
        out.state("mutant", m)
        return
    want = [cond(t, {"x": x, **SINGLE}, subreps(2)) for x in XS]
    if any(w is None for w in want):
        out.count("undefined")
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = np.asarray(build(m, "eps", reps=subreps(2)).get_dielectric(np.array(XS)))
        except Exception as e:
            out.that(False, "mutant:rejected", f"eps = {m}: {type(e).__name__} {str(e)[:200]}")
            return
    w = np.array(want, complex)
    out.that(bool(np.allclose(np.broadcast_to(got, w.shape), w, rtol=1e-9)), "mutant:value", lambda: f"eps = {m}: {got}, expected {w}")
    out.state("mutant", m)
