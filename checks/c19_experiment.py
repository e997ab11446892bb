"""C19: polarization states and settings of an experiment are consistent."""

import cmath
import copy
import itertools
import math

import numpy as np

from mc import lab
from mc.lab import elli

ID = "C19"
LEVEL = "model_checking"
RULE = (
    "every Jones vector of a complex grid and every Stokes vector of a Poincare-sphere grid (with degrees of polarization, powers and "
    "containers) is set and both representations are compared with the Pauli-matrix definition; all setter histories up to the bound on "
    "a live experiment, which after every step must equal a fresh structure evaluation. state = normalized polarization state or setting vector"
)
BOUNDS = {
    "quick": "13x13 Jones vectors; 19 x 25 sphere grid x 3 powers x 3 degrees of polarization; states 1e-1 to 1e-9 off the six cardinal ones; histories of <= 3 of 14 actions",
    "thorough": "21x21 Jones vectors; 37 x 49 sphere grid; histories of <= 4 actions",
}
ASSUMPTIONS = ["Stokes vectors have positive power and a non-zero polarized part", "vectors have 2 or 4 entries"]
CHUNK = 1

AMP = [0, 1, -1, 1j, -1j, 0.5, 2, 1 / math.sqrt(2), 0.3 - 0.4j, -0.6 + 0.8j, 1e-3, 1e3, 1 + 1j]
AMPT = AMP + [1e-6, -1e-3j, 5 - 12j, -2, 0.1 + 0.99j, 1 - 1j, -0.5 - 0.5j, 1e2j]
SIG = [np.eye(2), np.diag([1, -1]), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]])]


def stokes(e):
    """Pauli definition; the third matrix is taken with the sign S3 = 2 Im(Ep conj(Es)), as used by the Mueller matrices"""
    e = np.asarray(e, complex)
    s = [float(np.real(np.conj(e) @ (m @ e))) for m in SIG]
    return np.array([s[0], s[1], s[2], -s[3]])


def cases(tier):
    for i in range(len(AMP if tier == "quick" else AMPT)):
        yield dict(kind="jones", i=i, tier=tier)
    n = 19 if tier == "quick" else 37
    for i in range(n):
        yield dict(kind="sphere", i=i, n=n)
    for i in range(6):
        yield dict(kind="near", pole=i, steps=8 if tier == "quick" else 24)
    yield dict(kind="special")
    for f in range(len(ACTS)):
        yield dict(kind="history", first=f, depth=3 if tier == "quick" else 4)
    yield dict(kind="evaluate")


def struct(k=0):
    return [
        elli.Structure(lab.iso(1), [elli.Layer(lab.iso(1.6), 120)], lab.iso(3 + 0.2j)),
        elli.Structure(lab.iso(1.2), [elli.Layer(lab.uni(1.5, 1.8, elli.rotation_euler(30, 50, 0)), 200)], lab.iso(2)),
        elli.Structure(lab.iso(1), [], lab.bi(1.4, 1.6, 1.9, elli.rotation_euler(10, 20, 30))),
    ][k]


def same_state(out, exp, what, jones=None, st=None):
    j, s = np.asarray(exp.jones_vector), np.asarray(exp.stokes_vector)
    ok = j.shape == (2,) and s.shape == (4,) and np.all(np.isfinite(j)) and np.all(np.isfinite(s)) and np.all(np.abs(np.imag(s)) < 1e-12)
    out.that(bool(ok), "shape", lambda: f"{what}: jones {j}, stokes {s}")
    if not ok:
        return
    sj = stokes(j)
    pol = np.linalg.norm(s[1:].real)
    out.that(np.allclose(sj[1:] / sj[0], s[1:].real / pol, atol=2e-7), "consistent", lambda: f"{what}: jones {j} describes {sj / sj[0]}, but the Stokes vector is {s / pol}")
    if jones is not None:
        e = np.asarray(jones, complex)
        out.that(np.allclose(j, e), "jones", lambda: f"{what}: jones vector {j}")
        out.that(np.allclose(s, stokes(e), rtol=1e-12, atol=1e-12 * stokes(e)[0]), "stokes:value", lambda: f"{what}: Stokes vector {s}, expected {stokes(e)}")
    if st is not None:
        out.that(np.array_equal(s, st), "stokes", lambda: f"{what}: Stokes vector {s}")
        out.that(abs(np.linalg.norm(j) - 1) < 1e-9, "normalized", lambda: f"{what}: Jones vector {j} is not normalized")
        v = np.asarray(st, float)
        v = v[1:] / np.linalg.norm(v[1:])
        out.that(np.allclose(sj[1:], v, atol=2e-7), "stokes:jones", lambda: f"{what}: Jones vector {j} describes {sj[1:]}, expected {v}")


def check(case, out):
    kind = case["kind"]
    if kind == "jones":
        amp = AMP if case["tier"] == "quick" else AMPT
        st = struct()
        a = amp[case["i"]]
        for b in amp:
            if a == 0 and b == 0:
                continue
            for vec in ([a, b], (a, b), np.array([a, b])):
                exp = elli.Experiment(st, 500, 60, vec)
                same_state(out, exp, f"Experiment(vector={vec})", jones=[a, b])
            exp = elli.Experiment(st, 500, 60)
            exp.set_vector([a, b])
            same_state(out, exp, f"set_vector([{a}, {b}])", jones=[a, b])
            # and back over the Stokes vector
            e2 = elli.Experiment(st, 500, 60, list(exp.stokes_vector))
            same_state(out, e2, f"Stokes vector of [{a}, {b}]", st=exp.stokes_vector)
            e = np.array([a, b], complex)
            ov = abs(np.vdot(e / np.linalg.norm(e), e2.jones_vector))
            out.that(abs(ov - 1) < 1e-9, "roundtrip", f"[{a}, {b}] comes back as {e2.jones_vector}")
            x = stokes(e)
            out.state("state", *np.round(x / x[0], 9).tolist())
        out.sample(case)
        return
    if kind == "sphere":
        st = struct()
        n = case["n"]
        lat = math.pi * case["i"] / (n - 1)
        m = 25 if n == 19 else 49
        for k in range(m):
            lon = 2 * math.pi * k / (m - 1)
            v = np.array([math.sin(lat) * math.cos(lon), math.sin(lat) * math.sin(lon), math.cos(lat)])
            for perm in ((0, 1, 2), (2, 0, 1), (1, 2, 0)):  # every axis is once the pole of the grid
                for power in (1.0, 0.02, 30.0):
                    for dop in (1.0, 0.4, 1e-3, 2e-5, 1e-7):
                        s = power * np.concatenate([[1.0], dop * v[list(perm)]])
                        exp = elli.Experiment(st, 500, 60, s)
                        same_state(out, exp, f"Experiment(vector={s.tolist()})", st=s)
                out.state("state", *np.round(np.concatenate([[1], v[list(perm)]]), 9).tolist())
        out.sample(case)
        return
    if kind == "near":  # states close to the cardinal ones keep their small components
        st = struct()
        axis, sign = case["pole"] // 2, 1 - 2 * (case["pole"] % 2)
        for ex in range(1, 10):
            d = 10.0**-ex
            for k in range(case["steps"]):
                a = 2 * math.pi * k / case["steps"]
                v = np.zeros(3)
                v[axis] = sign * math.cos(d)
                v[(axis + 1) % 3], v[(axis + 2) % 3] = math.sin(d) * math.cos(a), math.sin(d) * math.sin(a)
                for power, dop in ((1.0, 1.0), (7.0, 0.5)):
                    s = power * np.concatenate([[1.0], dop * v])
                    exp = elli.Experiment(st, 500, 60, s)
                    same_state(out, exp, f"Experiment(vector={s.tolist()})", st=s)
                    got = stokes(exp.jones_vector)[1:]
                    # next to p and s the Jones vector has half of the digits only
                    tol = 1e-7 if axis == 0 else 1e-9
                    out.that(np.allclose(got, v, rtol=0, atol=tol), "near", lambda: f"Stokes vector {s.tolist()} gives the Jones vector of {got}")
                # and the Jones vector directly
                base = {(0, 1): [1, 0], (0, -1): [0, 1], (1, 1): [1, 1], (1, -1): [1, -1], (2, 1): [1, -1j], (2, -1): [1, 1j]}[(axis, sign)]
                e = np.array(base, complex) + d * np.array([cmath.exp(1j * a), 0.3 * cmath.exp(2j * a)])
                for vec in (list(e), e * 3):
                    exp = elli.Experiment(st, 500, 60, vec)
                    same_state(out, exp, f"Experiment(vector={vec})", jones=vec)
                    w = stokes(vec)
                    out.that(np.allclose(np.asarray(exp.stokes_vector, float), w, rtol=0, atol=1e-14 * w[0]), "near:jones", lambda: f"Jones vector {vec} gives {exp.stokes_vector}, expected {w}")
                out.state("near", case["pole"], ex, k)
        return
    if kind == "special":
        st = struct()
        r = 1 / math.sqrt(2)
        table = [
            ([1, 1, 0, 0], [1, 0]), ([1, -1, 0, 0], [0, 1]), ([1, 0, 1, 0], [r, r]), ([1, 0, -1, 0], [r, -r]),
            ([1, 0, 0, 1], [r, -1j * r]), ([1, 0, 0, -1], [r, 1j * r]),
        ]
        for s, j in table:
            for cont in (list, tuple, np.array, lambda v: np.array(v, float)):
                exp = elli.Experiment(st, 500, 60, cont(s))
                same_state(out, exp, f"Stokes {s}", st=np.array(s))
                out.that(abs(abs(np.vdot(j, exp.jones_vector)) - 1) < 1e-12, "documented", f"Stokes {s} gives {exp.jones_vector}, expected {j}")
                exp = elli.Experiment(st, 500, 60, cont(j) if cont is not np.array else np.array(j, complex)) if not (cont not in (list, tuple, np.array) and np.iscomplexobj(np.array(j))) else exp
                out.that(np.allclose(np.asarray(exp.stokes_vector, float) / exp.stokes_vector[0], s), "documented", f"Jones {j} gives {exp.stokes_vector}, expected {s}")
            out.state("special", s)
        exp = elli.Experiment(st, 500, 60)
        same_state(out, exp, "default", st=np.array([1, 0, 1, 0]))
        exp.set_vector([1, 0])
        exp.set_vector(None)
        same_state(out, exp, "default again", st=np.array([1, 0, 1, 0]))
        # an intensity and a phase in common do not matter; unpolarized parts do not either
        for vec in ([0.6, 0.8j], [1, -1], [2 - 1j, 0.5]):
            base = elli.Experiment(st, [400, 700], 55, vec).evaluate()
            for f in (2, -1, 1j, 1e-3 * cmath.exp(1j), 1e3):
                r2 = elli.Experiment(st, [400, 700], 55, [v * f for v in vec]).evaluate()
                out.that(np.allclose(r2.rho, base.rho, rtol=1e-9) and np.allclose(r2.R, base.R) and np.allclose(r2.psi, base.psi), "amplitude", f"the result depends on the amplitude {f}")
            s = stokes(vec)
            for dop in (1, 0.3):
                r2 = elli.Experiment(st, [400, 700], 55, [s[0]] + list(s[1:] * dop)).evaluate()
                out.that(np.allclose(r2.rho, base.rho, rtol=1e-7), "equivalent", f"Jones {vec} and Stokes {s} give {base.rho}, {r2.rho}")
        return
    if kind == "evaluate":
        for k in range(3):
            for lb in (500, 500.0, [500.0], [400, 500, 633.0], np.array([700.0, 400.0, 400.0]), (450.0, 550.0), np.linspace(300, 800, 64), np.linspace(300, 800, 65), np.array([500])):
                for th in (0, 0.0, 30, 60.5, 89.9):
                    for vec in (None, [1, 0.5], [1, 0, 0, 1], [1, 0.3, 0.2, -0.6]):
                        judge_eval(out, elli.Experiment(struct(k), lb, th, vec), k, lb, th, vec, "fresh")
                        out.state("eval", k, repr(lb)[:60], th, str(vec))
        return
    history(case, out)


SOLV = [("4x4", {}), ("eig", {})]


def judge_eval(out, exp, k, lb, th, vec, what):
    lba = np.atleast_1d(np.asarray(lb, float))
    got = exp.evaluate()
    ref = struct(k).evaluate(lba, th)
    out.that(np.array_equal(np.asarray(exp.lbda, float), lba) and exp.theta_i == th, "settings", f"{what}: settings {exp.lbda}, {exp.theta_i}")
    out.that(got.jones_matrix_r.shape == (len(lba), 2, 2) and np.allclose(got.jones_matrix_r, ref.jones_matrix_r, atol=1e-12) and np.allclose(got.jones_matrix_t, ref.jones_matrix_t, atol=1e-12), "evaluate", lambda: f"{what}: experiment(structure {k}, {lb}, {th}, {vec}) differs from the evaluation of its structure")
    out.that(np.allclose(got.R, ref.R) and np.allclose(got.T, ref.T) and np.allclose(got.mueller_matrix, ref.mueller_matrix), "evaluate:power", f"{what}: power of experiment(structure {k}, {lb}, {th}, {vec})")
    e = np.asarray([1, 1] if vec is None else vec, complex)
    if len(e) == 4:
        e = np.asarray(exp.jones_vector)
    f = ref.jones_matrix_r @ e
    big = np.abs(f).max(axis=1)
    good = (np.abs(f[:, 1]) > 1e-6 * big) & (np.abs(f[:, 0]) > 1e-6 * big)
    out.that(np.allclose(np.asarray(got.rho)[good], (f[:, 0] / f[:, 1])[good], rtol=1e-6), "evaluate:rho", lambda: f"{what}: rho of experiment(structure {k}, {lb}, {th}, {vec}): {got.rho}, expected {f[:, 0] / f[:, 1]}")


ACTS = [
    ("vec", [1, 0.5]), ("vec", [0.6, -0.8j]), ("vec", [1, 0, 0, 1]), ("vec", [2, 1, -1, 0.5]), ("vec", None),
    ("theta", 0), ("theta", 70.5), ("lbda", 450), ("lbda", [400.0, 633.0]), ("struct", 1), ("struct", 2), ("eval",), ("copy",), ("scribble",),
]


def history(case, out):
    for rest in itertools.product(range(len(ACTS)), repeat=case["depth"] - 1):
        hist = [ACTS[i] for i in (case["first"],) + rest]
        for reads in (False, True):
            run_history(out, hist, reads)


def run_history(out, hist, reads):
    k, lb, th, vec = 0, [500.0, 600.0], 45, [1, 1j]
    exp = elli.Experiment(struct(k), lb, th, vec)
    old = []
    for a in hist:
        if reads:
            exp.evaluate(), exp.jones_vector, exp.stokes_vector
        if a[0] == "vec":
            vec = a[1]
            exp.set_vector(None if vec is None else np.array(vec))
        elif a[0] == "theta":
            th = a[1]
            exp.set_theta(th)
        elif a[0] == "lbda":
            lb = a[1]
            exp.set_lbda(lb)
        elif a[0] == "struct":
            k = a[1]
            exp.set_structure(struct(k))
        elif a[0] == "eval":
            exp.evaluate()
            exp.evaluate(lab.Solver4x4, propagator=lab.PropagatorEig())
        elif a[0] == "copy":
            old.append((exp, k, lb, th, vec))
            exp = copy.deepcopy(exp)
        elif a[0] == "scribble":
            r = exp.evaluate()
            for m in (r.jones_matrix_r, r.jones_matrix_t):
                m[:] = 0
        out.trans()
    for x in old + [(exp, k, lb, th, vec)]:
        judge_eval(out, *x, f"after {hist}")
        v = x[4]
        if v is None:
            v = [1, 0, 1, 0]
        same_state(out, x[0], f"after {hist}", **({"jones": v} if len(v) == 2 else {"st": np.array(v)}))
        out.state("hist", x[1], str(x[2]), x[3], str(x[4]))
    out.trace()
