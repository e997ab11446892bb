"""C02: energy conservation, passivity and reciprocity of every enumerated stack."""

import numpy as np

from mc import lab, ref
from mc.lab import elli

ID = "C02"
LEVEL = "model_checking"
RULE = (
    "state = (entry, exit, layer word) of transparent or absorbing, isotropic or anisotropic "
    "letters; transition = append a letter; every word up to the bound is evaluated by every "
    "applicable solver at every angle and the power balance, the power bounds, reciprocity and total "
    "reflection invariants are evaluated in every state"
)
ASSUMPTIONS = [
    "stacks with exponential growth beyond double precision (many evanescent layers) are excluded",
    "unpolarized R and T are the documented mean of the co-polarized terms; judged for isotropic stacks","transparent entry medium", "transmittance is judged for isotropic exit media only"]
BOUNDS = {
    "quick": "words <= 2 over 13 letters (5 anisotropic), entry {1, 1.5}, exit 9 (3 of them mixtures or cubic crystals), 5 angles",
    "thorough": "words <= 3 over 13 letters, words of 4 over 6 letters, entry {1, 1.5, 2.2}, exit 9, 8 angles",
}
R1 = elli.rotation_euler(20, 40, 70)
R2 = elli.rotation_euler(0, 90, 30)
LET = {
    "g": (lambda: lab.iso(1.45), 90.0, "t"),
    "h": (lambda: lab.iso(2.3), 55.0, "t"),
    "v": (lambda: lab.iso(1.0), 200.0, "t"),
    "z": (lambda: lab.iso(1.9), 0.0, "t"),
    "l": (lambda: lab.iso(1.6 + 0.05j), 120.0, "a"),
    "m": (lambda: lab.iso(0.15 + 3.2j), 12.0, "a"),
    "s": (lambda: lab.iso(4.1 + 0.4j), 25.0, "a"),
    "U": (lambda: lab.uni(1.5, 1.7), 150.0, "T"),
    "V": (lambda: lab.uni(1.5, 1.7, R1), 150.0, "T"),
    "W": (lambda: lab.uni(2.4, 1.6, R2), 80.0, "T"),
    "B": (lambda: lab.bi(1.4, 1.6, 1.9, R1), 300.0, "T"),
    "D": (lambda: lab.uni(1.5 + 0.02j, 1.7 + 0.3j, R1), 60.0, "A"),
    "E": (lambda: lab.bi(1.5 + 0.1j, 1.7, 2.1 + 0.01j, R2), 60.0, "A"),
}
NMIN = dict(g=1.45, h=2.3, v=1.0, z=9.0, l=1.6, m=9.0, s=4.1, U=1.5, V=1.5, W=1.6, B=1.4, D=1.5, E=1.5)
LB = np.array([300.0, 633.0, 1550.0])


MIX = {  # exit media that are mixtures or crystals with equal axes
    "porous": lambda: elli.BruggemanEMA(lab.iso(1.0), lab.iso(1.5), 0.6),
    "cermet": lambda: elli.MaxwellGarnettEMA(lab.iso(1.5), lab.iso(0.2 + 3j), 0.1),
    "cubic": lambda: lab.bi(2.4, 2.4, 2.4, R1),
}


def exit_of(name):
    """(index, material)"""
    if isinstance(name, str):
        m = MIX[name]()
        n = np.sqrt(complex(m.get_tensor(np.array([500.0]))[0, 0, 0]))
        return (n.real if abs(n.imag) < 1e-12 else n), m
    return lab.cplx(name), lab.iso(lab.cplx(name))


def cases(tier):
    fronts = [1.0, 1.5] if tier == "quick" else [1.0, 1.5, 2.2]
    exits = [1.0, 1.5, 3.4, [3.9, 0.3], [0.2, 3.0], [1.2, 1e-3]] + list(MIX)
    if tier == "thorough":
        exits += [1.2, [1.5, 1e-4], [1.1, 0.05]]
    angles = [0.0, 30.0, 50.0, 70.0, 87.0] if tier == "quick" else [0.0, 10.0, 30.0, 41.0, 50.0, 70.0, 80.0, 89.0]
    letters = "".join(LET)
    words = [""] + list(letters) + [a + b for a in letters for b in letters]
    if tier == "quick":
        words += ["".join(w) for w in lab.product("gVm", "hBD", "lWz")]
    else:
        words += ["".join(w) for w in lab.product(letters, letters, letters)]
        words += ["".join(w) for w in lab.product("gmVBD", "hmVBD", "gWD", "hmB")]
    for n in (6, 11, 25, 60):
        words += [("gh" * n)[:n], ("gV" * n)[:n], ("UBW" * n)[:n]]
    for w in words:
        for f in fronts:
            for e in exits:
                yield dict(word=w, front=f, exit=e, theta=angles)


def check(case, out):
    w, f = case["word"], case["front"]
    e, exit_ = exit_of(case["exit"])
    lossless = all(LET[c][2] in "tT" for c in w)  # the transmitted power is the one entering the exit medium
    isotropic = all(LET[c][2] in "ta" for c in w)
    layers = [elli.Layer(LET[c][0](), LET[c][1]) for c in w]
    st = elli.Structure(lab.iso(f), layers, exit_)
    solvers = (["2x2"] if isotropic else []) + ["4x4"] + (["eig"] if len(w) == 1 else [])
    for th in case["theta"]:
        # evanescent waves in anisotropic layers grow exponentially in a transfer matrix and
        # mix with the propagating ones: scale the tolerance with the growth
        x = f * np.sin(np.deg2rad(th))
        growth = sum(LET[c][1] * 2 * np.pi / 300 * np.sqrt(max(0, x**2 - NMIN[c] ** 2)) for c in w if not isotropic)
        tol = max(1e-8 if len(w) < 20 or isotropic else 1e-6, 1e-14 * np.exp(min(1.5 * growth, 50)))
        if tol > 1e-5:
            out.count("skipped_exponential_growth")
            continue
        rep = dict(case, theta=[th])
        for s in solvers:
            r = lab.ev(st, LB, th, s)
            R, T = r.R_matrix, r.T_matrix
            fin = np.all(np.isfinite(R)) and np.all(np.isfinite(T))
            out.that(fin, f"{s}:finite", f"non finite power {s} {rep}", rep)
            out.that(R.min() >= -tol and T.min() >= -tol, f"{s}:negative", f"negative power in {s}: {R.min()} {T.min()} {rep}", rep)
            tot = R.sum(axis=1) + T.sum(axis=1)  # per incident polarization
            if lossless:
                out.that(np.max(np.abs(tot - 1)) <= tol, f"{s}:conservation", f"R+T = {tot.tolist()} in a transparent stack ({s}) {rep}", rep)
                cir = r.Rc_matrix.sum(axis=1) + r.Tc_matrix.sum(axis=1)
                out.that(complex(e).imag != 0 or np.max(np.abs(cir - 1)) <= tol, f"{s}:conservation-circular", f"Rc+Tc = {cir.tolist()} ({s}) {rep}", rep)
                if isotropic:
                    out.that(np.max(np.abs(r.R + r.T - 1)) <= tol, f"{s}:conservation-unpolarized", f"R+T = {(r.R + r.T).tolist()} ({s}) {rep}", rep)
            else:
                out.that(tot.max() <= 1 + tol, f"{s}:gain", f"R+T = {tot.tolist()} exceeds 1 in a passive stack ({s}) {rep}", rep)
                out.that(np.max(r.R + r.T) <= 1 + tol, f"{s}:gain-unpolarized", f"R+T exceeds 1 ({s}) {rep}", rep)
                if any(LET[c][2] in "aA" for c in w) and complex(e).imag == 0:
                    nth = f * np.sin(np.deg2rad(th)) / e.real
                    frustrated = f * np.sin(np.deg2rad(th)) > 0.99
                    if nth < 0.99 and not frustrated and len(w) <= 3:
                        out.that(tot.max() < 1 - 1e-6, f"{s}:no-absorption", f"R+T = {tot.tolist()} in an absorbing stack ({s}) {rep}", rep)
            x = f * np.sin(np.deg2rad(th))
            if complex(e).imag == 0 and x > e.real * 1.0001:  # beyond the critical angle of the exit
                out.that(T.max() <= tol, f"{s}:tir", f"T = {T.max()} beyond the critical angle ({s}) {rep}", rep)
            elif complex(e).imag == 0:
                # reciprocity: reversed stack seen from the exit side at the refracted angle
                th2 = np.rad2deg(np.arcsin(x / e.real))
                if th2 < 89.0:
                    rev = elli.Structure(exit_, layers[::-1], lab.iso(f))
                    r2 = lab.ev(rev, LB, th2, s)
                    if isotropic:
                        d = lab.err(r2.T_matrix, T)
                    else:
                        d = np.max(np.abs(r2.T_matrix.sum(axis=(1, 2)) - T.sum(axis=(1, 2))))
                    out.that(d <= tol * 10, f"{s}:reciprocity", f"transmittance differs by {d} when the stack is reversed ({s}) {rep}", rep)
            out.trace()
    out.state(w, f, case["exit"])
    out.trans(1)
    if len(w) == 2:
        out.sample({"word": w, "front": f, "exit": case["exit"], "R+T": float(tot.max())})
