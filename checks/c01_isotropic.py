"""C01: all solvers agree with each other and with the exact isotropic multilayer solution."""

import numpy as np

from mc import lab, ref
from mc.lab import elli

ID = "C01"
LEVEL = "model_checking"
RULE = (
    "state = (entry medium, exit medium, layer word); transition = append one layer letter "
    "(material x thickness) to the stack; every word up to the depth bound is built with the "
    "real classes and evaluated by every solver/propagator at every angle and wavelength, and "
    "compared with an independent admittance recursion; long words, dense angle, thickness, "
    "index and wavelength sweeps extend one dimension at a time. distinct = distinct stacks."
)
ASSUMPTIONS = [
    "passive media (k >= 0, n > 0), transparent entry medium, wavelengths in nm, angles in [0, 90)",
    "grazing modes with kz = 0 exactly are excluded (the amplitude is not defined there)",
]
BOUNDS = {
    "quick": "words of depth <= 2 over 20 letters, depth 3 over 6 letters, 2 entry x 5 exit media, 4 angles",
    "thorough": "words of depth <= 2 over 36 letters, depth 3 over 12, depth 4 over 6, 3 entry x 7 exit media, 6 angles",
}
LB = [250.0, 633.0, 1550.0]
N = [1.0, 1.45, 2.3, 1.7 + 0.3j, 0.2 + 3.0j, 3.9 + 0.02j]
D = [0.0, 3.0, 60.0, 400.0]
SMALL = [(1.45, 60.0), (2.3, 400.0), (0.2 + 3.0j, 3.0), (1.0, 60.0), (3.9 + 0.02j, 60.0), (1.7 + 0.3j, 400.0)]


def words(tier):
    n = N[:5] if tier == "quick" else N + [1.0001, 4.5 + 4.5j, 0.05 + 0.4j]
    big = [(a, d) for a in n for d in D]
    yield ()
    for a in big:
        yield (a,)
    for a in big:
        for b in big:
            yield (a, b)
    three = SMALL if tier == "quick" else SMALL + [(a, d) for a in N[:3] for d in (0.0, 150.0)]
    for w in lab.product(three, three, three):
        yield w
    if tier == "thorough":
        for w in lab.product(SMALL, SMALL, SMALL, SMALL):
            yield w


def cases(tier):
    fronts = [1.0, 1.5] if tier == "quick" else [1.0, 1.5, 2.4]
    exits = [1.0, 1.5, 3.9 + 0.02j, 0.2 + 3.0j, 1.7 + 0.3j]
    if tier == "thorough":
        exits += [2.3, 5.0 + 3.0j]
    angles = [0.0, 35.0, 60.0, 85.0] if tier == "quick" else [0.0, 15.0, 35.0, 60.0, 75.0, 88.0]
    for w in words(tier):
        for f in fronts:
            for e in exits:
                yield dict(
                    kind="stack",
                    front=lab.j(f),
                    exit=lab.j(e),
                    layers=[[lab.j(a), d] for a, d in w],
                    theta=angles,
                    lbda=LB,
                )
    # one dimension at a time, deep
    base = [[1.45, 120.0], [[2.3, 0.05], 60.0]]
    step = 1.0 if tier == "quick" else 0.25
    for f in (1.0, 1.5):
        for e in (1.0, [3.9, 0.02], [0.2, 3.0]):
            for lay in ([], base[:1], base):
                yield dict(kind="stack", front=f, exit=e, layers=lay,
                           theta=[float(t) for t in np.arange(0, 90, step)] + [10.0**-k for k in range(1, 13)] + [90 - 10.0**-k for k in range(1, 4)] + [89.5], lbda=[500.0, 501.0])
    for d in [1e-6, 1e-3, 0.1, 1, 10, 100, 1e3, 1e4, 1e5, 3e5, 1e6, 3e6] + list(range(5, 1000, 45 if tier == "quick" else 9)):
        yield dict(kind="stack", front=1.0, exit=[3.9, 0.02], layers=[[1.45, float(d)]], theta=[0.0, 55.0, 70.0], lbda=LB)
        yield dict(kind="stack", front=1.0, exit=1.5, layers=[[1.45, 30.0], [2.1, float(d)], [1.38, 20.0]], theta=[0.0, 55.0, 70.0], lbda=LB)
        if d < 1e4:
            yield dict(kind="stack", front=1.5, exit=1.5, layers=[[1.0, float(min(d, 800))]], theta=[0.0, 30.0, 50.0, 70.0], lbda=LB)
    # nearly opaque layers
    for m, ds in (([0.2, 3.0], (60, 120, 250, 600, 1200, 2500)), ([3.9, 0.4], (300, 1000, 5000)), ([1.7, 2.0], (200, 900)), ([1.5, 0.01], (1e4, 1e5))):
        for d in ds:
            for f, e in ((1.0, 1.5), (1.5, 1.0), (1.0, [3.9, 0.02])):
                yield dict(kind="stack", front=f, exit=e, layers=[[m, float(d)]], theta=[0.0, 40.0, 75.0], lbda=LB)
                yield dict(kind="stack", front=f, exit=e, layers=[[1.45, 50.0], [m, float(d)], [2.1, 80.0]], theta=[0.0, 40.0], lbda=LB)
    for n in np.arange(0.1, 6.01, 0.3 if tier == "quick" else 0.05):
        for k in (0.0, 1e-12, 1e-6, 1e-3, 0.1, 1.0, 5.0):
            m = [round(float(n), 3), k]
            yield dict(kind="stack", front=1.0, exit=1.5, layers=[[m, 20.0]], theta=[0.0, 50.0, 75.0], lbda=LB)
            if n > 0.95:
                yield dict(kind="stack", front=1.0, exit=m, layers=[[1.45, 20.0]], theta=[0.0, 50.0, 75.0], lbda=LB)
            if n > 0.95 and k == 0:
                yield dict(kind="stack", front=m, exit=1.0, layers=[], theta=[0.0, 5.0, 75.0], lbda=LB)
    for count in [5, 8, 9, 10, 16, 17, 20, 32, 33, 50, 64, 65, 100, 128, 129, 200] + ([500, 1000] if tier == "thorough" else []):
        lay = [[[1.45, 0.0], 30.0 + i % 7] if i % 2 else [[2.1, 1e-3 if i % 3 else 0.0], 20.0 + i % 5] for i in range(count)]
        for e in (1.0, [3.9, 0.02]):
            yield dict(kind="stack", front=1.0, exit=e, layers=lay, theta=[0.0, 40.0, 70.0], lbda=LB)
    for wl in ([1.0], [100.0], [1e4], [1e6], list(np.linspace(200, 1000, 801)), list(np.linspace(1000, 200, 33)), [500.0] * 4,
               list(np.geomspace(50, 5e4, 64))):
        yield dict(kind="stack", front=1.0, exit=[3.9, 0.02], layers=base, theta=[0.0, 40.0, 70.0], lbda=[float(x) for x in wl])
    # on both sides of the critical angle of the exit medium and of a layer
    for f in (1.5, 2.4, 4.0):
        crit = float(np.rad2deg(np.arcsin(1.0 / f)))
        th = [crit + s * 10.0**-e for e in range(1, 11) for s in (-1, 1)]
        yield dict(kind="stack", front=f, exit=1.0, layers=[], theta=th, lbda=[500.0])
        for lay in ([[[1.8, 0.3], 50.0]], [[2.0, 30.0], [1.45, 100.0]]):
            yield dict(kind="stack", front=f, exit=1.0, layers=lay, theta=th, lbda=[500.0])
            yield dict(kind="stack", front=f, exit=[1.0, 1e-6], layers=lay, theta=th, lbda=[500.0])
            for k in (1e-12, 1e-8, 1e-5, 1e-4, 1e-3, 1e-2, 0.05, 0.2):
                yield dict(kind="stack", front=f, exit=[1.0, k], layers=lay, theta=[20.0, crit - 0.5, crit - 0.01, crit + 0.01, crit + 0.5, 80.0], lbda=[500.0])
        for d in (20.0, 300.0):
            yield dict(kind="stack", front=f, exit=f, layers=[[1.0, d]], theta=th, lbda=[500.0])
    # dispersive media: entry, layers and exit change with the wavelength
    for wl in ([400.0], list(np.linspace(350, 900, 12)), [900.0, 350.0, 500.0]):
        for th in (0.0, 50.0, 75.0):
            yield dict(kind="disp", theta=th, lbda=[float(x) for x in wl])


def compare(out, case, tag, r, x, theta, tol, jt=True, delta_ok=True):
    rep = dict(case, theta=[theta])
    z = np.zeros_like(x["rp"])
    J = lambda p, s: np.moveaxis(np.array([[p, z], [z, s]]), 2, 0)
    chk = [
        ("jones_r", lab.err(r.jones_matrix_r, J(x["rp"], x["rs"]))),
        ("jones_t", lab.err(r.jones_matrix_t, J(x["tp"], x["ts"]))),
        ("R_matrix", lab.err(r.R_matrix, J(x["Rp"], x["Rs"]).real)),
        ("T_matrix", lab.err(r.T_matrix, J(x["Tp"], x["Ts"]).real)),
        ("R", lab.err(r.R, (x["Rp"] + x["Rs"]) / 2)),
        ("T", lab.err(r.T, (x["Tp"] + x["Ts"]) / 2)),
    ]
    for name, e in chk:
        out.that(e <= tol, f"{tag}:{name}", lambda: f"{tag} {name} differs by {e} from the exact solution at {theta} deg: {rep}", rep)
    # small amplitudes behind absorbing layers, relative to themselves
    for k, name in ((0, "tp"), (1, "ts")):
        ok = np.abs(x[name]) > 1e-250
        if ok.any():
            e = np.max(np.abs(r.jones_matrix_t[ok, k, k] / x[name][ok] - 1))
            out.that(e <= 1e-6, f"{tag}:t_relative", lambda: f"{tag} {name} is off by a factor {1 + e} at {theta} deg: {rep}", rep)
    # ellipsometric angles where rs is not vanishing
    ok = np.abs(x["rs"]) > 1e-6
    if ok.any():
        rho = x["rp"][ok] / x["rs"][ok]
        scale = 1 + np.abs(rho) ** 2
        e = np.max(np.abs(r.rho[ok] - rho) / scale * np.abs(x["rs"][ok]))
        out.that(e <= tol * 10, f"{tag}:rho", lambda: f"{tag} rho off by {e} at {theta}: {rep}", rep)
        psi = np.rad2deg(np.arctan(np.abs(rho)))
        e = np.max(np.abs(r.psi[ok] - psi) * np.abs(x["rs"][ok]))
        out.that(e <= tol * 1000, f"{tag}:psi", lambda: f"{tag} psi off by {e} at {theta}: {rep}", rep)
        both = ok & (np.abs(x["rp"]) > 1e-6)
        if both.any():
            e = np.max(ref.ang_diff(r.delta[both], -np.angle(x["rp"] / x["rs"], deg=True)[both]) * np.abs(x["rp"] * x["rs"])[both])
            out.that(e <= tol * 1000, f"{tag}:delta", lambda: f"{tag} delta off by {e} at {theta}: {rep}", rep)


def disp_stack():
    a = elli.Cauchy(n0=1.45, n1=40, n2=10, k0=0.01)
    b = elli.TaucLorentz(Eg=1.5).add(A=60, E=3.5, C=2.0)
    c = elli.Sellmeier().add(A=1.1, B=0.01)
    s = elli.LorentzEnergy().add(A=60, E=4, gamma=0.5)
    st = elli.Structure(
        c.get_mat(), [elli.Layer(a.get_mat(), 80), elli.Layer(b.get_mat(), 15), elli.Layer(elli.BruggemanEMA(a.get_mat(), b.get_mat(), 0.4), 5)], s.get_mat()
    )
    return st


def check(case, out):
    lb = np.array(case["lbda"])
    if case["kind"] == "disp":
        st = disp_stack()
        prof = st.get_permittivity_profile(lb)
        eps = [p[1][:, 0, 0] for p in prof]
        x = ref.iso_stack_v(eps[0], [(p[0], e) for p, e in zip(prof[1:-1], eps[1:-1])], eps[-1], lb, case["theta"])
        for s in ["2x2"] + lab.EXACT4:
            compare(out, dict(case, theta=None), s, lab.ev(st, lb, case["theta"], s), x, case["theta"], 1e-9)
        out.state(case)
        out.trans(3)
        out.trace()
        return
    f, e = lab.cplx(case["front"]), lab.cplx(case["exit"])
    lay = [(lab.cplx(n), d) for n, d in case["layers"]]
    st = elli.Structure(lab.iso(f), [elli.Layer(lab.iso(n), d) for n, d in lay], lab.iso(e))
    solvers = ["2x2", "4x4", "eig"] + (lab.EXACT4[1:-1] if len(lay) != 2 else [])
    for th in case["theta"]:
        x = ref.iso_stack_v(f**2, [(d, n**2) for n, d in lay], e**2, lb, th)
        tol = 1e-8
        for s in solvers:
            compare(out, case, s, lab.ev(st, lb, th, s), x, th, tol)
        out.trace(len(solvers))
    out.state(case["front"], case["exit"], case["layers"])
    out.trans(len(lay) if len(lay) < 2 else 1)
    if len(lay) == 2:
        out.sample({"front": case["front"], "layers": case["layers"], "exit": case["exit"], "rho@last": [str(z) for z in x["rp"] / x["rs"]]})
