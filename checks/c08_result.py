"""C08: every quantity of a result follows from its amplitudes."""

import itertools

import numpy as np

from mc import lab
from mc.lab import elli

ID = "C08"
LEVEL = "exploration"
RULE = (
    "results are built for every Jones matrix of a complex grid (reflection and transmission, several wavelengths per "
    "result), every incident polarization of the alphabet and real anisotropic structures; every quantity and every "
    "documented name is compared with its definition. state = distinct (batch, polarization); evaluation = one "
    "quantity of one result compared (vectorised over the Jones matrices)"
)
BOUNDS = {
    "quick": "all 2x2 Jones matrices over 6^3 x 4 complex entries in batches of 1, 2, 3, 64 and 864 wavelengths, 12 incident polarizations, 4 power corrections; 2048 matrices with entries from 1e-12 to 1e4; 15 structures x angles",
    "thorough": "9^3 x 6 entries, all batch sizes 1..8, 64, 65, 257, 4374, 26 polarizations",
}
ASSUMPTIONS = ["r_ss and t_ss are not zero (rho is undefined there)", "Stokes convention of the library: S3 = 2 Im(E_p conj(E_s))"]

E6 = [0, 0.5, -0.3j, -0.7, 0.4 + 0.3j, -0.2 - 0.6j]
S4 = [1.0, -0.4j, -0.6, 0.3 + 0.5j]
SMALL = [0, 1e-12, 3e-9j, -2e-7, 1e-5 - 1e-5j, 0.9, 40.0, 1e4j]  # weak and resonant amplitudes
E9 = E6 + [1.0, 1j, 1e-3]
S6 = S4 + [1j, -0.8 + 0.1j]
VEC = [None, [1, 0, 1, 0], [1, 0, -1, 0], [1, 0, 0, 1], [1, 0, 0, -1], [1, 0.6, 0.8, 0], [1, -0.6, 0, 0.8], [1, 1], [1, -1], [1, 1j], [0.3, 0.9j], [0.8 + 0.1j, -0.4]]
VEC_T = VEC + [[1, 1, 0, 0], [1, -1, 0, 0], [1, 0], [0, 1], [2, 0, 2, 0], [1, 0.36, 0.48, 0.8], [1, 0.36, -0.48, -0.8], [3, 1], [1j, 1], [1, -1j], [0.1, 1], [1, 0.1], [1, 0, 0.6, 0.8], [1, -0.2, 0.4, 0.1]]


def grid(tier):
    e, s = (E6, S4) if tier == "quick" else (E9, S6)
    if tier == "small":
        e, s = SMALL, [1.0, 0.02j, -1e-6, 50.0]
    return np.array([[[a, b], [c, d]] for a, b, c in itertools.product(e, repeat=3) for d in s], complex)


def cases(tier):
    n = len(grid(tier))
    sizes = [n, 64, 3, 2, 1] if tier == "quick" else [n, 257, 65, 64, 8, 7, 6, 5, 4, 3, 2, 1]
    vecs = VEC if tier == "quick" else VEC_T
    for vi in range(len(vecs)):
        for size in sizes:
            starts = range(0, n, size)
            if tier == "quick" and size < 8:
                starts = list(starts)[vi :: 12]
            elif size < 9:
                starts = list(starts)[vi :: 26]
            for st in starts:
                yield dict(kind="grid", tier=tier, vec=vi, start=st, size=size, pc=(st // size + vi) % 4)
    for vi in range(len(vecs)):
        for st in range(0, 2048, 256):
            yield dict(kind="grid", tier="small", vec=vi, start=st, size=256, pc=(st // 256 + vi) % 4)
    for s in range(9):
        for th in (0, 35, 70):
            for vi in range(len(vecs)):
                yield dict(kind="struct", s=s, theta=th, vec=vi)


def stokes(e):
    """(…,2) fields -> (…,4)"""
    p, s = e[..., 0], e[..., 1]
    return np.stack([abs(p) ** 2 + abs(s) ** 2, abs(p) ** 2 - abs(s) ** 2, 2 * (p * s.conj()).real, 2 * (p * s.conj()).imag], -1)


STATES = np.array([[1, 0], [0, 1], [1, 1], [1, -1], [1, 1j], [1, -1j], [0.3, 0.4 + 0.7j]], complex)
L = np.array([1, 1j]) / np.sqrt(2)
R = np.array([1, -1j]) / np.sqrt(2)
CIRC = ((-L, -R), (L, R))


def jones_of(v):
    """Reference Jones vector of the alphabet entry, up to amplitude and phase."""
    if v is None:
        v = [1, 0, 1, 0]
    if len(v) == 2:
        return np.array(v, complex)
    s = np.array(v, float)
    pol = np.sqrt((s[1:] ** 2).sum())
    q, u, w = s[1:] / pol
    if q > -1 + 1e-12:
        a = np.sqrt((1 + q) / 2)
        return np.array([a, (u - 1j * w) / (2 * a)])
    return np.array([0, 1], complex)


def circ(J, out_basis):
    """matrix elements <out|J|in> for in, out in (L, R)."""
    res = np.empty(J.shape, complex)
    for j_, inn in enumerate((L, R)):
        f = J @ inn
        for i, o in enumerate(out_basis):
            res[:, i, j_] = f @ o.conj()
    return res


def build(case):
    if case["kind"] == "grid":
        g = grid(case["tier"])
        n = len(g)
        sl = g[case["start"] : case["start"] + case["size"]]
        # another pairing for the transmission
        jt = g[(np.arange(case["start"], case["start"] + len(sl)) * 7 + 5) % n] * (1.1 - 0.2j)
        lb = np.linspace(300, 900, len(sl)) if len(sl) > 1 else np.array([500.0])
        vec = (VEC if case["tier"] == "quick" else VEC_T)[case["vec"]]
        exp = elli.Experiment(elli.Structure(lab.iso(1), [], lab.iso(1.5)), lb, 60, vec)
        pc = [None, np.ones(len(sl)), np.full(len(sl), 1.5), np.linspace(0.5, 2, len(sl))][case["pc"]]
        from elli.result import Result

        return Result(exp, sl.copy(), jt.copy(), None if pc is None else pc.copy()), sl, jt, (np.ones(len(sl)) if pc is None else pc), vec
    from mc.lab import bi, iso, uni

    Rm = elli.rotation_euler(20, 50, 70)
    st = [
        elli.Structure(iso(1), [], iso(1.5 + 0.3j)),
        elli.Structure(iso(1), [elli.Layer(uni(1.5, 1.9, Rm), 120)], iso(1.5)),
        elli.Structure(iso(1), [elli.Layer(bi(1.5, 1.9, 2.1 + 0.1j, Rm), 250), elli.Layer(iso(1.3), 40)], iso(3.8 + 0.1j)),
        elli.Structure(iso(1), [elli.TwistedLayer(uni(1.5, 1.8), 900, 6, 120)], iso(1.5)),
        elli.Structure(iso(1.33), [elli.Layer(bi(1.6, 1.7, 1.9, Rm), 60)], iso(1.6)),
    ]
    st += [  # weak anisotropy
        elli.Structure(iso(1), [elli.Layer(bi(1.5, 1.5 + x, 1.5 - 2 * x, Rm), 100)], iso(3.8)) for x in (1e-3, 1e-5, 1e-7, 1e-9)
    ]
    st = st[case["s"]]
    vec = VEC_T[case["vec"]]
    exp = elli.Experiment(st, np.array([400.0, 500, 650]), case["theta"], vec)
    r = exp.evaluate()
    return r, np.array(r.jones_matrix_r), np.array(r.jones_matrix_t), None, vec


PAULI = np.array([[[1, 0], [0, 1]], [[1, 0], [0, -1]], [[0, 1], [1, 0]], [[0, 1j], [-1j, 0]]], complex)


def mueller(J):
    """M_ij = tr(s_i J s_j J^+) / 2 with s_3 chosen for S3 = 2 Im(E_p conj(E_s)), over M_11"""
    m = np.einsum("iab,nbc,jcd,nad->nij", PAULI, J, PAULI, J.conj()).real / 2
    return m / m[:, :1, :1]


def small(case, out, res, Jr, Jt, pc):
    """amplitudes over many orders of magnitude: every element has its own relative precision"""

    def rel(name, got, want, tol=1e-9):
        got = np.asarray(got)
        ok = got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol * np.abs(want) + 1e-300))
        out.that(ok, f"small:{name}", lambda: f"{name}: {got[~(np.abs(got - want) <= tol * np.abs(want) + 1e-300)][:4]}, expected {want[~(np.abs(got - want) <= tol * np.abs(want) + 1e-300)][:4]} for {case}" if got.shape == want.shape else f"{name}: shape {got.shape}")

    for d, J in (("", Jr), ("_t", Jt)):
        rho = J / J[:, 1:, 1:]
        psi = np.degrees(np.arctan(np.abs(rho)))
        rel("rho_matrix" + d, getattr(res, "rho_matrix" + d), rho)
        rel("psi_matrix" + d, getattr(res, "psi_matrix" + d), psi)
        got = np.asarray(getattr(res, "delta_matrix" + d))
        nz = rho != 0
        want = -np.degrees(np.angle(rho))
        turn = np.abs((got - want + 180) % 360 - 180)
        out.that(got.shape == want.shape and bool(np.all(turn[nz] < 1e-6)), "small:delta_matrix" + d, lambda: f"delta_matrix{d}: {got[nz][:4]}, expected {want[nz][:4]} for {case}")
        for i, j in itertools.product("ps", repeat=2):
            k, m = "ps".index(i), "ps".index(j)
            rel(f"psi_matrix{d}_{i}{j}", getattr(res, f"psi_matrix{d}_{i}{j}"), psi[:, k, m])
            rel(f"rho_matrix{d}_{i}{j}", getattr(res, f"rho_matrix{d}_{i}{j}"), rho[:, k, m])
    # weak elements of the Mueller matrix: rounding of the largest amplitude product is all that may be lost
    M, W = np.asarray(res.mueller_matrix), mueller(Jr)
    out.that(M.shape == W.shape and bool(np.all(np.abs(M - W) < 1e-12)), "small:mueller_matrix", lambda: f"Mueller matrix {M[np.argmax(np.abs(M - W).max(axis=(1, 2)))].tolist()}, expected {W[np.argmax(np.abs(M - W).max(axis=(1, 2)))].tolist()} for {case}")
    for nm, J, basis in (("rc", Jr, CIRC[0]), ("tc", Jt, CIRC[1])):
        w = circ(J, basis)
        g = np.asarray(getattr(res, "jones_matrix_" + nm))
        out.that(g.shape == w.shape and bool(np.all(np.abs(g - w) < 1e-13 * np.abs(J).max(axis=(1, 2))[:, None, None] + 1e-300)), f"small:{nm}", lambda: f"jones_matrix_{nm} {g[:2].tolist()}, expected {w[:2].tolist()} for {case}")
    R, T = np.abs(Jr) ** 2, np.abs(Jt) ** 2 * pc[:, None, None]
    for name, got, want in (("R_matrix", res.R_matrix, R), ("T_matrix", res.T_matrix, T), ("R", res.R, (R[:, 0, 0] + R[:, 1, 1]) / 2), ("T", res.T, (T[:, 0, 0] + T[:, 1, 1]) / 2)):
        rel(name, got, want)
    for i, j in itertools.product("ps", repeat=2):
        rel(f"R_{i}{j}", getattr(res, f"R_{i}{j}"), R[:, "ps".index(i), "ps".index(j)])
        rel(f"T_{i}{j}", getattr(res, f"T_{i}{j}"), T[:, "ps".index(i), "ps".index(j)])


def check(case, out):
    res, Jr, Jt, pc, vec = build(case)
    out.state(case)
    n = len(Jr)
    if case.get("tier") == "small":
        return small(case, out, res, Jr, Jt, pc)

    def eq(name, got, want, tol=1e-9):
        got = np.asarray(got)
        out.that(lab.err(got, want) < tol * max(1, float(np.max(np.abs(want))) if np.size(want) else 1), f"quantity:{name}", lambda: f"{name}: got {got.ravel()[:6]} shape {got.shape}, expected {np.ravel(want)[:6]} shape {np.shape(want)} for {case}")

    def ang(name, got, want):
        got = np.asarray(got)
        ok = got.shape == want.shape
        if ok:
            d = np.abs((got - want + 180) % 360 - 180)
            ok = bool(np.all(d[~np.isnan(want)] < 1e-6)) and bool(np.all((got >= -180 - 1e-9) & (got <= 180 + 1e-9) | np.isnan(want)))
        out.that(ok, f"quantity:{name}", lambda: f"{name}: got {got.ravel()[:6]}, expected {want.ravel()[:6]} for {case}")

    # amplitudes
    eq("jones_matrix_r", res.jones_matrix_r, Jr)
    eq("jones_matrix_t", res.jones_matrix_t, Jt)
    e = jones_of(vec)
    mats = {}
    for d, J in (("", Jr), ("_t", Jt)):
        rho_m = J / J[:, 1:, 1:]
        mats["rho" + d] = rho_m
        eq("rho_matrix" + d, getattr(res, "rho_matrix" + d), rho_m)
        psi_m = np.degrees(np.arctan(np.abs(rho_m)))
        eq("psi_matrix" + d, getattr(res, "psi_matrix" + d), psi_m)
        mats["psi" + d] = psi_m
        del_m = np.where(np.abs(rho_m) < 1e-12, np.nan, -np.degrees(np.angle(np.where(rho_m == 0, 1, rho_m))))
        ang("delta_matrix" + d, getattr(res, "delta_matrix" + d), del_m)
        mats["delta" + d] = np.array(getattr(res, "delta_matrix" + d))
        f = J @ e
        good = np.abs(f[:, 1]) > 1e-6
        rho = np.where(good, f[:, 0] / np.where(good, f[:, 1], 1), 0)
        for q, want in (
            ("rho" + d, rho),
            ("psi" + d, np.degrees(np.arctan(np.abs(rho)))),
        ):
            got = np.asarray(getattr(res, q))
            if out.that(got.shape == (n,), f"quantity:{q}", f"{q} has shape {got.shape} for {n} wavelengths"):
                eq(q, got[good], want[good])
        nz = good & (np.abs(rho) > 1e-9)
        got = np.asarray(getattr(res, "delta" + d))
        if out.that(got.shape == (n,), f"quantity:delta{d}", f"delta{d} has shape {got.shape}"):
            ang("delta" + d, got[nz], -np.degrees(np.angle(rho[nz])))
        # the definition rho = tan(psi) exp(-i delta)
        r_, p_, d_ = (np.asarray(getattr(res, x + d))[nz] for x in ("rho", "psi", "delta"))
        eq(f"definition{d}", np.tan(np.radians(p_)) * np.exp(-1j * np.radians(d_)), r_, 1e-8)

    # Mueller matrix: acts on Stokes vectors as J acts on fields
    M = np.asarray(res.mueller_matrix)
    if out.that(M.shape == (n, 4, 4) and np.isrealobj(M), "quantity:mueller_matrix", f"Mueller matrix has shape {M.shape} {M.dtype}"):
        m11 = (np.abs(Jr) ** 2).sum(axis=(1, 2)) / 2
        for s in STATES:
            want = stokes(Jr @ s) / m11[:, None]
            eq("mueller_matrix", M @ stokes(s), want)
        eq("mueller_matrix_11", M[:, 0, 0], np.ones(n))
        out.that(bool(np.all(np.abs(M - mueller(Jr)) < 1e-12 * (1 + np.abs(M)))), "quantity:mueller_matrix", lambda: f"Mueller matrix {M[0].tolist()}, expected {mueller(Jr)[0].tolist()} for {case}")

    # circular
    rc, tc = circ(Jr, (-L, -R)), circ(Jt, (L, R))
    eq("jones_matrix_rc", res.jones_matrix_rc, rc)
    eq("jones_matrix_tc", res.jones_matrix_tc, tc)
    Rm, Rcm = np.abs(Jr) ** 2, np.abs(rc) ** 2
    eq("R_matrix", res.R_matrix, Rm)
    eq("Rc_matrix", res.Rc_matrix, Rcm)
    eq("R", res.R, (Rm[:, 0, 0] + Rm[:, 1, 1]) / 2)
    Tm = np.asarray(res.T_matrix)
    Tcm = np.asarray(res.Tc_matrix)
    if pc is not None:
        eq("T_matrix", Tm, np.abs(Jt) ** 2 * pc[:, None, None])
        eq("Tc_matrix", Tcm, np.abs(tc) ** 2 * pc[:, None, None])
    eq("T", res.T, (Tm[:, 0, 0] + Tm[:, 1, 1]) / 2)

    # names
    lin, cir, num = "ps", "LR", "12"

    def name(nm, want):
        for how in ("attr", "get"):
            got = getattr(res, nm) if how == "attr" else res.get(nm)
            ok = np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True)
            out.that(ok, f"name:{nm}", lambda: f"{how} {nm} gives {np.ravel(got)[:4]}, expected {np.ravel(want)[:4]} for {case}")

    if case["kind"] == "struct" or case["size"] <= 3 or case["vec"] < 2:
        for i, j in itertools.product((0, 1), repeat=2):
            for al in (lin, num):
                ij = al[i] + al[j]
                name(f"r_{ij}", Jr[:, i, j])
                name(f"t_{ij}", Jt[:, i, j])
                name(f"R_{ij}", Rm[:, i, j])
                name(f"T_{ij}", Tm[:, i, j])
                name(f"jones_matrix_r_{ij}", Jr[:, i, j])
                name(f"jones_matrix_t_{ij}", Jt[:, i, j])
                for q, g in (("psi", "Ψ"), ("delta", "Δ"), ("rho", "ρ")):
                    name(f"{q}_{ij}", mats[q][:, i, j])
                    name(f"{g}_{ij}", mats[q][:, i, j])
                    name(f"{q}_matrix_{ij}", mats[q][:, i, j])
                    name(f"{q}_matrix_t_{ij}", mats[q + "_t"][:, i, j])
            for al in (cir, num):
                ij = al[i] + al[j]
                name(f"rc_{ij}", rc[:, i, j])
                name(f"tc_{ij}", tc[:, i, j])
                name(f"Rc_{ij}", Rcm[:, i, j])
                name(f"Tc_{ij}", Tcm[:, i, j])
                name(f"jones_matrix_rc_{ij}", rc[:, i, j])
        for i, j in itertools.product(range(4), repeat=2):
            name(f"mueller_matrix_{i + 1}{j + 1}", M[:, i, j])
        for g, q in (("Ψ", "psi"), ("Δ", "delta"), ("ρ", "rho")):
            name(g, getattr(res, q))
        name("r", Jr)
        name("t", Jt)
        name("rc", rc)
        name("tc", tc)
        name("Rc", Rcm)
        name("Tc", Tcm)
        for nm in ("psi", "delta", "rho", "psi_t", "delta_t", "rho_t", "mueller_matrix", "R", "T", "R_matrix", "T_matrix", "psi_matrix", "rho_matrix_t", "jones_matrix_tc"):
            name(nm, getattr(res, nm))
        for bad in ("foo", "r_xy", "psi_pq", "foo_pp", "r_p0", "phi_ps", "mueller_matrix_55"):
            try:
                got = getattr(res, bad)
            except Exception:
                out.ev()
            else:
                out.that(False, f"name:{bad}", f"unknown name {bad} returned {got!r}"[:200])
    # reading changed nothing
    eq("after:jones_matrix_r", res.jones_matrix_r, Jr)
    eq("after:jones_matrix_t", res.jones_matrix_t, Jt)
    out.sample(dict(case, n=n))


CHUNK = 8
