"""C03: anisotropic stacks agree with an independent solution of Maxwell's equations."""

import numpy as np

from mc import lab, ref
from mc.lab import elli

ID = "C03"
LEVEL = "model_checking"
RULE = (
    "state = (entry, exit, word of layer letters); a letter is a principal-index triple, an "
    "orientation from a rotation grid and a thickness; transition = append a letter; every word up "
    "to the bound is built with the real classes, evaluated by every exact propagator and compared with "
    "an independent eigenmode/impedance recursion; the rotated-sample and representation symmetries and "
    "the linear propagator's error bound are checked on every state of depth <= 1"
)
ASSUMPTIONS = [
    "passive, non-magnetic media; isotropic entry medium",
    "transmission is compared for isotropic exit media (the amplitude normalisation is only defined there)",
]
BOUNDS = {
    "quick": "words <= 1 over 9 triples x 17 orientations x 3 thicknesses, words <= 2 over 14 letters, 9 exits, 3 angles x 3 wavelengths; 6 tensors without symmetry (magneto-optic, monoclinic, general) x 4 orientations; 24 triples down to 1e-14 anisotropy x tilts 1e-12..90 deg x 9 angles between 1e-9 and 89.99999 deg",
    "thorough": "words <= 1 over 13 triples x 53 orientations x 5 thicknesses, words <= 3 over 14 letters, 12 exits, 5 angles",
}
LB = np.array([300.0, 633.0, 1550.0])
TRI = [
    (1.5, 1.5, 1.7), (2.4, 2.4, 1.6), (1.4, 1.6, 1.9), (1.5 + 0.02j, 1.5 + 0.02j, 1.7 + 0.3j), (1.5 + 0.1j, 1.7, 2.1 + 0.01j),
    (0.2 + 3.0j, 0.2 + 3.0j, 1.9), (2.0, 2.0, 2.0), (1.52, 1.5, 1.5), (3.0 + 1.0j, 2.0 + 0.5j, 4.0 + 2.0j),
]
TRI2 = TRI + [(1.0, 1.0, 1.2), (1.658, 1.658, 1.486), (0.5 + 2.0j, 1.3, 1.3), (2.0, 2.0, 2.000001)]

# magneto-optic and optically active media, absorbing crystals without common axes: any tensor a material of the user returns
TEN = {
    "faraday": np.array([[2.25, 0.3j, 0], [-0.3j, 2.25, 0], [0, 0, 2.25]]),
    "voigt": np.array([[2.25, 0, 0], [0, 2.25, 0.4j], [0, -0.4j, 2.25]]),
    "polar": np.array([[2.25, 0, 0.4j], [0, 2.4, 0], [-0.4j, 0, 2.6]]),
    "metal": np.array([[-8 + 2j, 0.5 + 0.2j, 0.1j], [-0.5 - 0.2j, -8 + 2j, 0.3], [-0.1j, -0.3, -8 + 2j]]),
    "general": np.array([[3.0 + 0.4j, 0.2 + 0.1j, -0.1 + 0.05j], [0.3 - 0.15j, 2.5 + 0.5j, 0.25j], [0.15 - 0.1j, 0.1 + 0.2j, 4.0 + 0.6j]]),
    "monoclinic": np.array([[3.0 + 0.4j, 0, 0.3 + 0.2j], [0, 2.5 + 0.1j, 0], [0.3 + 0.2j, 0, 4.0 + 0.6j]]),
}


class Custom(elli.materials.Material):
    """A material of the user: a constant tensor."""

    def __init__(self, eps):
        self.eps = eps

    def get_tensor(self, lbda):
        return np.tile(np.asarray(self.eps, complex), (np.size(lbda), 1, 1))


# nearly isotropic and nearly uniaxial media
EDGE = [(2.0, 2.0, 2.0 + 10.0**-k) for k in (2, 3, 4, 5, 7, 8, 9, 10, 12, 14)] + [(1.5, 1.5 + 1e-7, 1.5 - 1e-7), (1.5, 1.5 + 1e-10, 1.7)]
ALL = TRI2 + EDGE


def rots(tier):
    yield None
    for ax in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]):
        for a in (30, 45, 90, 200) if tier == "quick" else (10, 30, 45, 60, 90, 135, 180, 200, 270, 333, -40, -90, 360):
            yield [ax, a]


EXITS = [
    ["iso", 1.0], ["iso", 1.5], ["iso", [3.9, 0.3]], ["iso", [0.2, 3.0]],
    ["uni", 1.5, 1.7, [[1, 0, 0], 90]], ["uni", 1.5, 1.7, [[1, 0, 0], 50]], ["uni", 2.4, 1.6, [[1, 1, 1], 77]],
    ["uni", [1.5, 0.1], [1.9, 0.5], [[0, 1, 0], 33]], ["uni", 1.5, 1.7, None],
    ["uni", 2.4, 1.6, [[0, 0, 1], 30]], ["uni", [0.3, 2.0], [1.9, 0.1], [[1, 0, 1], 40]], ["iso", 2.2],
]
PAIR = [
    [0, [[1, 0, 0], 35], 100.0], [0, [[0, 1, 0], 90], 250.0], [0, None, 100.0], [1, [[1, 0, 1], 60], 70.0], [2, [[1, 1, 1], 50], 150.0], [3, [[1, 0, 0], 70], 40.0],
    [4, [[0, 1, 1], 20], 90.0], [5, None, 8.0], [6, None, 130.0], [8, [[1, 2, 3], 100], 15.0], [0, [[0, 0, 1], 45], 0.0], [2, [[0, 0, 1], 90], 60.0], [7, [[0, 0, 1], 45], 900.0],
    [1, [[1, 0, 0], 90], 33.0],
]


def cases(tier):
    angles = [0.0, 35.0, 70.0] if tier == "quick" else [0.0, 15.0, 35.0, 55.0, 80.0]
    tri = TRI if tier == "quick" else TRI2
    exits = EXITS[:9] if tier == "quick" else EXITS
    one = [[t, r, d] for t in range(len(tri)) for r in rots(tier) for d in ((0.0, 20.0, 300.0) if tier == "quick" else (0.0, 1.0, 20.0, 100.0, 300.0))]
    for f in (1.0, 1.5):
        for e in exits:
            yield dict(kind="word", front=f, exit=e, word=[], theta=angles)
    # dense entry media: one or both waves of the exit are totally reflected
    for f in (1.6, 1.8, 2.2, 3.0):
        for e in EXITS[4:9] + [EXITS[0], EXITS[2]] + [["uni", o, x, r] for o, x in ((1.3, 1.5), (1.5, 1.3), (1.9, 1.4)) for r in rots(tier)]:
            for w in ([], [PAIR[1]], [PAIR[6]]):
                yield dict(kind="word", front=f, exit=e, word=w, theta=[48.0, 57.0, 65.0, 80.0] if tier == "quick" else [float(t) for t in range(36, 89, 4)], all=not w)
    for a in one:
        for f, e in [(1.0, EXITS[1]), (1.5, EXITS[2]), (1.0, EXITS[5])] if tier == "quick" else [(1.0, EXITS[1]), (1.5, EXITS[2]), (1.0, EXITS[5]), (1.3, EXITS[7])]:
            yield dict(kind="word", front=f, exit=e, word=[a], theta=angles, all=True)
    for a, b in lab.product(PAIR, PAIR):
        for e in exits if tier == "thorough" else EXITS[1:7:2]:
            yield dict(kind="word", front=1.0, exit=e, word=[a, b], theta=angles)
    if tier == "thorough":
        for w in lab.product(PAIR, PAIR, PAIR):
            yield dict(kind="word", front=1.0, exit=EXITS[5], word=list(w), theta=[0.0, 55.0])
    else:
        for w in lab.product(PAIR[:5], PAIR[3:8], PAIR[5:10]):
            yield dict(kind="word", front=1.0, exit=EXITS[1], word=list(w), theta=[0.0, 55.0])
    for a in one[:: 7 if tier == "quick" else 1]:
        yield dict(kind="sym", letter=a, theta=angles)
        yield dict(kind="linear", letter=a, theta=angles)
    for th in range(0, 90, 3 if tier == "quick" else 1):
        yield dict(kind="word", front=1.0, exit=EXITS[1], word=[PAIR[0], PAIR[4]], theta=[float(th)])
        yield dict(kind="word", front=1.0, exit=EXITS[6], word=[PAIR[3]], theta=[float(th)])
    for n in (4, 10, 33, 100):
        yield dict(kind="word", front=1.0, exit=EXITS[1], word=(PAIR[:3] * 40)[:n], theta=[0.0, 35.0])
    # half spaces that are isotropic without being plain isotropic materials
    for f, e in lab.product((1.0, 1.8), ([1.5, 0], [3.9, 0.3], [0.2, 3.0], [1.0, 0], [1.5, 1e-4])):
        for w in ([], [PAIR[0]], [PAIR[3]], [PAIR[6], PAIR[4]]):
            yield dict(kind="half", front=f, exit=e, word=w, theta=angles + [10.0, 60.0, 85.0])
    # nearly opaque layers
    for t, d in lab.product((3, 4, 5, 8), (100.0, 300.0, 1000.0, 3000.0)):
        for r in list(rots(tier))[::4]:
            for e in EXITS[:2]:
                yield dict(kind="word", front=1.0, exit=e, word=[[t, r, d]], theta=[0.0, 40.0], all=True)
    # nearly degenerate modes: tiny tilts, tiny anisotropy, nearly normal and grazing incidence
    tiny = [None] + [[ax, a] for ax in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]) for a in (1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 89.9, 89.999, 89.99999, 90.0000001)]
    for t in range(len(ALL)):
        some = tiny if tier == "thorough" or t in (0, 2) else tiny[:: 3 if t in (1, 3, 5) else 8] + [[[1, 1, 0], 35]]
        for k, r in enumerate(some):
            for i, e in enumerate((["iso", 1.0], ["iso", 1.5], ["uni", 1.5, 1.7, r])):
                if tier == "thorough" or (k + t) % 3 == i:
                    yield dict(kind="word", front=1.0, exit=e, word=[[t, r, 130.0]], theta=[0.0, 1e-9, 1e-6, 1e-4, 1e-2, 40.0, 89.9, 89.999, 89.99999], all=True)
    # tensors without symmetry
    turn = list(rots(tier))[:: 5 if tier == "quick" else 2]
    for t in TEN:
        for r in turn:
            for d in (30.0, 250.0):
                for f, e in ((1.0, EXITS[1]), (1.5, EXITS[5]), (1.0, ["ten", "voigt", None])):
                    yield dict(kind="word", front=f, exit=e, word=[[t, r, d]], theta=angles, all=True)
            for f in (1.0, 2.0):
                yield dict(kind="word", front=f, exit=["ten", t, r], word=[], theta=angles + [55.0, 85.0], all=True)
            yield dict(kind="word", front=1.0, exit=EXITS[1], word=[PAIR[1], [t, r, 60.0], PAIR[3], ["voigt", None, 90.0]], theta=angles)
    for wl in ([500.0], [400.0, 500.0, 600.0, 700.0], list(np.linspace(300, 900, 65))):
        yield dict(kind="word", front=1.0, exit=EXITS[1], word=[PAIR[0], PAIR[4]], theta=[0.0, 50.0], lbda=[float(x) for x in wl], all=True)
        yield dict(kind="word", front=1.0, exit=EXITS[7], word=[PAIR[0], PAIR[4]], theta=[0.0, 50.0], lbda=[float(x) for x in wl], all=True)


def R(r):
    return None if r is None else ref.rot(*r)


def material(letter):
    t, r, _ = letter
    if t in TEN:
        return Custom(tensor(t, r))
    return lab.bi(*ALL[t], R=R(r))


def tensor(n3, r):
    e = TEN[n3] if isinstance(n3, str) else np.diag(np.array(n3, complex) ** 2)
    return e if r is None else R(r) @ e @ R(r).T


def exitm(e):
    if e[0] == "iso":
        n = lab.cplx(e[1])
        return lab.iso(n), n**2 * np.eye(3)
    if e[0] == "ten":
        return Custom(tensor(e[1], e[2])), tensor(e[1], e[2])
    no, ne = lab.cplx(e[1]), lab.cplx(e[2])
    return lab.uni(no, ne, R(e[3])), tensor((no, no, ne), e[3])


def check(case, out):
    if case["kind"] == "word":
        word(case, out)
    elif case["kind"] == "half":
        half(case, out)
    elif case["kind"] == "sym":
        sym(case, out)
    else:
        linear(case, out)


def word(case, out):
    lb = np.array(case.get("lbda", LB))
    em, et = exitm(case["exit"])
    f = case["front"]
    lay = [(w[2], tensor(w[0] if w[0] in TEN else ALL[w[0]], w[1])) for w in case["word"]]
    st = elli.Structure(lab.iso(f), [elli.Layer(material(w), w[2]) for w in case["word"]], em)
    solvers = lab.EXACT4 if case.get("all") else ["4x4"]
    for th in case["theta"]:
        rep = dict(case, theta=[th])
        x = f * np.sin(np.deg2rad(th))
        xs = [ref.aniso_stack(f**2, lay, et, l, th) for l in lb]
        r = np.array([y["r"] for y in xs])
        ok = np.abs(r[:, 1, 1]) > 1e-5
        tol = tolerance(lay, lb, x)
        if len(lay) <= 1 and case["exit"][0] == "iso":
            # one layer: the error grows with the ratio of the two transmissions only
            tol = min(tol, max(1e-8, 1e-10 * max(np.linalg.cond(y["t"]) if np.abs(y["t"]).max() > 1e-200 else np.inf for y in xs)))
        if tol > 1e-4:
            out.count("skipped_exponential_growth")
            continue
        for s in solvers:
            res = lab.ev(st, lb, th, s)
            e = lab.err(res.jones_matrix_r, r)
            out.that(e <= tol, f"{s}:jones_r", f"{s}: reflection differs by {e} from the reference {rep}", rep)
            e = lab.err(res.R_matrix, np.abs(r) ** 2)
            out.that(e <= tol, f"{s}:R", f"{s}: reflectance differs by {e} {rep}", rep)
            if ok.any():
                rho = r / r[:, 1, 1][:, None, None]
                e = np.max(np.abs(res.rho_matrix - rho)[ok] * np.abs(r[ok, 1, 1])[:, None, None] ** 2)
                out.that(e <= tol * 10, f"{s}:rho_matrix", f"{s}: rho matrix differs by {e} {rep}", rep)
                m = mueller(r)
                e = np.max(np.abs(res.mueller_matrix - m)[ok] * np.abs(r[ok, 1, 1])[:, None, None] ** 2)
                out.that(e <= tol * 100, f"{s}:mueller", f"{s}: Mueller matrix differs by {e} {rep}", rep)
            if case["exit"][0] == "iso":
                t = np.array([y["t"] for y in xs])
                e = lab.err(res.jones_matrix_t, t)
                out.that(e <= tol, f"{s}:jones_t", f"{s}: transmission differs by {e} {rep}", rep)
                # small amplitudes behind absorbing layers, relative to themselves
                for i, ti in enumerate(t):
                    n = np.abs(ti).max()
                    if n < 1e-200:
                        continue
                    rt = max(1e-6, 1e-10 * np.linalg.cond(ti))
                    if rt > 1e-2:
                        out.count("relative_transmission_skipped")
                        continue
                    e = np.abs(res.jones_matrix_t[i] - ti).max() / n
                    out.that(e <= rt, f"{s}:t_relative", f"{s}: transmission {n} is off by {e} relative to itself {rep}", rep)
                e = lab.err(res.T_matrix, np.array([y["T"] for y in xs]))
                out.that(e <= tol, f"{s}:T", f"{s}: transmittance differs by {e} {rep}", rep)
            out.trace()
    out.state(case["front"], case["exit"], case["word"])
    out.trans(1)
    out.sample({"exit": case["exit"], "word": case["word"], "r_ps": str(r[0, 0, 1])})


def tolerance(lay, lb, kx):
    """Transfer matrices mix growing and decaying waves: the rounding error grows with them."""
    g = 0.0
    for d, eps in lay:
        q = np.linalg.eigvals(ref.berreman(eps, kx))
        g += 2 * np.pi * d / lb.min() * np.max(np.abs(q.imag))
    return max(1e-8, 1e-13 * np.exp(min(1.2 * g, 50)))


def mueller(J):
    """Mueller matrix from a Jones matrix by propagating the six basis polarizations."""
    res = []
    for Jm in J:
        def stokes(v):
            return np.array([abs(v[0]) ** 2 + abs(v[1]) ** 2, abs(v[0]) ** 2 - abs(v[1]) ** 2, 2 * (v[0] * v[1].conjugate()).real, 2 * (v[0] * v[1].conjugate()).imag])
        s2 = np.sqrt(0.5)
        basis = [np.array(v, complex) for v in ([1, 0], [0, 1], [s2, s2], [s2, -s2], [s2, -1j * s2], [s2, 1j * s2])]
        Si = np.array([stokes(v) for v in basis]).T
        So = np.array([stokes(Jm @ v) for v in basis]).T
        M = So @ np.linalg.pinv(Si)
        res.append(M / M[0, 0])
    return np.array(res)


def equal_media(n, out):
    """The same isotropic medium, described in every way the library offers."""
    c = elli.ConstantRefractiveIndex(n)
    Rm = elli.rotation_euler(20, 40, 70)
    yield "uniaxial", elli.UniaxialMaterial(c, c)
    yield "uniaxial rotated", lab.uni(n, n, Rm)
    yield "biaxial", lab.bi(n, n, n)
    yield "biaxial rotated", lab.bi(n, n, n, Rm)
    m = lab.iso(n)
    m.set_rotation(Rm)
    yield "isotropic rotated", m
    for law in (elli.VCAMaterial, elli.LooyengaEMA, elli.MaxwellGarnettEMA, elli.BruggemanEMA):
        yield f"{law.__name__} of itself", law(lab.iso(n), lab.iso(n), 0.3)
        yield f"{law.__name__} of nothing", law(lab.iso(n), lab.iso(2.7), 0)
    # half of the permittivity from each of two others
    e = n**2
    yield "VCA", elli.VCAMaterial(elli.EpsilonInf(e * 1.5).get_mat(), elli.EpsilonInf(e * 0.5).get_mat(), 0.5)
    yield "custom", Custom(e * np.eye(3))


def half(case, out):
    """Isotropic half spaces are answered like isotropic half spaces, however they are described."""
    n, f = complex(*case["exit"]), case["front"]
    n = n.real if n.imag == 0 else n
    lay = [(w[2], tensor(w[0], w[1]) if w[0] in TEN else tensor(ALL[w[0]], w[1])) for w in case["word"]]
    layers = [elli.Layer(material(w), w[2]) for w in case["word"]]
    for th in case["theta"]:
        tol = tolerance(lay, LB, f * np.sin(np.deg2rad(th)))
        if tol > 1e-4:
            out.count("skipped_exponential_growth")
            continue
        want = lab.ev(elli.Structure(lab.iso(f), layers, lab.iso(n)), LB, th)
        t = np.array([ref.aniso_stack(f**2, lay, n**2 * np.eye(3), l, th)["t"] for l in LB])
        out.that(lab.err(want.jones_matrix_t, t) <= tol, "half:reference", f"transmission differs from the reference {case} at {th}", case)
        sides = [("exit " + k, elli.Structure(lab.iso(f), layers, m)) for k, m in equal_media(n, out)]
        sides += [("entry " + k, elli.Structure(m, layers, lab.iso(n))) for k, m in equal_media(f, out)]
        for name, s in sides:
            got = lab.ev(s, LB, th)
            for a in ("jones_matrix_r", "jones_matrix_t", "R_matrix", "T_matrix", "R", "T", "Tc_matrix"):
                e = lab.err(getattr(got, a), getattr(want, a))
                out.that(e <= tol * 10, f"half:{a}", f"{name}: {a} is {np.ravel(getattr(got, a))[:4]} instead of {np.ravel(getattr(want, a))[:4]} at {th} deg {case}", dict(case, theta=[th]))
            out.trace()
    out.state("half", case["front"], case["exit"], case["word"])


def sym(case, out):
    """Turning the sample by 180 deg about the normal, and equal tensors built differently."""
    t, r, d = case["letter"]
    n3 = TRI2[t]
    Rm = np.eye(3) if r is None else R(r)
    Z = ref.rot([0, 0, 1], 180)
    exit_ = lab.iso(1.5)
    mk = lambda m: elli.Structure(lab.iso(1.0), [elli.Layer(m, d)], exit_)
    a = mk(lab.bi(*n3, R=Rm))
    b = mk(lab.bi(*n3, R=Z @ Rm))
    # permuted axes: same tensor from another biaxial description
    P = np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]], float)  # x->y->z->x
    c = mk(lab.bi(n3[2], n3[0], n3[1], R=Rm @ P.T))
    same = [("permuted", c), ("rotated twice", mk(lab.bi(*n3, R=Rm @ ref.rot([0, 0, 1], 180))))]
    if n3[0] == n3[1]:
        same.append(("uniaxial", mk(lab.uni(n3[0], n3[2], R=Rm))))
        same.append(("spun about the optic axis", mk(lab.uni(n3[0], n3[2], R=Rm @ ref.rot([0, 0, 1], 31)))))
        if n3[0] == n3[2]:
            same.append(("isotropic", mk(lab.iso(n3[0]))))
    S = np.array([[1, -1], [-1, 1]])
    for th in case["theta"]:
        rep = dict(case, theta=[th])
        tol = tolerance([(d, tensor(n3, r))], LB, np.sin(np.deg2rad(th)))
        if tol > 1e-4:
            out.count("skipped_exponential_growth")
            continue
        ra = lab.ev(a, LB, th)
        for name, o in same:
            ro = lab.ev(o, LB, th)
            e = max(lab.err(ra.jones_matrix_r, ro.jones_matrix_r), lab.err(ra.jones_matrix_t, ro.jones_matrix_t), lab.err(ra.T_matrix, ro.T_matrix))
            out.that(e <= tol, f"sym:{name.split()[0]}", f"{name}: equal tensors give different results ({e}) {rep}", rep)
        # C2 about z == light arriving from the opposite side: r_pp, r_ss are exchanged by reciprocity
        rb = lab.ev(b, LB, th)
        e = lab.err(ra.jones_matrix_r, np.swapaxes(rb.jones_matrix_r, 1, 2) * S)
        out.that(e <= tol, "sym:reciprocity", f"reflection is not reciprocal ({e}) {rep}", rep)
        out.trace(2)
    out.state("sym", case["letter"])


def linear(case, out):
    """First order propagator: the error is bounded by the second order term of the exponential."""
    t, r, _ = case["letter"]
    n3 = TRI2[t]
    nm = max(abs(n) for n in n3)
    for d in (1e-3, 1e-2, 0.1):
        st = elli.Structure(lab.iso(1.0), [elli.Layer(lab.bi(*n3, R=R(r)), d)], lab.iso(1.5))
        for th in case["theta"]:
            rep = dict(case, theta=[th], d=d)
            a, b = lab.ev(st, LB, th, "4x4"), lab.ev(st, LB, th, "linear")
            e = np.max(np.abs(a.jones_matrix_r - b.jones_matrix_r), axis=(1, 2))
            x = 2 * np.pi / LB * d * max(nm**2, 1)
            bound = 20 * x**2 / max(np.cos(np.deg2rad(th)), 0.1) + 1e-12
            out.that(np.all(e <= bound), "linear:error", f"linear propagator error {e.tolist()} exceeds {bound.tolist()} {rep}", rep)
            out.trace()
    out.state("linear", case["letter"])
