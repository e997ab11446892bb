"""C04: composite layers are equivalent to the plain layer sequence they describe."""

import numpy as np

from mc import lab, ref
from mc.lab import elli

ID = "C04"
LEVEL = "model_checking"
RULE = (
    "state = a layer tree built from plain, twisted, graded and repeated layers; transitions = "
    "append a sibling, wrap the current sequence into a repetition, or split a plain layer. Every tree up "
    "to the bound is built with the real classes; its permittivity profile is compared slice by slice "
    "with the profile of an independent flattening model, and the evaluated result with that of the flattened "
    "stack built from plain layers. distinct = distinct trees"
)
ASSUMPTIONS = ["slice positions of graded layers are slice centres (documented)"]
BOUNDS = {
    "quick": "sequences <= 2 over 15 leaf letters, repetitions 1..5 x before 0..3 x after 0..3 over sequences <= 3, nesting depth 2, divisions 1..40 and up to 1025, repetitions 10..1025",
    "thorough": "sequences <= 3 over 15 leaf letters, repetitions 1..9 x before 0..5 x after 0..5 over sequences <= 4, nesting depth 3, divisions up to 999",
}
LB = np.array([400.0, 633.0, 1000.0])
RX = elli.rotation_v_theta(elli.E_X, 90)
# material letters: name -> (factory, tensor for the model)
MATS = {
    "g": ("iso", 1.45), "h": ("iso", 2.3), "m": ("iso", 0.2 + 3.0j), "d": ("disp", None), "u": ("uni", (1.5, 1.7)), "b": ("bi", (1.4, 1.6, 1.9)),
    "f": ("ten", np.array([[2.3, 0.1 + 0.3j, 0.05], [0.1 - 0.3j, 2.6 + 0.1j, 0.2j], [0.05, -0.2j, 3.1]])),  # magneto-optic, without symmetry
    "k": ("iso", 1.450004), "v": ("uni", (1.500004, 1.7)),  # nearly g and u
}


def mat(c):
    if _SHARE is None:
        return mat_(c)
    if c not in _SHARE:
        _SHARE[c] = mat_(c)
    return _SHARE[c]


def mat_(c):
    kind, p = MATS[c]
    if kind == "iso":
        return lab.iso(p)
    if kind == "disp":
        return elli.Cauchy(n0=1.6, n1=60, k0=0.01).get_mat()
    if kind == "ten":
        return Fixed(eps_of(c))
    if kind == "uni":
        return lab.uni(*p, R=RX)
    return lab.bi(*p, R=elli.rotation_euler(20, 40, 70))


def eps_of(c):
    kind, p = MATS[c]
    if kind == "iso":
        return np.tile(np.eye(3) * p**2, (len(LB), 1, 1)) + 0j
    if kind == "disp":
        n = 1.6 + 60e2 / LB**2 + 0.01j
        return (n**2)[:, None, None] * np.eye(3)
    if kind == "uni":
        R = ref.rot([1, 0, 0], 90)
        return np.tile(R @ np.diag([p[0] ** 2, p[0] ** 2, p[1] ** 2]) @ R.T, (len(LB), 1, 1)) + 0j
    if kind == "ten":
        return np.tile(p, (len(LB), 1, 1))
    return mat(c).get_tensor(LB)


MIX = {
    "vca": (elli.VCAMaterial, lambda h, g, f: h * (1 - f) + g * f),
    "mg": (elli.MaxwellGarnettEMA, lambda h, g, f: h * (2 * f * (g - h) + g + 2 * h) / (2 * h + g - f * (g - h))),
    "loo": (elli.LooyengaEMA, lambda h, g, f: ((1 - f) * h ** (1 / 3) + f * g ** (1 / 3)) ** 3),
}
MODS = {
    "lin": lambda x: x,
    "rev": lambda x: 1 - x,
    "sq": lambda x: x**2,
    "const": lambda x: 0.3,
    "step": lambda x: 1.0 if x > 0.5 else 0.0,
    "ends": lambda x: 0.5 if x < 0.2 or x > 0.8 else x**2,
    "intfirst": lambda x: 0 if x < 0.3 else x,
    "hump": lambda x: 4 * x * (1 - x) * (0.5 + x / 2),
    "plateau": lambda x: 0.25 if x < 0.6 else (x - 0.1) ** 2,
    "saw": lambda x: (3 * x) % 1.0,
}


_SHARE = None  # when a dict: equal materials and equal layers are one object


def shared(trees):
    """The same trees with every material and layer that occurs twice being one object."""
    global _SHARE
    _SHARE = {}
    try:
        return [build(t) for t in trees]
    finally:
        _SHARE = None


# trees: ["L", mat, d] ["T", mat, d, div, angle] ["V", mix, host, guest, d, div, mod] ["R", [trees], rep, before, after]
def build(t):
    if _SHARE is None:
        return build_(t)
    key = repr(t)
    if key not in _SHARE:
        _SHARE[key] = build_(t)
    return _SHARE[key]


def mixture(mix, h, g):
    """In shared trees one mixture object serves all layers of that mixture."""
    if _SHARE is None:
        return MIX[mix][0](mat(h), mat(g), 0.77)
    key = (mix, h, g)
    if key not in _SHARE:
        _SHARE[key] = MIX[mix][0](mat(h), mat(g), 0.77)
    return _SHARE[key]


def build_(t):
    k = t[0]
    if k == "L":
        return elli.Layer(mat(t[1]), t[2])
    if k == "T":
        return elli.TwistedLayer(mat(t[1]), t[2], t[3], t[4])
    if k == "V":
        m = mixture(*t[1:4])
        if t[6] == "default":
            return elli.VaryingMixtureLayer(m, t[4], t[5])
        return elli.VaryingMixtureLayer(m, t[4], t[5], MODS[t[6]])
    return elli.RepeatedLayers([build(x) for x in t[1]], t[2], t[3], t[4])


def flat(t):
    """The model: a list of (thickness, tensor)."""
    k = t[0]
    if k == "L":
        return [(t[2], eps_of(t[1]))]
    if k == "T":
        _, m, d, div, angle = t
        e = eps_of(m)
        res = []
        for i in range(div):
            R = ref.rot([0, 0, 1], angle * (i + 0.5) / div if d > 0 else 0.0)
            res.append((d / div, R @ e @ R.T))
        return res
    if k == "V":
        _, mix, h, g, d, div, mod = t
        f = MODS["lin" if mod == "default" else mod]
        law = MIX[mix][1]
        I = np.eye(3, dtype=bool)
        res = []
        for i in range(div):
            if mix == "vca":  # linear, so any tensors
                res.append((d / div, law(eps_of(h), eps_of(g), f((i + 0.5) / div if d > 0 else 0.0))))
                continue
            eh, eg = (np.einsum("nii->ni", eps_of(c)) for c in (h, g))
            e = law(eh, eg, f((i + 0.5) / div if d > 0 else 0.0))
            res.append((d / div, e[:, :, None] * np.eye(3)))
        return res
    seq = [flat(x) for x in t[1]]
    n = len(seq)
    out = []
    # before: the last `before` layers of one period; after: the first `after` layers
    for i in range(max(0, n - t[3]), n) if t[3] else []:
        out += seq[i]
    for _ in range(t[2]):
        for s in seq:
            out += s
    for i in range(min(t[4], n)):
        out += seq[i]
    return out


LEAF = [
    ["L", "g", 80.0], ["L", "h", 40.0], ["L", "m", 7.0], ["L", "d", 60.0], ["L", "u", 120.0], ["L", "b", 0.0],
    ["T", "u", 900.0, 5, 90.0], ["T", "b", 200.0, 3, -400.0], ["V", "vca", "g", "h", 100.0, 4, "default"],
    ["V", "mg", "g", "d", 50.0, 3, "sq"], ["V", "loo", "h", "g", 90.0, 2, "rev"], ["T", "g", 50.0, 2, 45.0],
    ["T", "f", 300.0, 4, 120.0], ["L", "f", 90.0], ["V", "vca", "b", "f", 80.0, 3, "sq"],
]


def cases(tier):
    big = tier == "thorough"
    yield ["S", []]
    for a in LEAF:
        yield ["S", [a]]
    for a, b in lab.product(LEAF, LEAF):
        yield ["S", [a, b]]
    if big:
        for a, b, c in lab.product(LEAF, LEAF, LEAF):
            yield ["S", [a, b, c]]
    seqs = [[0], [0, 1], [0, 1, 3], [1, 6], [6, 1, 4], [8, 0], [4, 10, 6], [5, 1]] + ([[0, 1, 3, 4], [6, 7, 8, 9], [0, 0, 1, 1]] if big else [])
    for q in seqs:
        s = [LEAF[i] for i in q]
        for rep in range(1, 10 if big else 6):
            for before in range(0, min(len(q), 5 if big else 3) + 1):
                for after in range(0, min(len(q), 5 if big else 3) + 1):
                    yield ["S", [["R", s, rep, before, after]]]
    # nested repetitions and neighbours of repetitions
    for q1, q2 in lab.product(seqs[:4], seqs[1:5]):
        for r1, r2, b2, a1 in lab.product((1, 2, 3), (1, 2), (0, 1), (0, 1)):
            inner = ["R", [LEAF[i] for i in q1], r1, 0, a1]
            t = ["R", [LEAF[i] for i in q2] + [inner], r2, b2, 0]
            yield ["S", [t]]
            yield ["S", [LEAF[2], t, LEAF[3]]]
            yield ["S", [["R", [inner, LEAF[0]], r2, b2, a1]]]
            if big:
                yield ["S", [["R", [t, inner], 2, 1, 1]]]
    for rep in (10, 16, 17, 32, 50, 64, 100, 257, 1025) + ((128, 200, 255, 256, 500, 2049, 4097) if big else ()):
        yield ["S", [["R", [LEAF[0], LEAF[1]], rep, 1, 1]]]
    # graded layers: divisions, angles, thicknesses, modulations
    divs = list(range(1, 41)) + [50, 64, 100, 128, 257, 400, 1025] + ([199, 300, 512, 999, 2049, 4097] if big else [])
    for div in divs:
        yield ["S", [["T", "u", 1000.0, div, 90.0]]]
        yield ["S", [["V", "vca", "g", "h", 300.0, div, "default"]]]
        yield ["S", [["V", "vca", "g", "h", 300.0, div, "step"]]]
    for ang in (0.0, 1e-3, 30.0, -30.0, 45.0, 60.0, 89.0, 90.0, 135.0, 180.0, 270.0, 360.0, 361.0, 720.0, 1080.0, -90.0, -360.0, 90):
        for m in "ubgf":
            yield ["S", [["T", m, 500.0, 6, ang]]]
    for d in (0.0, 0, 1e-6, 1e-3, 1.0, 7, 1e3, 1e5):
        yield ["S", [["T", "u", d, 4, 90.0]]]
        yield ["S", [LEAF[0], ["V", "vca", "g", "h", d, 4, "default"]]]
        yield ["S", [["L", "g", d]]]
    for mod in MODS:
        for div in (2, 3, 10, 21, 64):
            yield ["S", [["V", "vca", "g", "h", 300.0, div, mod]]]
    for mix in MIX:
        for mod in list(MODS) + ["default"]:
            for h, g in ("gh", "hg", "gd", "dm", "gg") + (("ub", "bf", "fg") if mix == "vca" else ()):
                yield ["S", [["V", mix, h, g, 120.0, 7, mod]]]
    # neighbours that differ in one attribute only
    for one in (["V", "vca", "g", "h", 60.0, 3, "lin"], ["T", "u", 60.0, 3, 90.0], ["L", "u", 60.0], ["R", [["L", "g", 30.0], ["L", "h", 20.0]], 2, 1, 0]):
        other = {"V": [(2, "h"), (2, "d"), (4, 61.0), (5, 4), (6, "rev"), (6, "sq"), (1, "loo")], "T": [(1, "b"), (2, 61.0), (3, 4), (4, 45.0), (4, -90.0)],
                 "L": [(1, "b"), (2, 61.0)], "R": [(2, 3), (3, 0), (4, 1), (1, [["L", "h", 20.0], ["L", "g", 30.0]])]}[one[0]]
        for k, v in other:
            two = list(one)
            two[k] = v
            for t in ([one, two], [two, one], [one, LEAF[0], two], [one, one, two], [["R", [one, two], 2, 1, 0]]):
                yield ["S", t]
    # neighbours that differ far less than any plausible tolerance, with many slices so that the differences count
    near = {"L": [["L", "g", 80.0], ["L", "g", 80.0004], ["L", "k", 80.0]], "T": [["T", "u", 900.0, 5, 90.0], ["T", "u", 900.004, 5, 90.0], ["T", "u", 900.0, 5, 90.0005], ["T", "v", 900.0, 5, 90.0]],
            "V": [["V", "vca", "g", "h", 100.0, 4, "lin"], ["V", "vca", "g", "h", 100.0005, 4, "lin"], ["V", "vca", "k", "h", 100.0, 4, "lin"]]}
    for fam in near.values():
        for w in lab.product(range(len(fam)), repeat=3):
            yield ["S", [fam[i] for i in w]]
        for a, b in lab.product(fam, fam):
            yield ["S", [a, LEAF[1], b]]
            yield ["S", [["R", [a, b], 2, 1, 1]]]
            yield ["S", [["R", [a], 2, 0, 0], ["R", [b], 2, 0, 0]]]
    for d in (1e-7, 1e-9, 1e-12):
        yield ["S", [["L", "m", d], ["L", "u", 120.0]]]
        yield ["S", [["T", "u", d, 4, 90.0], ["L", "m", d]]]
    # algebra of plain layers
    for c, d in lab.product("ghmdubf", (0.0, 30.0, 200.0)):
        for w in (0.0, 0.25, 0.5, 0.9, 1.0):
            yield ["split", c, d, w]
        yield ["zero", c, d]
        yield ["sunk", c, d]


def same(a, b, out, key, what, angles=(0.0, 40.0, 75.0), solvers=("4x4",)):
    for th in angles:
        for s in solvers:
            ra, rb = lab.ev(a, LB, th, s), lab.ev(b, LB, th, s)
            for acc in ("jones_matrix_r", "jones_matrix_t", "R_matrix", "T_matrix"):
                e = lab.err(getattr(ra, acc), getattr(rb, acc))
                out.that(e <= 1e-8, f"{key}:{acc}", f"{key}: {acc} differs by {e} at {th} deg ({s}) for {what}")
            ok = np.abs(rb.jones_matrix_r[:, 1, 1]) > 1e-3
            for acc, tol in (("psi", 1e-5), ("rho", 1e-6)):
                x, y = getattr(ra, acc), getattr(rb, acc)
                e = lab.err(x[ok], y[ok])
                out.that(e <= tol * (1 + np.max(np.abs(y[ok]), initial=0) ** 2), f"{key}:{acc}", f"{key}: {acc} differs by {e} at {th} deg for {what}")
            out.trace()


def check(case, out):
    F, B = lab.iso(1.0), lab.iso(3.9 + 0.1j)
    out.state(case)
    if case[0] == "S":
        trees = case[1]
        st = elli.Structure(F, [build(t) for t in trees], B)
        model = [x for t in trees for x in flat(t)]
        prof = st.get_permittivity_profile(LB)
        if not out.that(len(prof) == len(model) + 2, "slices", f"{len(prof) - 2} slices instead of {len(model)} for {case}"):
            return
        out.that(np.isinf(prof[0][0]) and np.isinf(prof[-1][0]), "halfspaces", f"half spaces of the profile are wrong for {case}")
        out.that(lab.err(prof[0][1], np.tile(np.eye(3), (3, 1, 1))) < 1e-12 and lab.err(prof[-1][1], np.tile(np.eye(3) * (3.9 + 0.1j) ** 2, (3, 1, 1))) < 1e-9, "halfspace-eps", f"half space tensors wrong for {case}")
        for i, ((d, e), (dm, em)) in enumerate(zip(prof[1:-1], model)):
            out.that(abs(d - dm) <= 1e-9 * max(1, dm), "thickness", f"slice {i} has thickness {d} instead of {dm} for {case}")
            x = lab.err(e, em)
            if not out.that(x <= 1e-9, "tensor", f"tensor of slice {i} is off by {x} for {case}"):
                break
        # one object for every equal layer and material, and looking at it twice
        sh = elli.Structure(F, shared(trees), B)
        for look in (1, 2):
            prof = sh.get_permittivity_profile(LB)
            ok = len(prof) == len(model) + 2 and all(abs(d - m[0]) <= 1e-9 * max(1, m[0]) and lab.err(e, m[1]) <= 1e-9 for (d, e), m in zip(prof[1:-1], model))
            out.that(ok, "shared", f"profile {look} of the structure with shared layer objects differs for {case}")
            if look == 1:
                a, b = lab.ev(sh, LB, 40.0, "4x4"), lab.ev(st, LB, 40.0, "4x4")
                out.that(lab.err(a.jones_matrix_r, b.jones_matrix_r) <= 1e-10, "shared", f"sharing layer objects changes the result for {case}")
        # the same sequence from plain layers with tabulated tensors
        plain = elli.Structure(F, [elli.Layer(Fixed(e), d) for d, e in model], B)
        same(st, plain, out, "flat", case)
        iso = all(lab.err(e, e[:, :1, :1] * np.eye(3)) < 1e-12 for _, e in model)
        if iso and model:
            same(st, plain, out, "flat2x2", case, angles=(0.0, 60.0), solvers=("2x2",))
        out.trans(len(trees))
        out.sample({"tree": case, "slices": len(model)})
        return
    if case[0] == "split":
        _, c, d, w = case
        a = elli.Structure(F, [elli.Layer(mat("h"), 20), elli.Layer(mat(c), d)], B)
        b = elli.Structure(F, [elli.Layer(mat("h"), 20), elli.Layer(mat(c), d * w), elli.Layer(mat(c), d - d * w)], B)
        sol = ("4x4", "eig") + (("2x2",) if c in "ghmd" else ())
        same(a, b, out, "split", case, solvers=sol)
    elif case[0] == "zero":
        _, c, d = case
        z = [elli.Layer(mat(c), 0.0), elli.TwistedLayer(mat(c), 0.0, 3, 90), elli.RepeatedLayers([elli.Layer(mat(c), 0)], 3)]
        a = elli.Structure(F, [elli.Layer(mat("u"), 90), elli.Layer(mat("g"), d)], B)
        for k, zl in enumerate(z):
            for pos in range(3):
                lay = list(a.layers)
                lay.insert(pos, zl)
                same(a, elli.Structure(F, lay, B), out, "zero", [case, k, pos], angles=(0.0, 60.0))
    elif case[0] == "sunk":
        # a layer of the exit (or entry) medium: invisible in reflection (up to a phase)
        _, c, d = case
        if c in "ghd":
            X = mat(c)
            a = elli.Structure(F, [elli.Layer(mat("u"), 90)], X)
            b = elli.Structure(F, [elli.Layer(mat("u"), 90), elli.Layer(X, d)], X)
            for th in (0.0, 40.0, 75.0):
                for s in ("4x4", "eig"):
                    e = lab.err(lab.ev(a, LB, th, s).jones_matrix_r, lab.ev(b, LB, th, s).jones_matrix_r)
                    out.that(e <= 1e-8, "sunk", f"a layer of the exit medium changes the reflection by {e} at {th} {case}")
                    out.trace()
    out.trans(1)


class Fixed(elli.materials.Material):
    def __init__(self, e):
        self.e = e

    def get_tensor(self, lbda):
        return self.e
