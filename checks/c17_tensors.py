"""C17: material tensors carry the right index on the right axis and rotate as tensors."""

import copy
import itertools
import math

import numpy as np

from mc import lab
from mc.lab import elli

ID = "C17"
LEVEL = "model_checking"
RULE = (
    "all action histories up to the bound on a material (set dispersions, set rotation, edit a dispersion parameter, overwrite a returned "
    "tensor, copy, share the dispersion with a second material), judged in every state at several wavelength containers against "
    "sum_k n_k^2 (R e_k)(R e_k)^T; rotation helpers on full angle/axis grids. state = (material class, dispersions, rotation, parameters)"
)
BOUNDS = {
    "quick": "3 classes x 6 (isotropic 5) dispersion choices x 14 rotations, all histories of 2 actions (3 over a reduced set); Euler grid 13x7x13, axis grid 26 x 17 angles",
    "thorough": "all histories of 3 actions over the full alphabet, 4 over the reduced; Euler grid 25x13x25",
}
ASSUMPTIONS = ["rotations are set as proper rotation matrices", "the reference dispersions are constants and Cauchy laws evaluated independently"]
CHUNK = 1


def c(a):
    return math.cos(math.radians(a))


def s(a):
    return math.sin(math.radians(a))


def rz(a):
    return np.array([[c(a), -s(a), 0], [s(a), c(a), 0], [0, 0, 1]])


def rx(a):
    return np.array([[1, 0, 0], [0, c(a), -s(a)], [0, s(a), c(a)]])


def rodrigues(v, deg):
    """rotate the base vectors one by one: v' = v cos + (k x v) sin + k (k.v)(1 - cos)"""
    k = np.asarray(v, float)
    cols = []
    for e in np.eye(3):
        cols.append(e * c(deg) + np.cross(k, e) * s(deg) + k * np.dot(k, e) * (1 - c(deg)))
    return np.array(cols).T


ROT = {
    "I": lambda: (np.eye(3), np.eye(3)),
    "z90": lambda: (elli.rotation_euler(90, 0, 0), rz(90)),
    "x90": lambda: (elli.rotation_euler(0, 90, 0), rx(90)),
    "eul": lambda: (elli.rotation_euler(20, 35, 50), rz(20) @ rx(35) @ rz(50)),
    "eul+": lambda: (elli.rotation_euler(20, 35.0001, 50), rz(20) @ rx(35.0001) @ rz(50)),
    "eul2": lambda: (elli.rotation_euler(200, 110, 310), rz(200) @ rx(110) @ rz(310)),
    "y30": lambda: (elli.rotation_v_theta([0, 1, 0], 30), rodrigues([0, 1, 0], 30)),
    "y-90": lambda: (elli.rotation_v_theta(elli.E_Y, -90), rodrigues([0, 1, 0], -90)),
    "v": lambda: (elli.rotation_v([0.3, -0.5, 0.7]), rodrigues(np.array([0.3, -0.5, 0.7]) / math.sqrt(0.83), math.degrees(math.sqrt(0.83)))),
    "comp": lambda: (elli.rotation_euler(10, 20, 30) @ elli.rotation_v_theta([1, 0, 0], 40), rz(10) @ rx(20) @ rz(30) @ rodrigues([1, 0, 0], 40)),
    "tiny3": lambda: (elli.rotation_v_theta([1, 0, 0], 1e-3), rodrigues([1, 0, 0], 1e-3)),
    "tiny5": lambda: (elli.rotation_euler(1e-5, -2e-5, 0), rz(1e-5) @ rx(-2e-5)),
    "tiny7": lambda: (elli.rotation_v([0, 2e-8, 1e-8]), np.array([[1, -1e-8, 2e-8], [1e-8, 1, 0], [-2e-8, 0, 1]])),
    "near180": lambda: (elli.rotation_v_theta([0, 1, 0], 179.9995), rodrigues([0, 1, 0], 179.9995)),
    "z180": lambda: (elli.rotation_v_theta(elli.E_Z, 180), np.diag([-1.0, -1.0, 1.0])),
}

LB = [300.0, 555.5, 1200.0]
WAVES = [("array", np.array(LB)), ("one", np.array([555.5])), ("scalar", 555.5), ("rev", np.array(LB[::-1])), ("list", LB), ("int", np.array([300, 1200])), ("dup", np.array([300.0, 300.0, 1200.0])), ("int1", 400)]


class Disp:
    """A dispersion and its reference law; 'Cauchy' has an editable parameter."""

    def __init__(self, kind):
        self.kind = kind
        if kind == "cau":
            self.n0 = 1.45
            self.d = elli.Cauchy(n0=1.45, n1=80, n2=30, k0=0.1, k1=0, k2=0)
        elif kind == "cau2":
            self.n0 = 1.8
            self.d = elli.Cauchy(n0=1.8, n1=120)
        else:
            self.n = complex(kind)
            self.d = elli.ConstantRefractiveIndex(self.n)

    def edit(self):
        if self.kind.startswith("cau"):
            self.n0 += 0.25
            self.d.single_params["n0"] = self.n0
        else:
            self.n += 0.25
            self.d.single_params["n"] = self.n

    def eps(self, lb):
        lb = np.asarray(lb, float)
        if self.kind == "cau":
            return (self.n0 + 80e2 / lb**2 + 30e7 / lb**4 + 0.1j) ** 2
        if self.kind == "cau2":
            return (self.n0 + 120e2 / lb**2) ** 2 + 0j
        return self.n**2 + 0 * lb


KINDS = {
    "Isotropic": [("1.5",), ("cau",), ("2+1j",), ("1",), ("0.2+3.5j",)],
    "Uniaxial": [("1.5", "1.7"), ("cau", "cau2"), ("1.7", "1.5"), ("1.5+0.2j", "cau"), ("1.5", "1.5"), ("2", "0.1+3j"), ("cau", "=0")],
    "Biaxial": [("1.5", "1.6", "1.7"), ("cau", "1.6", "cau2"), ("1.7", "1.6", "1.5"), ("1.5", "1.5", "1.7"), ("1.4+0.1j", "2", "0.3+2j"), ("1.7", "1.5", "1.5"), ("cau", "1.9", "=0"), ("cau", "=0", "1.9"), ("1.9", "cau", "=1"), ("1.5", "=0", "=0")],
}


def axes(cls, disps):
    return {"Isotropic": (0, 0, 0), "Uniaxial": (0, 0, 1), "Biaxial": (0, 1, 2)}[cls]


def disps(kinds):
    """One dispersion per axis; "=i" is the very object of axis i."""
    ds = []
    for k in kinds:
        ds.append(ds[int(k[1:])] if k[0] == "=" else Disp(k))
    return ds


def make(cls, kinds):
    ds = disps(kinds)
    return getattr(elli, cls + "Material")(*[d.d for d in ds]), ds


def want(cls, ds, R, lb):
    lb = np.atleast_1d(np.asarray(lb, float))
    out = np.zeros((len(lb), 3, 3), complex)
    for k, i in enumerate(axes(cls, ds)):
        e = R @ np.eye(3)[k]
        out += (ds[i].eps(lb) * np.ones(len(lb)))[:, None, None] * np.outer(e, e)[None]
    return out


def cases(tier):
    for cls in KINDS:
        for k in range(len(KINDS[cls])):
            yield dict(kind="tensor", cls=cls, k=k)
            yield dict(kind="history", cls=cls, k=k, depth=2 if tier == "quick" else 3, full=True)
            yield dict(kind="history", cls=cls, k=k, depth=3 if tier == "quick" else 4, full=False)
    n = 13 if tier == "quick" else 25
    for i in range(n):
        yield dict(kind="euler", p=i * 360 / (n - 1), n=n)
    for p in (-20, -180, -200, -350, 380, 540, 575, 900, 1000.5):
        yield dict(kind="euler", p=p, n=n)
    for i in range(8):
        yield dict(kind="axis", part=i)
    yield dict(kind="get_mat")


def judge(out, cls, mat, ds, R, hist, waves=WAVES):
    for name, lb in waves:
        got = mat.get_tensor(lb)
        w = want(cls, ds, R, lb)
        ok = got.shape == w.shape and np.allclose(got, w, rtol=1e-9, atol=1e-9)
        out.that(ok, f"tensor:{cls}", lambda: f"{cls}{[d.kind for d in ds]} after {hist} at {name} {lb}: {got[0].tolist()}, expected {w[0].tolist()}")
        if not ok:
            return


def check(case, out):
    kind = case["kind"]
    if kind == "tensor":
        cls = case["cls"]
        for rname, rf in ROT.items():
            mat, ds = make(cls, KINDS[cls][case["k"]])
            R, Rref = rf()
            if rname != "I":
                R0 = R.copy()
                mat.set_rotation(R)
            judge(out, cls, mat, ds, Rref, [rname])
            if rname != "I":
                out.that(np.array_equal(R, R0), "input", "the rotation matrix was modified")
            t = mat.get_tensor(np.array(LB))
            out.that(np.allclose(t, np.swapaxes(t, 1, 2), atol=1e-12), f"symmetric:{cls}", "tensor is not symmetric")
            out.that(np.allclose(np.trace(t, axis1=1, axis2=2), np.trace(want(cls, ds, np.eye(3), LB), axis1=1, axis2=2)), f"trace:{cls}", "the principal values changed")
            if rname == "I":
                n = mat.get_refractive_index(np.array(LB))
                w = want(cls, ds, np.eye(3), LB)
                out.that(np.allclose(n**2, w) and bool(np.all(n.real >= 0)), f"index:{cls}", "refractive index tensor")
            out.state(cls, case["k"], rname)
        out.sample(case)
        return
    if kind == "history":
        history(case, out)
        return
    if kind == "euler":
        n = case["n"]
        for nu in list(np.linspace(0, 180, (n + 1) // 2)) + [-35, -180, -275, 200, 330, 540, 585, 1000]:
            for r in list(np.linspace(0, 360, n)) + [-20, -200, 400, 575, 900.5]:
                p = case["p"]
                got = elli.rotation_euler(p, nu, r)
                w = rz(p) @ rx(nu) @ rz(r)
                out.that(got.shape == (3, 3) and np.allclose(got, w, atol=1e-12), "euler", lambda: f"rotation_euler({p}, {nu}, {r}) = {got.tolist()}, expected {w.tolist()}")
                out.that(np.allclose(got @ got.T, np.eye(3), atol=1e-12) and abs(np.linalg.det(got) - 1) < 1e-12, "euler:proper", f"rotation_euler({p}, {nu}, {r}) is no rotation")
                out.that(np.allclose(elli.rotation_euler(-r, -nu, -p) @ got, np.eye(3), atol=1e-12), "euler:inverse", f"inverse of rotation_euler({p}, {nu}, {r})")
                out.state("euler", p, nu, r)
        return
    if kind == "axis":
        vs = [v for v in itertools.product((-1, 0, 1), repeat=3) if any(v)]
        for i, v in enumerate(vs):
            if i % 8 != case["part"]:
                continue
            u = np.array(v, float) / math.sqrt(sum(q * q for q in v))
            for th in (0, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 1, 30, 45, 60, 89.999, 90, 120, 135, 179, 180, 181, 270, 360, -30, -90, 400, 450, 540, 590, 630, 719.5, 720, 720.5, 900, 1000, 1080, 1260, 3690, 36090, -180, -270, -360, -400, -500, -590, -720.5, -900, -1000):
                w = rodrigues(u, th)
                for vv in (u, list(u), tuple(u)):
                    got = elli.rotation_v_theta(vv, th)
                    out.that(np.allclose(got, w, atol=1e-11), "axis-angle", lambda: f"rotation_v_theta({vv}, {th}) = {got.tolist()}, expected {w.tolist()}")
                for vv in (u * math.radians(th), list(u * math.radians(th))):
                    got = elli.rotation_v(vv)
                    out.that(np.allclose(got, w, atol=1e-9), "vector", lambda: f"rotation_v({vv}) = {got.tolist()}, expected {w.tolist()}")
                g = elli.rotation_v_theta(u, th)
                out.that(np.allclose(g @ elli.rotation_v_theta(u, -th), np.eye(3), atol=1e-11) and np.allclose(g @ u, u, atol=1e-12), "axis:inverse", f"inverse/axis of rotation_v_theta({u}, {th})")
                out.state("axis", v, th)
        for v, e in (([1, 0, 0], elli.E_X), ([0, 1, 0], elli.E_Y), ([0, 0, 1], elli.E_Z)):
            out.that(np.array_equal(np.ravel(e), v), "base", f"base vector {v}")
        return
    if kind == "get_mat":
        for k in ("1.5", "cau", "2+1j"):
            d = Disp(k)
            m1, m2 = d.d.get_mat(), d.d.get_mat()
            R, Rr = ROT["eul"]()
            m1.set_rotation(R)
            judge(out, "Isotropic", m1, [d], Rr, ["get_mat"])
            judge(out, "Isotropic", m2, [d], np.eye(3), ["get_mat"])
            u = elli.UniaxialMaterial(d.d, Disp("1.9").d)
            u2 = elli.UniaxialMaterial(d.d, Disp("1.9").d)
            u.set_rotation(R)
            judge(out, "Uniaxial", u2, [d, Disp("1.9")], np.eye(3), ["shared"])
            judge(out, "Uniaxial", u, [d, Disp("1.9")], Rr, ["shared"])
            out.state("get_mat", k)


SHORT = [("array", np.array(LB)), ("scalar", 555.5), ("list", LB)]


def history(case, out):
    cls, k0 = case["cls"], case["k"]
    if case["full"]:
        acts = [("rot", r) for r in ROT] + [("disp", k) for k in range(len(KINDS[cls]))] + [("edit", i) for i in range(len(KINDS[cls][k0]))] + [("poke",), ("copy",), ("twin",), ("mix",)]
    else:
        acts = [("rot", "eul"), ("rot", "eul+"), ("rot", "x90"), ("rot", "I"), ("disp", (k0 + 1) % len(KINDS[cls])), ("edit", 0), ("poke",), ("copy",), ("twin",)]
    visited = set()
    for hist in itertools.product(acts, repeat=case["depth"]):
        mat, ds = make(cls, KINDS[cls][k0])
        R = np.eye(3)
        kk = k0
        live = []  # (material, dispersions, rotation) of earlier copies and twins
        for a in hist:
            if a[0] == "rot":
                r, R = ROT[a[1]]()
                mat.set_rotation(r)
            elif a[0] == "disp":
                kk = a[1]
                ds = disps(KINDS[cls][kk])
                mat.set_dispersion(*[d.d for d in ds])
            elif a[0] == "edit":
                ds[a[1]].edit()
            elif a[0] == "poke":
                t = mat.get_tensor(np.array(LB))
                t[:] = 99
            elif a[0] == "copy":
                live.append((mat, ds, R))
                mat, ds = copy.deepcopy((mat, ds))
            elif a[0] == "twin":
                t = getattr(elli, cls + "Material")(*[d.d for d in ds])
                r, R2 = ROT["y30"]()
                t.set_rotation(r)
                live.append((t, ds, R2))
            elif a[0] == "mix":
                m = elli.VCAMaterial(mat, elli.ConstantRefractiveIndex(1.1).get_mat(), 0.5)
                w = 0.5 * want(cls, ds, R, LB) + 0.5 * np.eye(3) * 1.21
                out.that(np.allclose(m.get_tensor(np.array(LB)), w), "mixed", f"average with a {cls} material after {hist}")
            out.trans()
            judge(out, cls, mat, ds, R, hist, SHORT[:1])  # reading between the steps fills caches, if there are any
        out.trace()
        judge(out, cls, mat, ds, R, hist, SHORT)
        for m2, d2, R2 in live:
            judge(out, cls, m2, d2, R2, ("bystander",) + hist, SHORT[:1])
        key = (cls, tuple(d.kind for d in ds), tuple(round(abs(complex(np.ravel(d.eps(500.0))[0])), 6) for d in ds), tuple(np.round(R.ravel(), 6)))
        if key not in visited:
            visited.add(key)
            out.state(key)
