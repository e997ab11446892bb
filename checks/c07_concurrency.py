"""C07: concurrent use of shared objects gives the sequential results."""

import atexit
import os
import shutil
import tempfile

import numpy as np

from mc import core, lab
from mc.lab import elli
from mc.sched import Run

ID = "C07"
LEVEL = "model_checking"
RULE = (
    "two real threads execute one body each on shared objects under a cooperative scheduler whose scheduling "
    "points are the executed lines (or calls) of the library; every schedule up to the preemption bound is executed "
    "and both results, the numpy error settings and the shared objects are compared with the sequential run. "
    "state = distinct (pair, schedule) whose preemptions really happened; transition = one executed scheduling point"
)
ASSUMPTIONS = [
    "scheduling points at line (call) granularity of the library; C extensions are atomic",
    "threads only read shared structures; mutation of shared objects is the caller's business",
]
BOUNDS = {
    "quick": "2 threads, 1 body each: 12 pairs (same code, other data) and 42 pairs sharing one object or propagator instance (same number of wavelengths, other values; file readers on two files) with every single preemption at line granularity; the short ones with every 2 preemptions at call granularity; all pairs of 11 different bodies with every single preemption at call granularity; both starting orders",
    "thorough": "additionally 16 shared laws with every 2 preemptions at line granularity, all pairs of 24 bodies with every single preemption at line granularity, all same-code pairs with 2 preemptions at call granularity, short ones with 2 at line and 3 at call granularity",
}
SRC = os.path.join(core.REPO, "src", "elli")


def world():
    from elli.dispersions.formula import Formula, FormulaIndex

    L = elli.Layer
    cau = elli.Cauchy(n0=1.45, n1=40, k0=0.01)
    tl = elli.TaucLorentz(Eg=1.5).add(A=60, E=3.5, C=2.0)
    form = Formula("eps = a + sum[b * x**2 / (x**2 - c**2)]", "x", {"a": 1.0}, {"b": np.array([1.0, 0.5]), "c": np.array([100.0, 50.0])}, "nm")
    fi = FormulaIndex("n = a + b / x**2", "x", {"a": 1.5, "b": 0.01}, {}, "um")
    uni = elli.UniaxialMaterial(cau, elli.Cauchy(n0=1.7, n1=50))
    uni.set_rotation(elli.rotation_v_theta(elli.E_X, 40))
    mg = elli.MaxwellGarnettEMA(cau.get_mat(), tl.get_mat(), 0.1)
    iso_st = elli.Structure(lab.iso(1), [L(cau.get_mat(), 80), L(mg, 15)], tl.get_mat())
    ani_st = elli.Structure(lab.iso(1), [elli.TwistedLayer(uni, 300, 2, 90), elli.RepeatedLayers([L(form.get_mat(), 20)], 2)], lab.iso(1.5))
    res = ani_st.evaluate(np.array([500.0, 600.0]), 60)
    rl = elli.ResultList([res, ani_st.evaluate(np.array([500.0, 600.0]), 50)])
    A, B = np.array([400.0, 500.0]), np.array([700.0, 800.0, 900.0])

    def eva(st, lb, th, s):
        def f():
            r = lab.ev(st, lb, th, s)
            return [r.jones_matrix_r, r.jones_matrix_t, r.psi, r.T]

        return f

    def tables(d, lb):
        return lambda: [d.get_dielectric(lb), d.get_refractive_index(lb), d.get_dielectric_df(lb).values]

    ssum = tl + 1.0 + elli.Gaussian().add(A=2, E=3, sigma=1)

    def mixers(lb):
        def f():
            return [c(cau.get_mat(), tl.get_mat(), 0.3).get_tensor(lb) for c in (elli.VCAMaterial, elli.LooyengaEMA, elli.MaxwellGarnettEMA, elli.BruggemanEMA)]

        return f

    def access():
        return [res.mueller_matrix, res.psi, res.delta, res.R_pp, res.rc_LR, res.T, res.get("psi_ps")]

    def listacc():
        return [rl.psi, rl.mean.psi, rl.R]

    x = np.linspace(200, 600, 9)

    def utils():
        return [
            np.array(elli.utils.convert_delta_range(np.array([10.0, 200.0, -50.0]), 0, 360)),
            elli.rotation_euler(10, 20, 30), elli.kkr.im2re(np.cos(x), x),
            elli.utils.conversion_wavelength_energy(x),
        ]

    def grow():
        d = elli.Sellmeier()
        d.add(A=1, B=0.01)
        d.add(A=0.2, B=0.02)
        e = elli.DispersionFactory.get_dispersion("Cauchy", n0=1.4)
        return [d.get_dielectric(A), e.get_dielectric(A), d.rep_params and np.array([p["A"] for p in d.rep_params])]

    def build():
        f = Formula("eps = a + b * x", "x", {"a": 1.0, "b": 0.002}, {}, "nm")
        return [f.get_dielectric(A)]

    def fi_b():
        # an own structure, same shared classes
        st = elli.Structure(lab.iso(1.0), [L(lab.iso(2.0), 50.0)], lab.iso(3.0))
        e = elli.Experiment(st, B, 40, [1, 0, 0, 1])
        r = e.evaluate()
        return [r.rho, e.jones_vector, e.stokes_vector]

    utils2 = lambda: [
        np.array(elli.utils.convert_delta_range(np.array([100.0, -200.0, 350.0]), -180, 180)),
        elli.rotation_euler(70, 80, 20), elli.kkr.im2re(np.sin(x), x), elli.kkr.re2im(np.sin(x), x),
        elli.utils.conversion_wavelength_energy(x + 7),
    ]

    def grow2():
        d = elli.Sellmeier()
        d.add(A=3, B=0.03)
        d.add(A=0.4, B=0.01)
        d.add(A=0.5, B=0.005)
        e = elli.DispersionFactory.get_dispersion("Cauchy", n0=1.9, n1=30)
        return [d.get_dielectric(B), e.get_dielectric(B)]

    def build2():
        f = FormulaIndex("n = c * x + d", "x", {"c": 0.001, "d": 1.2}, {}, "nm")
        return [f.get_dielectric(B), f.get_refractive_index(A)]

    res2 = iso_st.evaluate(np.array([450.0, 550.0, 650.0]), 35)
    rl2 = elli.ResultList([iso_st.evaluate(np.array([450.0, 550.0, 650.0]), a) for a in (30, 40, 50)])

    def access2():
        return [res2.mueller_matrix, res2.psi, res2.delta, res2.R_pp, res2.rc_LR, res2.T, res2.get("psi_ps")]

    def listacc2():
        return [rl2.psi, rl2.mean.psi, rl2.R]

    def experiment2():
        st = elli.Structure(lab.iso(1.0), [L(lab.iso(1.4), 90.0), L(lab.iso(2.2), 30.0)], lab.iso(1.5))
        e = elli.Experiment(st, A, 65, [1, 0.5, 0, 0.2])
        r = e.evaluate()
        return [r.rho, e.jones_vector, e.stokes_vector]

    iso_st2 = elli.Structure(lab.iso(1.2), [L(lab.iso(2.1), 120), L(lab.iso(1.7), 60)], lab.iso(1.5))
    A2 = np.array([450.0, 620.0])  # as long as A: buffers keyed by the length would be shared
    shared = {}

    def twin(name, make):
        shared["sh:" + name], shared["sh:" + name + "'"] = make(A, 60), make(A2, 35)

    twin("iso", lambda lb, th: eva(iso_st, lb, th, "2x2"))
    twin("ani", lambda lb, th: eva(ani_st, lb, th, "4x4"))
    for pname, pr in (("eig", lab.PropagatorEig()), ("lin", lab.PropagatorLinear()), ("expm", lab.PropagatorExpm(backend="scipy"))):
        def prop(lb, th, pr=pr):
            def f():
                r = (iso_st if th == 60 else ani_st).evaluate(lb, th, solver=elli.Solver4x4, propagator=pr)
                return [r.jones_matrix_r, r.jones_matrix_t]

            return f

        twin(pname, prop)
    mixes = [c(cau.get_mat(), tl.get_mat(), 0.3) for c in (elli.VCAMaterial, elli.LooyengaEMA, elli.MaxwellGarnettEMA, elli.BruggemanEMA)]
    for m in mixes:
        twin(type(m).__name__, lambda lb, th, m=m: lambda: [m.get_tensor(lb), m.get_refractive_index(lb), m.get_tensor_fraction(lb, th / 100)])
    graded = elli.VaryingMixtureLayer(mixes[0], 60, 2, lambda z: z / 2)
    gst = elli.Structure(lab.iso(1), [graded, L(mixes[0], 10)], lab.iso(1.5))

    def grade(lb, th):
        def f():
            return [e for _, e in gst.get_permittivity_profile(lb)] + [mixes[0].get_tensor(lb), np.array(mixes[0].fraction)]

        return f

    twin("grade", grade)
    tst = elli.Structure(lab.iso(1), [elli.RepeatedLayers([elli.TwistedLayer(uni, 300, 2, 90), L(uni, 20)], 2, 1, 0)], uni)
    twin("twist", lambda lb, th: lambda: [e for _, e in tst.get_permittivity_profile(lb)])
    xs = np.linspace(300, 900, 13)
    twin("tensor", lambda lb, th: lambda: [uni.get_tensor(lb), uni.get_refractive_index(lb)])
    laws = [form, fi, ssum, elli.Table(lbda=xs, n=1.5 + 50 / xs), elli.TableEpsilon(lbda=xs, epsilon=2.2 + 50 / xs + 0.1j)]
    for n in ("Cauchy", "CauchyUrbach", "ConstantRefractiveIndex", "DrudeEnergy", "DrudeResistivity", "EpsilonInf", "Poles", "Tanguy"):
        laws.append(elli.DispersionFactory.get_dispersion(n))
    for n in ("CauchyCustomExponent", "Gaussian", "LorentzEnergy", "LorentzLambda", "Polynomial", "Sellmeier", "SellmeierCustomExponent", "TaucLorentz", "CodyLorentz"):
        d = elli.DispersionFactory.get_dispersion(n)
        if n == "CodyLorentz":
            d.add(**{k: v for k, v in dict(A=100, Et=1.8, gamma=2.4, Ep=0.8, E0=3.6, Eu=0.05).items() if k in d.rep_params_template}) if hasattr(d, "rep_params_template") else d.add()
        else:
            d.add()
        laws.append(d)
    for d in laws:
        twin(type(d).__name__, lambda lb, th, d=d: lambda: [d.get_dielectric(lb), d.get_refractive_index(lb)])
    twin("result", lambda lb, th: (lambda: [res.psi, res.R_ps, res.mueller_matrix]) if th == 60 else (lambda: [res.delta, res.tc_LR, res.T, res.rho_t]))
    twin("list+", lambda lb, th: (lambda: [rl.psi, rl.mean.R]) if th == 60 else (lambda: [rl.delta, rl.mean.T]))
    exps = [elli.Experiment(st, A, 60, [1, 1]) for st in (iso_st, ani_st)]

    def run_exp(lb, th):
        return lambda: [e.evaluate(elli.Solver4x4).jones_matrix_r for e in exps[:: 1 if th == 60 else -1]]

    twin("experiment", run_exp)
    for n, make in readers().items():
        twin(n, make)
    return shared | {  # pairs of variants: the same code on other data
        "iso2": eva(iso_st, A, 60, "2x2"),
        "iso2'": eva(iso_st2, B, 30, "2x2"),
        "iso4": eva(iso_st, B, 50, "4x4"),
        "aniso": eva(ani_st, A, 60, "4x4"),
        "eig": eva(ani_st, B, 30, "eig"),
        "eig'": eva(iso_st, A, 65, "eig"),
        "formula": tables(form, A),
        "formula'": tables(fi, B),
        "sum": tables(ssum, B),
        "sum'": tables(elli.LorentzEnergy().add(A=3, E=4, gamma=0.1) + tl, A),
        "mix": mixers(A),
        "mix'": mixers(B),
        "access": access,
        "access'": access2,
        "list": listacc,
        "list'": listacc2,
        "utils": utils,
        "utils'": utils2,
        "grow": grow,
        "grow'": grow2,
        "build": build,
        "build'": build2,
        "experiment": fi_b,
        "experiment'": experiment2,
    }


def readers():
    """Two threads read two different files each."""
    import h5py

    tmp = tempfile.mkdtemp(prefix="c07_")
    atexit.register(shutil.rmtree, tmp, True)
    heads = {
        "woollam": ("Sample\nnm\n", "{w}\t{a}\t{p}\t{d}\t0.1\t0.2\n"),
        "ease": ("Sample\nAngstroms\n", "E\t{w}\t{a}\t{p}\t{d}\t0.1\t0.2\n"),
        "accurion": ("AOI\tLambda\tDelta\tPsi\n[deg]\t[nm]\t[deg]\t[deg]\n", "{a}\t{w}\t{d}\t{p}\n"),
    }
    res = {}
    for kind, (head, row) in heads.items():
        def make(lb, th, kind=kind, head=head, row=row):
            path = os.path.join(tmp, f"{kind}{th}." + ("ds.dat" if kind == "accurion" else "dat"))
            with open(path, "w") as f:
                f.write(head + "".join(row.format(a=a, w=w, p=round(th / 3 + i, 2), d=round(a + th + i, 2)) for a in (50, th + 5) for i, w in enumerate(lb)))
            read = elli.read_accurion_psi_delta if kind == "accurion" else elli.read_woollam_psi_delta

            def f():
                df = read(path)
                return [df.to_numpy(), np.array(list(df.index), float)]

            return f

        res["read-" + kind] = make

    def spectra(lb, th):
        path = os.path.join(tmp, f"s{th}.txt")
        with open(path, "w") as f:
            f.write(f"; WAVELENGTH 50 50 {th} {th}\n" + "".join(f"{w} {th / 3 + i} {th + i} 20.5 {170 + i}\n" for i, w in enumerate(lb)))

        def g():
            df = elli.read_spectraray_psi_delta(path)
            return [df.to_numpy(), np.array(list(df.index), float)]

        return g

    res["read-spectra"] = spectra

    def nexus(lb, th):
        path = os.path.join(tmp, f"n{th}.nxs")
        with h5py.File(path, "w") as f:
            f["entry/sample/data_type"] = "psi/delta"
            f["entry/sample/measured_data"] = th + np.arange(4.0).reshape(1, 1, 1, 2, 2)
            f["entry/instrument/spectrometer/wavelength"] = lb * 10
            f["entry/instrument/angle_of_incidence"] = np.array([float(th)])

        def g():
            df = elli.read_nexus_psi_delta(path)
            return [df.to_numpy(), np.array(list(df.index), float)]

        return g

    res["read-nexus"] = nexus

    return res


SHORT = ["formula", "sum", "utils", "grow", "build", "access", "list"]
SHARED_SHORT = ["sh:" + n for n in ("Table", "TableEpsilon", "Cauchy", "CauchyUrbach", "ConstantRefractiveIndex", "DrudeEnergy", "EpsilonInf", "Poles", "CauchyCustomExponent", "Gaussian", "LorentzEnergy", "LorentzLambda", "Polynomial", "Sellmeier", "SellmeierCustomExponent", "result")]
TWIN = {"iso4": "aniso"}
QUICK_CROSS = ["iso2", "aniso", "eig", "formula", "sum", "mix", "access", "utils", "grow", "build", "experiment"]
_W = {}


def w():
    if not _W:
        _W.update(world())
        for b in _W.values():
            b()  # warm caches so that every run takes the same path
    return _W


def cases(tier):
    names = list(w())
    twins = [(a, TWIN.get(a, a + "'")) for a in names if a in TWIN or a + "'" in names]
    for a, b in twins:
        for first in (0, 1):
            yield dict(pair=[a, b], first=first, bound=1, gran="line")
            if a in SHORT:
                yield dict(pair=[a, b], first=first, bound=2, gran="call")
    for i, a in enumerate(QUICK_CROSS):
        for b in QUICK_CROSS[i:]:
            for first in (0, 1):
                yield dict(pair=[a, b], first=first, bound=1, gran="call")
    if tier == "thorough":
        for a, b in twins:
            if a in SHARED_SHORT:
                for first in (0, 1):
                    yield dict(pair=[a, b], first=first, bound=2, gran="line")
        names = [n for n in names if not n.startswith("sh:")]
        twins = [t for t in twins if not t[0].startswith("sh:")]
        for i, a in enumerate(names):
            for b in names[i:]:
                if (a, b) not in twins:
                    for first in (0, 1):
                        yield dict(pair=[a, b], first=first, bound=1, gran="line")
        for a, b in twins:
            for first in (0, 1):
                if a not in SHORT:
                    yield dict(pair=[a, b], first=first, bound=2, gran="call")
                if a in ("utils", "grow", "build", "list"):
                    yield dict(pair=[a, b], first=first, bound=2, gran="line")
                    yield dict(pair=[a, b], first=first, bound=3, gran="call")


TIMEOUT = {"quick": 200, "thorough": 3000}
CHUNK = 1


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-11, equal_nan=True):
            return False
    return True


def check(case, out):
    bodies = [w()[n] for n in case["pair"]]
    expected = [b() for b in bodies]
    events = ("line", "call") if case["gran"] == "line" else ("call",)
    base = np.geterr()
    blocked = 0

    def wrap(b):
        def f():
            before = np.geterr()
            r = b()
            return r, before == np.geterr()

        return f

    wrapped = [wrap(b) for b in bodies]

    def execute(preempt):
        r = Run(wrapped, case["first"], preempt, SRC, events).go()
        rep = dict(case, preempt=list(preempt))
        for t in (0, 1):
            if r.errors[t] is not None:
                out.fail(f"exception:{case['pair'][t]}", f"{type(r.errors[t]).__name__}: {r.errors[t]} in {case['pair']} preempted at {r.where}", rep)
                continue
            val, err_ok = r.results[t]
            out.that(same(val, expected[t]), f"result:{case['pair'][t]}", f"{case['pair'][t]} next to {case['pair'][1 - t]} gives another result when preempted at {r.where}", rep)
            out.that(err_ok, f"errstate:{case['pair'][t]}", f"numpy error settings of a thread changed, {case['pair']} preempted at {r.where}", rep)
        out.that(np.geterr() == base, "errstate:main", f"numpy error settings changed {rep}", rep)
        out.trans(sum(r.points))
        out.trace()
        if r.fired:
            out.state(case["pair"], case["first"], preempt, case["gran"])
        return r

    if "preempt" in case:
        execute(case["preempt"])
        return
    r0 = execute([])
    r1 = execute([])
    out.that(r0.points == r1.points, "deterministic", f"the same schedule executed twice took different paths: {r0.points} {r1.points} ({case})")
    n = r0.points
    first = case["first"]
    other = 1 - first

    def extend(prefix, running, remaining, left):
        nonlocal blocked
        for k in range(1, remaining[running] + 1):
            if blocked > 20:
                out.count("capped_blocked_pairs")
                return
            pre = prefix + [k]
            r = execute(pre)
            blocked += r.blocked
            if left > 1 and not r.blocked:
                rem = list(remaining)
                rem[running] -= k
                extend(pre, 1 - running, rem, left - 1)

    extend([], first, list(n), case["bound"])
    for i in (0, 1):  # sequential behaviour is unchanged afterwards
        out.that(same(bodies[i](), expected[i]), "after", f"{case['pair'][i]} gives another result after the concurrent runs")
    out.sample({"pair": case["pair"], "points": n, "bound": case["bound"], "granularity": case["gran"]})
