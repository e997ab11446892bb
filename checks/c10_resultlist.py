"""C10: lists of results behave element-wise and average element-wise."""

import copy
import itertools
import pickle

import numpy as np

from mc import lab
from mc.lab import elli

ID = "C10"
LEVEL = "model_checking"
RULE = (
    "breadth-first exploration of list histories (creation, append, editing the stored results, copy, deepcopy, "
    "pickle, delta range of a member) over 4 results; state = (tuple of members with their ranges); transition = one "
    "operation on the real list and on a plain Python list; in every state every quantity and name of the list and of "
    "its mean is compared with the members'"
)
BOUNDS = {
    "quick": "all histories of length <= 3 over 16 operations, each replayed on one live list that is read after every step (states deduplicated by member tuple), 4 families of results (1, 2, 3, 4 and 65 wavelengths)",
    "thorough": "length <= 4, 8 families",
}
ASSUMPTIONS = ["axes of length one may be dropped by the list (as documented by its behaviour)"]

QUANT = [
    "psi", "delta", "rho", "psi_t", "delta_t", "rho_t", "psi_matrix", "delta_matrix", "rho_matrix", "psi_matrix_t",
    "delta_matrix_t", "rho_matrix_t", "mueller_matrix", "jones_matrix_r", "jones_matrix_t", "jones_matrix_rc",
    "jones_matrix_tc", "R", "T", "R_matrix", "T_matrix", "Rc_matrix", "Tc_matrix", "r", "t", "Ψ", "Δ", "r_ps", "r_sp", "t_pp",
    "R_pp", "T_ss", "psi_ps", "Ψ_sp", "Δ_pp", "rc_LR", "Rc_LL", "Tc_RL", "mueller_matrix_23", "psi_matrix_t_sp",
]
FAM = {"quick": [1, 2, 3, 65], "thorough": [1, 2, 3, 4, 5, 64, 65, 257]}


_POOL = {}


def pool(nl):
    """4 results with nl wavelengths: isotropic, anisotropic, another angle, another polarization."""
    if nl not in _POOL:
        lb = np.linspace(400, 800, nl) if nl > 1 else 500.0
        R = elli.rotation_euler(30, 50, 20)
        a = elli.Structure(lab.iso(1), [elli.Layer(lab.iso(1.46), 120)], lab.iso(3.8 + 0.05j))
        b = elli.Structure(lab.iso(1), [elli.Layer(lab.bi(1.5, 1.7, 1.9 + 0.1j, R), 200)], lab.iso(1.5))
        _POOL[nl] = [
            a.evaluate(lb, 60), b.evaluate(lb, 60), a.evaluate(lb, 70),
            elli.Experiment(b, lb, 40, [1, 0.5, 0.2, 0.3]).evaluate(),
        ]
    return _POOL[nl]


RNG = [(-180, 180), (0, 360), (0, 180)]
OPS = (
    [("append", i) for i in range(4)]
    + [("insert", i) for i in (1, 3)]
    + [("setitem", 2), ("pop",), ("popfirst",), ("reverse",), ("rebuild",), ("copy",), ("deepcopy",), ("pickle",), ("range", 1), ("range", 2)]
)


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for nl in FAM[tier]:
        for init in ([], [0], [1, 0], [2, 1, 3], [0, 0]):
            yield dict(nl=nl, init=init, depth=depth)
    yield dict(kind="fresh")
    for n in (10, 64, 100, 130):
        yield dict(kind="long", n=n)


CHUNK = 1


def shape_eq(got, want, tol=1e-10):
    g, w = np.squeeze(np.asarray(got)), np.squeeze(np.asarray(want))
    return g.shape == w.shape and np.allclose(g, w, rtol=tol, atol=tol, equal_nan=True)


def judge(out, lst, model, hist, case, mean=True):
    rep = dict(case, hist=[list(map(str, o)) for o in hist]) if hist is not None else case
    out.that(len(lst) == len(model), "len", f"the list has length {len(lst)} instead of {len(model)} after {hist}", rep)
    out.that(len(lst.results) == len(model) , "results", f"{len(lst.results)} results stored instead of {len(model)} after {hist}", rep)
    if not model:
        return
    for q in QUANT:
        vals = [np.asarray(getattr(m, q)) for m in model]
        got = getattr(lst, q)
        out.that(shape_eq(got, np.array(vals)), f"list:{q}", lambda: f"{q} of the list is not the members' {q} after {hist}: {np.ravel(got)[:4]} {np.shape(got)}", rep)
        if mean:
            got = lst.mean
            got = getattr(got, q)
            want = sum(vals) / len(vals)
            out.that(np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-10, atol=1e-10, equal_nan=True), f"mean:{q}", lambda: f"mean {q} is {np.ravel(got)[:4]} {np.shape(got)}, expected {np.ravel(want)[:4]} {np.shape(want)} after {hist}", rep)


def model_step(state, op):
    """The same operation on the abstract list (tuple of members)."""
    k = op[0]
    if k == "append":
        return state + ((op[1], 0),)
    if k == "insert":
        return ((op[1], 0),) + state
    if k == "setitem":
        return state[:-1] + ((op[1], 0),)
    if k == "pop":
        return state[:-1]
    if k == "popfirst":
        return state[1:]
    if k in ("reverse", "rebuild"):
        return state[::-1]
    if k == "range":
        return state[:-1] + ((state[-1][0], op[1]),)
    return state


def check(case, out):
    if case.get("kind") == "fresh":
        a, b = elli.ResultList(), elli.ResultList()
        a.append(pool(3)[0])
        out.that(len(b) == 0 and len(elli.ResultList()) == 0, "fresh", "a new empty list shares its members with another one")
        out.that(len(elli.ResultList([])) == 0, "fresh", "empty list")
        m = elli.ResultList(pool(3)[:3])
        for bad in ("foo", "r_xy"):
            try:
                getattr(m, bad)
                out.that(False, f"name:{bad}", f"unknown name {bad} was answered")
            except Exception:
                out.ev()
        try:
            m.mean.mean
            out.that(False, "mean.mean", "averaging twice was accepted")
        except ValueError:
            out.ev()
        before = [np.array(r.psi) for r in m.results]
        m.mean.psi, m.mean.mueller_matrix, m.psi
        out.that(all(np.array_equal(x, r.psi) for x, r in zip(before, m.results)), "fresh", "reading changed a member")
        out.that(len(m.mean) == 3, "mean:len", "length of the averaged list")
        # order independence of the mean
        for perm in itertools.permutations(range(3)):
            p = elli.ResultList([m.results[i] for i in perm])
            for q in ("psi", "mueller_matrix", "rho", "R"):
                out.that(lab.err(getattr(p.mean, q), getattr(m.mean, q)) < 1e-10, f"mean-order:{q}", f"mean {q} depends on the order {perm}")
        # the same objects several times: every occurrence counts
        few = ("psi", "rho", "R", "mueller_matrix", "r_ps", "Tc_RL", "jones_matrix_t", "T_matrix")
        P = pool(3)
        vals = {q: [np.asarray(getattr(r, q)) for r in P] for q in few}
        for n in (1, 2, 3, 4):
            for w in itertools.product(range(4), repeat=n):
                p = elli.ResultList([P[i] for i in w])
                for q in few:
                    want = [vals[q][i] for i in w]
                    out.that(shape_eq(getattr(p, q), np.array(want)), f"list:{q}", f"{q} of the list of members {w}")
                    out.that(lab.err(getattr(p.mean, q), sum(want) / n) < 1e-10, f"mean:{q}", f"mean {q} of the list of members {w}")
                out.state("same objects", w)
                out.trans()
        # averaged lists stand in for results, so lists hold averages and averages of averages
        LM = elli.ResultList
        avg = [LM([P[0], P[1]]).mean, LM([P[2]]).mean, LM([P[3], P[0], P[2]]).mean]
        avg.append(LM([avg[0], P[3]]).mean)
        parts = [(0, 1), (2,), (3, 0, 2), None]
        ref = {q: [sum(vals[q][i] for i in p) / len(p) for p in parts[:3]] for q in few}
        for q in few:
            ref[q].append((ref[q][0] + vals[q][3]) / 2)
        for n in (1, 2, 3):
            for w in itertools.product(range(8), repeat=n):
                if max(w) < 4:
                    continue
                for how in ("list", "append"):
                    mem = [P[i] if i < 4 else avg[i - 4] for i in w]
                    p = LM(mem) if how == "list" else LM()
                    for x in mem if how == "append" else ():
                        p.append(x)
                    for q in few:
                        want = [vals[q][i] if i < 4 else ref[q][i - 4] for i in w]
                        out.that(shape_eq(getattr(p, q), np.array(want)), f"list:{q}", f"{q} of the list of results and averages {w}")
                        out.that(lab.err(getattr(p.mean, q), sum(want) / n) < 1e-10, f"mean:{q}", f"mean {q} of the list of results and averages {w}")
                    out.that(len(p) == n and len(p.mean) == n, "len", f"length of the list of results and averages {w}")
                out.state("averages", w)
                out.trans()
        # members whose quantities are undefined, infinite, tiny or huge at some wavelength
        odd = [np.nan, np.inf, 0.0, 1e-12, 1e8, 1.0, -1.0, 1e-160, 1j]
        exp = P[0].experiment
        rng = np.arange(12).reshape(3, 2, 2) * (0.07 - 0.03j) + 0.2
        for u, v in itertools.product(range(len(odd)), repeat=2):
            mem = []
            for z, pos in ((odd[u], 0), (odd[v], 1)):
                jr, jt = rng.astype(complex), rng[::-1] * (1 - 0.3j)
                jr[pos, 1, 1] = z
                jt[pos, 0, 0] = z
                jr[2, pos, 0] = z
                mem.append(elli.Result(exp, jr, jt))
            for w in ((0, 1), (1, 0), (0, 0, 1), (0,)):
                p = LM([mem[i] for i in w])
                with np.errstate(all="ignore"):
                    for q in few + ("delta", "psi_matrix", "rho_t"):
                        want = np.array([getattr(mem[i], q) for i in w])
                        got = getattr(p, q)
                        out.that(np.array_equal(np.squeeze(want), got, equal_nan=True), f"list:{q}", f"{q} of a list of results with elements {odd[u]}, {odd[v]}")
                        got, ref1 = getattr(p.mean, q), sum(want[1:], want[0]) / len(w)
                        bad = ~np.isfinite(ref1)
                        ok = np.array_equal(np.isfinite(got), ~bad) and np.allclose(got[~bad], ref1[~bad], rtol=1e-9, atol=1e-12 * np.abs(ref1[~bad]).max(initial=0))
                        out.that(ok, f"mean:{q}", f"mean {q} of results with elements {odd[u]}, {odd[v]}, members {w}: {np.ravel(got)[:6]}, expected {np.ravel(ref1)[:6]}")
                out.state("odd", u, v, w)
        # members with different numbers of layers; identical members
        for k in (1, 2, 7):
            p = elli.ResultList([m.results[1]] * k)
            for q in QUANT:
                out.that(np.allclose(getattr(p.mean, q), getattr(m.results[1], q), rtol=1e-10, atol=1e-10), f"mean-same:{q}", f"mean {q} of {k} equal results differs from the result")
        out.state("fresh")
        return
    if case.get("kind") == "long":
        base = pool(3)
        model = [base[(i * i + i // 3) % 4] for i in range(case["n"])]
        lst = elli.ResultList(list(model[:5]))
        for r in model[5:]:
            lst.append(r)
        judge(out, lst, model, None, case)
        out.state("long", case["n"])
        out.trans(case["n"])
        return
    P = pool(case["nl"])
    # explicit-state search: a state is the tuple of members (by base index) with delta ranges
    start = tuple((i, 0) for i in case["init"])
    seen = {(start, "new")}
    frontier = [(start, ())]
    cache = {}

    def member(key):
        if key not in cache:
            r = copy.copy(P[key[0]])
            cache[key] = r.as_delta_range(*RNG[key[1]])
        return cache[key]

    def build(state):
        return [copy.copy(member(k)) for k in state]

    def step(lst, op):
        other = None
        if op[0] == "append":
            lst.append(copy.copy(P[op[1]]))
        elif op[0] == "insert":
            lst.results.insert(0, copy.copy(P[op[1]]))
        elif op[0] == "setitem":
            lst.results[-1] = copy.copy(P[op[1]])
        elif op[0] == "pop":
            lst.results.pop()
        elif op[0] == "popfirst":
            del lst.results[0]
        elif op[0] == "reverse":
            lst.results.reverse()
        elif op[0] == "rebuild":
            lst = elli.ResultList(lst.results[::-1])
        elif op[0] in ("copy", "deepcopy", "pickle"):
            other = lst
            lst = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[op[0]](lst)
        elif op[0] == "range":
            lst.results[-1].as_delta_range(*RNG[op[1]])
        return lst, other

    def peek(lst):
        if len(lst):
            lst.psi, lst.mean.psi, lst.mean.mueller_matrix, lst.delta

    judge(out, elli.ResultList(build(start)), build(start), (), case)
    for level in range(case["depth"]):
        nxt = []
        for state, hist in frontier:
            for op in OPS:
                n = len(state)
                if op[0] in ("setitem", "pop", "popfirst", "range") and n == 0 or (op[0] == "range" and n < 1):
                    continue
                if op[0] in ("append", "insert") and n >= 5:
                    continue
                # the whole history is replayed on one live list that is read after every step
                lst = elli.ResultList(build(start))
                peek(lst)
                for o in hist:
                    lst = step(lst, o)[0]
                    peek(lst)
                lst, other = step(lst, op)
                new = model_step(state, op)
                out.trans()
                out.trace()
                h = hist + (op,)
                first = (new, "new") not in seen
                model = [member(k) for k in new]
                if first or op[0] in ("deepcopy", "pickle", "copy"):
                    if op[0] in ("deepcopy", "pickle") and state:
                        # the copy is independent of the original
                        lst.append(copy.copy(P[0]))
                        lst.results[0].as_delta_range(-90, 270)
                        judge(out, other, [member(k) for k in state], h + (("edit copy",),), case, mean=False) if level < 2 else None
                        lst.results.pop()
                        lst.results[0].as_delta_range(*RNG[new[0][1]])
                    if op[0] in ("deepcopy", "pickle", "copy") and level >= 2:
                        out.that(len(lst) == len(model), "len", f"length after {h}")
                    else:
                        judge(out, lst, model, h, case)
                else:
                    out.that(len(lst) == len(model), "len", f"length after {h}")
                    if model:
                        out.that(shape_eq(lst.psi, np.array([m.psi for m in model])), "list:psi", f"psi after {h}")
                if first:
                    seen.add((new, "new"))
                    nxt.append((new, h))
                    out.state(case["nl"], new)
        frontier = nxt
    out.sample({"nl": case["nl"], "init": case["init"], "states": len(seen)})
