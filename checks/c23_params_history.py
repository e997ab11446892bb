"""C23: the parameter history is a bounded stack of parameter sets."""

import copy
import itertools

from lmfit import Parameters

from elli.fitting.params_hist import ParamsHist

ID = "C23"
LEVEL = "model_checking"
RULE = (
    "all histories up to the bound over tracked changes, plain edits, commits, pops, reverts, limits and clears are executed on the real object "
    "next to a reference stack of plain snapshots; after every step current set, history, lengths and returned values are compared. "
    "state = (current set, history, limit) of the reference"
)
BOUNDS = {
    "quick": "all histories of <= 3 of 32 operations, all of <= 5 of 7 core operations from 3 start states (one without parameters); long runs of 60..1095 changes with 14 history limits, limits up to 1e18, reverts to all places and pops of everything; sets of up to 100 parameters",
    "thorough": "all histories of <= 4 of 32 operations, all of <= 7 of 7 core operations",
}
ASSUMPTIONS = ["a copy of a parameter set starts without history (lmfit semantics)"]
CHUNK = 1
TIMEOUT = {"quick": 400, "thorough": 3000}


def snap(p):
    return {k: (float(v.value), bool(v.vary), float(v.min), float(v.max), v.expr, v.stderr, v.brute_step, v.user_data) for k, v in p.items()}


PLAIN = [None, None, None]  # stderr, step of a brute-force fit, data of the user


def start(k):
    p = ParamsHist()
    if k == 2:  # nothing yet
        return p
    p.add("a", 1.0, min=0, max=5)
    p.add("b", 2.0, vary=False)
    p["a"].stderr, p["a"].brute_step, p["a"].user_data = 0.25, 0.5, "from the data sheet"
    p["b"].user_data = {"unit": "nm"}
    if k:
        p.add("c", expr="2*a")
    return p


def other(k):
    q = Parameters()
    if k == 0:
        q.add("a", 3.5, min=-1, max=9)
        q["a"].stderr = 0.125
    elif k == 1:
        q.add("b", -4.0, vary=True, max=10)
        q.add("d", 0.25, min=0)
    else:
        q.add("a", 4.0, min=0, max=5)
        q.add("b", 2.0, vary=False)
    return q


class Model:
    def __init__(self, k):
        self.cur = {"a": [1.0, True, 0.0, 5.0, None, 0.25, 0.5, "from the data sheet"], "b": [2.0, False, -INF, INF, None, None, None, {"unit": "nm"}]}
        if k == 1:
            self.cur["c"] = [2.0, False, -INF, INF, "2*a"] + PLAIN
        if k == 2:
            self.cur = {}
        self.hist = []
        self.max = 50

    def fresh(self):
        if "c" in self.cur and self.cur["c"][4]:
            self.cur["c"][0] = 2 * self.cur["a"][0]

    def snapshot(self):
        self.fresh()
        return {k: tuple(v) for k, v in self.cur.items()}

    def commit(self):
        if len(self.hist) >= self.max:
            self.hist = self.hist[1:]
        self.hist.append(self.snapshot())

    def restore(self, s):
        self.cur = {k: list(v) for k, v in s.items()}

    def set(self, k, v):
        c = self.cur[k]
        c[0] = min(max(v, c[2]), c[3])


INF = float("inf")


def edit(name, v):
    def f(p, m):
        if name not in m.cur:
            return
        p[name].value = v
        m.set(name, v)

    return f


def update_value(name, v):
    def f(p, m):
        if name not in m.cur:
            return
        p.update_value(name, v)
        m.commit()
        m.set(name, v)

    return f


def update_params(k, scribble):
    def f(p, m):
        q = other(k)
        p.update_params(q)
        m.commit()
        for n, v in snap(q).items():
            m.cur[n] = list(v)
        if scribble:  # the object given stays the caller's
            for n in q:
                q[n].value = -0.5
                q[n].vary = not q[n].vary

    return f


def pop(scribble):
    def f(p, m):
        exp = m.snapshot() if m.hist else None
        r = p.pop()
        if m.hist:
            m.restore(m.hist.pop())
        if (r is None) != (exp is None) or (exp is not None and snap(r) != exp):
            return f"pop returned {r if r is None else snap(r)}, expected {exp}"
        if scribble and r is not None:
            for n in r:
                r[n].value = 0.125
                r[n].max = 77

    return f


def revert(i, scribble=False):
    def f(p, m):
        p.revert(i)
        if -len(m.hist) <= i < len(m.hist):
            m.restore(m.hist[i])
            if scribble and "a" in m.cur:  # edits of the restored set stay out of the history
                p["a"].value = 0.75
                m.set("a", 0.75)

    return f


def limit(n):
    def f(p, m):
        p.max_history_len = n
        m.max = n
        m.hist = m.hist[-n:]

    return f


def bad_limit(n):
    def f(p, m):
        try:
            p.max_history_len = n
        except ValueError:
            return
        return f"max_history_len={n!r} accepted"

    return f


def tracked_add(name, *a, **k):
    def f(p, m):
        p.tracked_add(name, *a, **k)
        m.commit()
        m.cur[name] = [float(a[0]), k.get("vary", True), float(k.get("min", -INF)), float(k.get("max", INF)), None] + PLAIN

    return f


def add(p, m):
    p.add("e", 6.0)
    m.cur["e"] = [6.0, True, -INF, INF, None] + PLAIN


def delete(p, m):
    if "b" in m.cur:
        del p["b"]
        del m.cur["b"]


def delete_all(p, m):
    for n in list(p)[::-1]:
        del p[n]
    m.cur = {}


def bounds(p, m):
    if "a" not in m.cur:
        return
    p["a"].max = 4.0
    p["a"].vary = False
    p["a"].value = 1.25
    m.cur["a"][3] = 4.0
    m.cur["a"][1] = False
    m.set("a", 1.25)


def commit(p, m):
    p.commit()
    m.commit()


def clear(p, m):
    p.clear_history()
    m.hist = []


def copies(p, m):
    q, r = p.copy(), copy.deepcopy(p)
    for x in (q, r):
        if snap(x) != m.snapshot():
            return f"copy is {snap(x)}"
        if "a" not in m.cur:
            x.commit()
            x.add("z", 1.0)
            x.pop()
            continue
        x["a"].value = 0.1
        x.commit()
        x.pop()
        x["a"].value = 0.2


def unknown(p, m):
    try:
        p.update_value("nothing", 1.0)
    except KeyError:
        m.commit() if p.history_len != len(m.hist) else None  # whether a rejected change is recorded is not specified
        return
    return "update_value of an unknown name accepted"


def read(p, m):
    h = p.history
    for s in h:
        s.valuesdict()
    p.history_len, p.max_history_len
    list(p.items())


OPS = {
    "edit a": edit("a", 3.0), "edit a beyond": edit("a", 8.0), "edit b": edit("b", -1.0), "set a": update_value("a", 2.5), "set b": update_value("b", 9.0),
    "commit": commit, "pop": pop(False), "pop+scribble": pop(True), "revert 0": revert(0), "revert -1": revert(-1), "revert 1": revert(1), "revert -2": revert(-2, True),
    "revert 99": revert(99), "revert -99": revert(-99), "update a": update_params(0, False), "update b,d": update_params(1, True), "update all": update_params(2, True), "add": add, "tracked add": tracked_add("f", 1.5, min=0),
    "tracked add b": tracked_add("b", 7.0, vary=False), "delete b": delete, "delete all": delete_all, "tracked add a": tracked_add("a", 0.5, max=3), "bounds": bounds, "clear": clear, "limit 1": limit(1), "limit 2": limit(2),
    "limit 3": limit(3), "bad limit": bad_limit(0), "bad limit f": bad_limit(2.5), "copies": copies, "read": read,
}
CORE = ["edit a", "set a", "commit", "pop", "revert 0", "update all", "limit 2"]


def cases(tier):
    names = list(OPS)
    for n in names:
        yield dict(first=[n], ops="all", depth=2)
    for a in names:
        for b in names if tier == "thorough" else [None]:
            yield dict(first=[a] if b is None else [a, b], ops="all", depth=3 if tier == "quick" else 4)
    for a, b in itertools.product(CORE, CORE):
        yield dict(first=[a, b], ops="core", depth=5 if tier == "quick" else 7)
    for k in range(4):
        yield dict(long=k)
    for lim in (50, 1, 2, 49, 51, 64, 65, 100, 128, 129, 256, 257, 300, 1025):
        yield dict(run=lim, n=lim + 70 if tier == "quick" else 2 * lim + 70)
    for n in (5, 10, 16, 17, 32, 33, 64, 65, 100):
        yield dict(many=n)
    yield dict(bad=1)


def judge(out, p, m, hist):
    ok = snap(p) == m.snapshot()
    out.that(ok, "current", lambda: f"after {hist}: {snap(p)}, expected {m.snapshot()}")
    out.that(p.history_len == len(m.hist) and len(p.history) == len(m.hist), "length", lambda: f"after {hist}: history has {p.history_len}, expected {len(m.hist)}")
    out.that([snap(s) for s in p.history] == m.hist, "history", lambda: f"after {hist}: history {[snap(s) for s in p.history]}, expected {m.hist}")
    out.that(p.max_history_len == m.max, "limit", lambda: f"after {hist}: limit {p.max_history_len}")
    out.state(m.snapshot(), m.hist, m.max)
    return ok


def run(out, hist, k):
    p, m = start(k), Model(k)
    for i, n in enumerate(hist):
        msg = OPS[n](p, m)
        out.trans()
        if msg:
            out.that(False, "answer", f"{msg} after {hist[: i + 1]}")
        # shorter histories are judged by their own case
        if i == len(hist) - 1:
            judge(out, p, m, hist)
    out.trace()


def long_run(lim, n, out):
    """far more changes than the history may hold, then revert to every entry and pop all"""
    p, m = start(1), Model(1)
    if lim != 50:
        limit(lim)(p, m)
    for i in range(n):
        (update_value("a", (i % 97) / 20) if i % 4 else tracked_add("b", float(i)) if i % 8 else edit("a", (i % 5) / 3))(p, m)
        if i % 8 == 0:
            commit(p, m)
        out.trans()
        out.that(p.history_len == len(m.hist), "length", f"{i + 1} changes with limit {lim}: {p.history_len}")
        if i in (0, lim - 2, lim - 1, lim, lim + 1, n - 1) or i % 50 == 49:
            judge(out, p, m, f"{i + 1} changes with limit {lim}")
    for i in sorted({0, 1, -1, -2, lim // 2, lim - 1, -lim, lim, -lim - 1, len(m.hist) - 1, -len(m.hist), len(m.hist)}):
        revert(i)(p, m)
        out.trans()
        judge(out, p, m, f"{n} changes with limit {lim}, revert {i}")
    for i in range(len(m.hist) + 3):
        msg = pop(i % 2 == 0)(p, m)
        out.trans()
        out.that(not msg, "answer", lambda: f"pop {i} after {n} changes with limit {lim}: {msg}")
        out.that(p.history_len == len(m.hist) and snap(p) == m.snapshot(), "current", lambda: f"pop {i} after {n} changes with limit {lim}: {snap(p)}, expected {m.snapshot()}")
    out.trace()


def many(n, out):
    """many parameters, some bound by expressions"""
    p = ParamsHist()
    for i in range(n):
        p.add(f"p{i}", float(i), min=-1, max=2 * n, vary=i % 3 != 0)
    p.add("s", expr="p0+2*p1")
    want = []
    for step in range(12):
        before = snap(p)
        k = (step * 7) % n
        if step % 3 == 0:
            p.update_value(f"p{k}", step + 0.5)
        elif step % 3 == 1:
            q = Parameters()
            for i in range(k, n):
                q.add(f"p{i}", step + i / 8, max=3 * n)
            p.update_params(q)
        else:
            p.tracked_add(f"p{k}", step / 4, vary=False)
        want.append(before)
        out.trans()
        out.that([snap(x) for x in p.history] == want, "history", lambda: f"{n} parameters, {step + 1} changes: the history is wrong")
        now = snap(p)
        out.that(abs(now["s"][0] - now["p0"][0] - 2 * now["p1"][0]) < 1e-12, "current", lambda: f"{n} parameters, {step + 1} changes: the expression is {now['s']}")
    for w in reversed(want):
        r = p.pop()
        out.that(snap(p) == w, "current", lambda: f"{n} parameters: pop gives another set")
    out.that(p.pop() is None and snap(p) == want[0], "answer", f"{n} parameters: pop of an empty history")
    out.state("many", n)
    out.trace()


def check(case, out):
    if "run" in case:
        return long_run(case["run"], case["n"], out)
    if "many" in case:
        return many(case["many"], out)
    if "long" in case:
        k = case["long"]
        p, m = start(k % 2), Model(k % 2)
        if k > 1:
            limit(7)(p, m)
        for i in range(60):
            (update_value("a", (i % 50) / 10) if i % 3 else tracked_add("b", float(i)))(p, m)
            if i % 9 == 0 or i > 45:
                judge(out, p, m, f"{i + 1} changes")
            else:
                out.that(p.history_len == len(m.hist), "length", f"{i + 1} changes: {p.history_len}")
        for i in range(55):
            msg = pop(True)(p, m)
            out.that(not msg, "answer", lambda: f"pop {i} after 60 changes: {msg}")
            judge(out, p, m, f"60 changes and {i + 1} pops")
        out.trace()
        return
    if "bad" in case:
        for v in (0, -1, -50, 2.5, 1.0, "3", None, [3], 1e3):
            p, m = start(0), Model(0)
            for n in ("set a", "set b", "commit"):
                OPS[n](p, m)
            msg = bad_limit(v)(p, m)
            out.that(not msg, "reject", lambda: msg)
            judge(out, p, m, f"rejected limit {v!r}")
        for bad in ("nothing", ""):
            p, m = start(1), Model(1)
            OPS["set a"](p, m)
            msg = unknown(p, m)
            out.that(not msg, "reject", lambda: msg)
            judge(out, p, m, "rejected name")
        for v in (1, 2, 49, 50, 51, 1000, 1001, 1024, 4097, 10**5, 2**31, 10**12, 10**18):
            p, m = start(0), Model(0)
            for i in range(55):
                p.update_value("a", i / 20)
                m.commit()
                m.set("a", i / 20)
            limit(v)(p, m)
            judge(out, p, m, f"limit {v}")
            OPS["set a"](p, m)
            judge(out, p, m, f"limit {v} and a change")
        return
    names = list(OPS) if case["ops"] == "all" else CORE
    n = case["depth"] - len(case["first"])
    for k in (0, 1, 2):
        if len(case["first"]) == 1 and case["depth"] == 2:
            run(out, case["first"], k)
        for rest in itertools.product(names, repeat=n):
            run(out, case["first"] + list(rest), k)
    out.sample(case)
