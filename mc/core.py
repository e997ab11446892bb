"""Explorer core: exhaustive, deterministic enumeration of a bounded space.

A check module provides

* ``ID``            property id,
* ``LEVEL``         evidence level ("model_checking" or "exploration"),
* ``RULE``          how cases are made and what makes one non-trivial,
* ``cases(tier)``   an iterator over JSON-able case descriptors (the whole
                    bounded space, simplest first),
* ``check(case, out)``  executes the real code on one case and reports to
                    ``out`` (an :class:`Out`).

Nothing is random: the same tree yields the same enumeration, the same counts
and the same verdict.  A case descriptor is everything needed to re-execute it,
so it is also the replay artefact.
"""

import hashlib
import json
import os
import signal
import sys
import time
import traceback
from multiprocessing import TimeoutError, get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ELLI_REPO", "/repo")
CASE_TIMEOUT = int(os.environ.get("MC_CASE_TIMEOUT", "200"))
MAX_KEEP = 40


class CaseTimeout(BaseException):
    pass


class Out:
    """Collects what one case did."""

    def __init__(self, case):
        self.case = case
        self.evals = 0  # executions of the real code that were judged
        self.states = set()  # hashes of distinct states/outcomes visited
        self.transitions = 0
        self.traces = 0  # histories replayed on the implementation
        self.violations = []
        self.samples = []
        self.extra = {}

    # -- bookkeeping -----------------------------------------------------
    def ev(self, n=1):
        self.evals += n

    def state(self, *what):
        """Record a distinct non-trivial state / outcome."""
        self.states.add(h(what))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, what):
        if len(self.samples) < 2:
            self.samples.append(what)

    # -- verdicts --------------------------------------------------------
    def fail(self, key, message, replay=None):
        if len(self.violations) < MAX_KEEP:
            self.violations.append(
                {
                    "key": str(key),
                    "message": str(message)[:2000],
                    "case": self.case if replay is None else replay,
                }
            )

    def that(self, ok, key, message, replay=None):
        self.evals += 1
        if not ok:
            self.fail(key, message() if callable(message) else message, replay)
        return bool(ok)


def h(what):
    return hashlib.blake2b(
        json.dumps(what, sort_keys=True, default=str).encode(), digest_size=8
    ).hexdigest()


def _pack(out):
    return (
        out.evals,
        out.states,
        out.transitions,
        out.traces,
        out.violations,
        out.samples,
        out.extra,
    )


_MODULE = None


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case):
    out = Out(case)
    try:
        if CASE_TIMEOUT:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(CASE_TIMEOUT)
        mod.check(case, out)
    except CaseTimeout:
        out.fail("timeout", f"no answer within {CASE_TIMEOUT} s")
    except Exception as e:  # the real code (or the harness) raised
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(
            f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[::-1][:6]
        )
        out.evals += 1
        out.fail(
            f"exception:{type(e).__name__}", f"{type(e).__name__}: {e} at {where}"
        )
    finally:
        if CASE_TIMEOUT:
            signal.alarm(0)
    return out


def _work(chunk):
    return [_pack(run_case(_MODULE, c)) for c in chunk]


def load_findings():
    """known_findings.txt:  finding: property=<id> key=<key> <text>"""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            body = line[len("finding:") :].strip()
            prop, key, text = body.split(None, 2)
            res.setdefault(prop.split("=", 1)[1], {})[key.split("=", 1)[1]] = text
    return res


def setup_import_path():
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    sys.path.insert(0, VERIF)


def broken(pid, text):
    """Building the explored space with the real code failed: the property cannot hold."""
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{pid}-setup.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": pid, "key": "setup", "message": text, "case": None}, f, indent=1)
    print(text)
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def main(mod, argv):
    global _MODULE
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 0
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        elif argv[i] == "--replay":
            replay = argv[i + 1]
            i += 1
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    _MODULE = mod
    if hasattr(mod, "setup"):
        mod.setup(tier)

    if hasattr(mod, "TIMEOUT"):
        global CASE_TIMEOUT
        CASE_TIMEOUT = mod.TIMEOUT[tier]

    if replay:
        data = json.load(open(replay, encoding="utf-8"))
        out = run_case(mod, data["case"])
        for v in out.violations:
            print(f"reproduced: [{v['key']}] {v['message']}")
        if not out.violations:
            print("not reproduced: the property held on this case")
        return 1 if out.violations else 0

    cases = list(mod.cases(tier))
    chunk = getattr(mod, "CHUNK", None) or max(1, min(64, len(cases) // 64))
    chunks = [cases[i : i + chunk] for i in range(0, len(cases), chunk)]
    workers = min(int(os.environ.get("MC_JOBS", "8")), max(1, len(chunks)))
    if getattr(mod, "SERIAL", False):
        workers = 1

    tot = {"evals": 0, "transitions": 0, "traces": 0}
    states, violations, samples, extra = set(), [], [], {}

    def absorb(packed):
        ev, st, tr, tc, vi, sa, ex = packed
        tot["evals"] += ev
        tot["transitions"] += tr
        tot["traces"] += tc
        states.update(st)
        violations.extend(vi)
        if len(samples) < 6:
            samples.extend(sa[: 6 - len(samples)])
        for k, v in ex.items():
            extra[k] = extra.get(k, 0) + v

    # for planting bugs in bulk: stop at the first new violation
    fast = [load_findings().get(mod.ID, {})] if os.environ.get("MC_FAILFAST") else None
    if workers == 1:
        for ch in chunks:
            for p in _work(ch):
                absorb(p)
    else:
        ctx = get_context("fork")
        # a worker that was ended from outside loses its chunk silently: bound the wait
        def wait():
            if tier == "quick":
                return max(1.0, 860 - (time.time() - t0))
            return (CASE_TIMEOUT or 600) * chunk + 120

        with ctx.Pool(workers, maxtasksperchild=getattr(mod, "RECYCLE", None)) as pool:
            it = pool.imap(_work, chunks)
            for ch in chunks:
                try:
                    packed = it.next(timeout=wait())
                except TimeoutError:
                    out = Out(ch[0])
                    out.fail("no-answer", "no answer within the time of the check, or the worker was ended")
                    packed = [_pack(out)]
                    absorb(packed[0])
                    break
                for p in packed:
                    absorb(p)
                if fast and any(v["key"] not in fast[0] for v in violations):
                    pool.terminate()
                    break
    if hasattr(mod, "finish"):
        out = Out({"finish": True})
        mod.finish(out, tier)
        absorb(_pack(out))

    # -- verdict -----------------------------------------------------------
    findings = load_findings().get(mod.ID, {})
    known, new = {}, []
    for v in violations:
        if v["key"] in findings:
            known.setdefault(v["key"], v)
        else:
            new.append(v)
    for key in sorted(known):
        print(f"KNOWN-FINDING: property={mod.ID} {findings[key]} [{key}]")

    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    shown = 0
    for v in new:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        path = os.path.join(rdir, f"{mod.ID}-{h([v['key'], v['case']])}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(
                {
                    "property": mod.ID,
                    "key": v["key"],
                    "message": v["message"],
                    "case": v["case"],
                    "replay_cmd": f"/verif/run.sh {mod.ID} --replay {path}",
                },
                f,
                indent=1,
                ensure_ascii=False,
            )
        if shown < 5:
            print(f"VIOLATION property={mod.ID} replay={path}")
            print(f"  [{v['key']}] {v['message'][:600]}")
            shown += 1

    cov = {
        "samples": samples or [cases[0]] if cases else samples,
        "exhaustive": True,
        "cases_enumerated": len(cases),
        "rule": mod.RULE,
    }
    if mod.LEVEL == "model_checking":
        cov.update(
            states=len(states),
            transitions=tot["transitions"],
            traces_validated_against_impl=tot["traces"],
            verdicts=tot["evals"],
        )
    else:
        cov.update(evaluations=tot["evals"], distinct_nontrivial=len(states))
    if extra:
        cov["counts"] = extra
    if getattr(mod, "BOUNDS", None):
        cov["bounds"] = mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) and tier in mod.BOUNDS else mod.BOUNDS
    ev = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, f"{mod.ID}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    print(
        f"{mod.ID} tier={tier} cases={len(cases)} states={len(states)} "
        f"transitions={tot['transitions']} traces={tot['traces']} verdicts={tot['evals']} "
        f"violations={len(new)} known={len(known)} wall={time.time() - t0:.1f}s"
    )
    return 1 if new else 0
