"""Exploration engine: enumerates a bounded space of cases, runs each one on
the real code in a pool of workers, confirms every alarm in a fresh process,
writes evidence and replay files."""
import collections
import concurrent.futures as cf
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

from . import runner

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
BUDGET = {"quick": 600, "thorough": 6 * 3600}
MAX_REPORT = 5


# ---- state space helpers ----------------------------------------------------

class Space:
    """Breadth first enumeration of a finite transition system.

    `succ(state)` yields the successor states; states are hashable.  All
    states within `depth` transitions of an initial state are enumerated
    once; `transitions` counts every edge looked at."""

    def __init__(self, init, succ, depth):
        self.states = []
        self.transitions = 0
        seen = set()
        frontier = []
        for s in init:
            if s not in seen:
                seen.add(s)
                frontier.append(s)
        self.states += frontier
        for _ in range(depth):
            nxt = []
            for s in frontier:
                for t in succ(s):
                    self.transitions += 1
                    if t not in seen:
                        seen.add(t)
                        nxt.append(t)
            self.states += nxt
            frontier = nxt
            if not frontier:
                break


def words(alphabet, depth, minlen=0):
    """Space of all words over alphabet up to length depth"""
    sp = Space([()], lambda w: (w + (a,) for a in alphabet), depth)
    sp.states = [s for s in sp.states if len(s) >= minlen]
    return sp


def chunks(seq, n):
    it = iter(seq)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


# ---- running ----------------------------------------------------------------

def load(pid):
    return importlib.import_module("apgmc.checks." + pid.lower())


class R:
    """Result of one case."""

    def __init__(self):
        self.problems = []
        self.n = collections.Counter()
        self.outcomes = set()

    def bad(self, msg):
        self.problems.append(msg)

    def outcome(self, *what):
        self.outcomes.add(hashlib.sha1(repr(what).encode()).hexdigest()[:16])


def run_case(pid, case):
    r = R()
    try:
        load(pid).run(case, r)
    except runner.Hang as x:
        r.bad(str(x) or "hang in the harness")
    except Exception:
        r.bad("output could not be judged: "
              + traceback.format_exc().strip()[-500:].replace("\n", " | "))
    return r.problems, dict(r.n), r.outcomes


def _work(arg):
    pid, case = arg
    return run_case(pid, case)


def confirm(pid, case):
    """Run the case again with one fresh interpreter per command line."""
    runner.FRESH = True
    try:
        return run_case(pid, case)[0]
    finally:
        runner.FRESH = False


def results(pid, cases, deadline):
    """yields (case, problems, counters, outcomes); stops at the deadline"""
    ctx = multiprocessing.get_context("fork")
    nproc = max(1, len(os.sched_getaffinity(0)))
    it = iter(cases)
    done = set()
    pending = {}
    try:
        with cf.ProcessPoolExecutor(nproc, mp_context=ctx) as ex:
            def fill():
                while len(pending) < 2 * nproc and time.time() < deadline:
                    try:
                        c = next(it)
                    except StopIteration:
                        return
                    pending[ex.submit(_work, (pid, c))] = c
            fill()
            try:
                while pending:
                    fin, _ = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
                    for f in fin:
                        res = f.result()
                        c = pending.pop(f)
                        yield (c,) + res
                    fill()
            except GeneratorExit:
                # enough violations: do not wait for the rest
                for p in list(ex._processes.values()):
                    p.kill()
                raise
    except cf.process.BrokenProcessPool:
        # the code under test ended a worker: go on, one process per run
        todo = list(pending.values())
        pending.clear()
        runner.FRESH = True
        try:
            for c in itertools.chain(todo, it):
                if time.time() >= deadline:
                    return
                yield (c,) + run_case(pid, c)
        finally:
            runner.FRESH = False


def known_for(pid):
    if not os.path.exists(KNOWN):
        return {}
    with open(KNOWN) as f:
        data = json.load(f)
    return {e["key"]: e for e in data["known"] if e["property"] == pid}


def write_replay(pid, i, case, problems):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{i}.json")
    with open(p, "w") as f:
        json.dump({"property": pid, "case": case, "problems": problems[:50],
                   "how": f"/opt/venv/bin/python -B {VERIF}/check.py "
                          f"--replay {p}"}, f, indent=1)
    return p


def short(case, limit=1500):
    s = json.dumps(case)
    return case if len(s) <= limit else s[:limit] + " ..."


def check(pid, tier):
    # one folder for all scratch folders, also those of killed workers
    old = tempfile.tempdir
    tempfile.tempdir = tempfile.mkdtemp(prefix="apgmc-")
    try:
        return _check(pid, tier)
    finally:
        shutil.rmtree(tempfile.tempdir, ignore_errors=True)
        tempfile.tempdir = old


def _check(pid, tier):
    t0 = time.time()
    mod = load(pid)
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    known = known_for(pid)
    n = collections.Counter()
    outcomes = set()
    samples = []
    violations = []
    unconfirmed = 0
    told = set()
    space = collections.Counter()
    deadline = t0 + BUDGET[tier]

    def all_cases():
        for c in mod.cases(tier):
            sp = c.pop("_space", None)
            if sp:
                space.update(sp)
            n["cases_enumerated"] += 1
            yield c

    complete = True
    gen = all_cases()
    res = results(pid, gen, deadline)
    for case, problems, cnt, outs in res:
        space["states"] += cnt.pop("dyn_states", 0)
        space["transitions"] += cnt.pop("dyn_transitions", 0)
        n.update(cnt)
        n["cases_run"] += 1
        outcomes |= outs
        if len(samples) < 3 and n["cases_run"] % 7 == 1:
            samples.append(short(case))
        if not problems:
            continue
        key = case.get("finding")
        e = known.get(key) if key else None
        if e is not None and all(re.search(e["expect"], p) for p in problems):
            if key not in told:
                print(f"KNOWN-FINDING: property={pid} {e['what']}", flush=True)
            told.add(key)
            n["known_findings"] += 1
            continue
        again = confirm(pid, case)
        if not again:
            unconfirmed += 1
            print(f"note: not confirmed in a fresh process: {problems[0]}")
            continue
        p = write_replay(pid, len(violations), case, again)
        if not violations:
            first = time.time()
        violations.append(p)
        print(f"VIOLATION property={pid} replay={p}", flush=True)
        for msg in again[:4]:
            print("    " + msg[:400])
        sys.stdout.flush()
        if len(violations) >= MAX_REPORT or time.time() > first + 20:
            break
    res.close()
    try:
        next(gen)
        complete = False
    except StopIteration:
        pass
    if time.time() >= deadline:
        complete = False
    cov = {
        "states": space["states"],
        "transitions": space["transitions"],
        "traces_validated_against_impl": n["validated"],
        "distinct_outcomes": len(outcomes),
        "bounds": mod.BOUNDS[tier],
        "exhaustive": complete and not violations,
        "samples": samples,
        "counters": dict(n),
        "not_confirmed": unconfirmed,
    }
    if mod.LEVEL in ("fault_enumeration", "exploration"):
        cov["evaluations"] = n["validated"]
        cov["distinct_nontrivial"] = len(outcomes)
        cov["rule"] = mod.BOUNDS[tier]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
          "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": mod.ASSUMPTIONS, "violations": len(violations)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: {space['states']} states, {space['transitions']} "
          f"transitions, {n['validated']} traces validated, "
          f"{len(outcomes)} distinct outcomes, {len(violations)} violations, "
          f"{ev['wall_s']} s" + ("" if complete else " (stopped early)"))
    return 1 if violations else 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    probs = confirm(d["property"], d["case"])
    for p in probs:
        print("    " + p[:1000])
    if probs:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("no violation")
    return 0
