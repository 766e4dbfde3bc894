import itertools
import os
import shutil

from .. import engine, runner, sweeps
from ..asn import (BOOL, CMT, INT, REF, WC, alias, enum, imp, mem, module,
                   seq)
from ..model import cname, lower1
from .c01 import scheme

LEVEL = "model_checking"
BOUNDS = {
    "quick": "explicit-state model of the output folder (file -> producing "
             "run): all states reachable by up to 2 of 13 runs (4 commands, "
             "3 versions of a two-module bundle with other sizes, types and "
             ".bin files, one further bundle), every run from every state, "
             "the whole folder compared with the model after each; every "
             "artefact alone and all together replaced by 8 kinds of "
             "previous content with past, present and future file times; exact file sets for all bundles of 1..2 "
             "modules over 4 name shapes and 5 module contents, the naming schemes of C01, 7 COSMOS "
             "file names, 15 ways to give the folder (or none)",
    "thorough": "as quick, all states reachable by up to 3 runs, bundles of "
                "up to 3 modules",
}
ASSUMPTIONS = ["COSMOS file names without folder separators"]
GENS = ("cfs", "c", "binary", "cosmos")


# ---- documented file names --------------------------------------------------

def files(gen, bundle, target="tgt"):
    out = set()
    for m in bundle:
        n = cname(m["name"])
        if gen == "cfs":
            out |= {n + "_msg.h", n + "_msgids.h"}
        elif gen == "c":
            out |= {n + ".h", n + ".c"}
        elif gen == "binary":
            out.add(n + ".h")
            out |= {lower1(cname(d["name"])) + ".bin" for d in m["defs"]
                    if d["k"] == "seq" and any(x["wc"] for x in d["m"])}
    return {target + ".txt"} if gen == "cosmos" else out


# ---- the folder as a state machine ------------------------------------------

def bundle(v):
    part = [mem("a", INT(0, 255)), mem("c", INT(-5, 5))]
    if v == 1:      # longer
        part = part + [mem("d", INT(0, 65535), c=CMT("more " * 40)),
                       mem("e", BOOL)]
    fix = {0: ["Fix-a"], 1: [], 2: ["Fix-b", "Fix-c"], 3: ["Fix-a"]}[v]
    lib = module("lib", [seq("Part", part)]
                 + ([enum("Mode", ["on", "off"])] if v == 1 else []))
    top = module("top-mod", [
        seq("Msg", [mem("p", REF("Part")), mem("z", INT(0, 31))])],
        [imp(["Part"], "lib")])
    own = module("own", [
        seq("Item", [mem("a", INT(0, 255)), mem("c", INT(-5, 5))])]
        + [seq(f, [mem("p", REF("Item"), wc=WC(
            ("a", 9 * k + v), ("c", v)))]) for k, f in enumerate(fix)])
    if v == 3:
        return [own]
    return [lib, top, own] if v != 2 else [own, lib, top]


RUNS = [(g, v) for g in GENS for v in range(3)] + [("c", 3)]


def foreign():
    """names of files that no run owns, close to those it does"""
    own = set().union(*(files(g, bundle(v)) for g, v in RUNS))
    out = {"foreign.txt", "sub/foreign.txt", ".hidden", "part.bin", "msg.bin",
           "item.bin", "Fix-a.bin", "top-mod.h", "top-mod.c", "tgt",
           "Makefile", "lib", "own.asn", "fix_z.bin", "x.bin", "x.h", "x.c"}
    for f in own:
        stem, ext = f.rsplit(".", 1)
        out |= {f + "~", f + ".bak", f + ".tmp", f + ".orig", f"{f}.swp",
                f".{f}.swp", f".{f}", f"#{f}#", f.upper(), f"sub/{f}",
                f"x{f}", f"{stem}x.{ext}", f"{stem}_old.{ext}",
                f"{stem}_1.{ext}", f"{stem}.{ext}x", stem + ".lock"}
        out |= {f"{stem}.{e}" for e in ("o", "hpp", "cpp", "asn", "py", "xml",
                                        "bin", "h", "c", "txt", "log")}
    return sorted(out - own)


FOREIGN = foreign()


def kwargs(gen, v):
    if gen == "cosmos":
        return {"module": "top-mod", "messages": ["Msg"]} if v != 2 else {
            "module": "lib", "messages": ["Part"]}
    return {"endian": ("little", "big")[v % 2]} if gen == "binary" else {}


def step(state, run):
    """state: frozenset of (file, content label)"""
    d = dict(state)
    for f in files(run[0], bundle(run[1])):
        if run[0] == "cosmos":
            d[f] = d.get(f, ()) + (run,)
        else:
            d[f] = (run,)
    return frozenset(d.items())


def histories(depth):
    """shortest history of every reachable state, number of transitions"""
    hist = {frozenset(): ()}
    frontier = [frozenset()]
    trans = 0
    for _ in range(depth):
        nxt = []
        for s in frontier:
            for run in RUNS:
                t = step(s, run)
                trans += 1
                if t not in hist:
                    hist[t] = hist[s] + (run,)
                    nxt.append(t)
        frontier = nxt
    return list(hist.values()), trans


CONTENT = {
    "empty": lambda b: b"", "longer": lambda b: b + b + b"tail\n" * 3000,
    "shorter": lambda b: b[:len(b) // 2], "crlf": lambda b: b.replace(
        b"\n", b"\r\n"), "binary": lambda b: bytes(range(256)) * 9,
    "same-length": lambda b: b"#" * len(b), "same": lambda b: b,
    "last-byte": lambda b: b[:-1] + b"!",
}

TIMES = (None, 4000000000, 1)     # of previous artefacts: now, future, past

NAMES = ("a", "my-lib", "x9-b2-c", "lib-msg")
KINDS = ("plain", "fixed", "two-fixed", "alias-only", "enum-only")
TARGETS = ("tgt", "Upper", "with-dash", "a.b", "x.txt", "9", "name with blank")
FOLDERS = ("abs", "slash", "rel", "dot", "deep", "deeper", "exists",
           "cwd", "updown", "blank", "link", "unicode", "default", "equals",
           "last")


def content(kind, k):
    """a module's definitions; k makes names distinct"""
    u = "abc"[k]
    if kind == "alias-only":
        return [alias(f"Al-{u}", INT(0, 31))]
    if kind == "enum-only":
        return [enum(f"En-{u}", [f"e-{u}", f"f-{u}"])]
    defs = [seq(f"Item-{u}", [mem("v", INT(0, 255))])]
    if kind == "fixed":
        defs.append(seq(f"Fix-{u}", [mem("p", REF(f"Item-{u}"),
                                         wc=WC(("v", 3)))]))
    if kind == "two-fixed":
        defs += [seq(f"Fx-{u}-{x}", [mem("p", REF(f"Item-{u}"),
                                         wc=WC(("v", 3)))]) for x in "ab"]
        defs.append(seq(f"No-{u}", [mem("p", REF(f"Item-{u}"))]))
    return defs


def shapes(tier):
    n = 3 if tier == "quick" else 4
    for k in range(1, n):
        for names in itertools.permutations(NAMES, k):
            for kinds in itertools.product(KINDS, repeat=k):
                yield [list(names), list(kinds)]


def cases(tier):
    hs, trans = histories(2 if tier == "quick" else 3)
    for i, h in enumerate(hs):
        yield {"hist": [list(x) for x in h],
               "_space": {"states": 1, "transitions": len(RUNS)}}
    for g, v in RUNS:
        if g != "cosmos":
            yield {"content": g, "v": v,
                   "_space": {"states": len(CONTENT), "transitions":
                              len(CONTENT) * 4}}
    for c in engine.chunks(shapes(tier), 30):
        yield {"shapes": c, "_space": {"states": len(c),
                                       "transitions": 4 * len(c)}}
    for label, _, _ in sweeps.named():
        yield {"scheme": label, "_space": {"states": 4, "transitions": 4}}
    for g in GENS:
        yield {"folders": g, "_space": {"states": len(FOLDERS),
                                        "transitions": len(FOLDERS)}}
    yield {"targets": 1, "_space": {"states": len(TARGETS) + 1,
                                    "transitions": len(TARGETS) + 1}}


# ---- running ----------------------------------------------------------------

def go(gen, b, ind, out, cwd, **kw):
    paths = runner.write_inputs(ind, b)
    return runner.run_cli(runner.argv_for(gen, b, paths, out, **kw), cwd)


def check_tree(r, what, got, want):
    got = got or {}
    got = {k: v for k, v in got.items() if v is not None}
    miss = sorted(set(want) - set(got))
    more = sorted(set(got) - set(want))
    diff = sorted(f for f in set(want) & set(got)
                  if want[f] is not True and got[f] != want[f])
    r.n["validated"] += 1
    if miss or more or diff:
        r.bad(f"{what}: missing {miss}, unexpected {more}, different {diff}")


class Refs:
    """artefacts of runs into an empty folder"""

    def __init__(self, wd):
        self.wd = wd
        self.have = {}

    def get(self, run):
        if run not in self.have:
            g, v = run
            out = f"{self.wd}/ref-{g}-{v}"
            rc, text = go(g, bundle(v), f"{self.wd}/in-{g}-{v}", out,
                          self.wd, **kwargs(g, v))
            if rc != 0:
                raise RuntimeError(f"generate-{g} fails: {text[-300:]}")
            self.have[run] = runner.read_tree(out)
        return self.have[run]


def predict(refs, state):
    out = {}
    for f, runs in state:
        out[f] = b"".join(refs.get(x)[f] for x in runs)
    return out


def run(case, r):
    with runner.scratch() as wd:
        if "hist" in case:
            return machine(case, r, wd)
        if "content" in case:
            return contents(case, r, wd)
        if "shapes" in case:
            return shape_sets(case, r, wd)
        if "scheme" in case:
            return renamed(case, r, wd)
        if "folders" in case:
            return folders(case, r, wd)
        return targets(case, r, wd)


def machine(case, r, wd):
    refs = Refs(wd)
    state = frozenset()
    base = wd + "/state"
    hist = [tuple(x) for x in case["hist"]]
    for x in hist:
        rc, text = go(x[0], bundle(x[1]), f"{wd}/in-{x[0]}-{x[1]}", base,
                      wd, **kwargs(*x))
        r.n["cli_runs"] += 1
        state = step(state, x)
        if rc != 0:
            r.bad(f"runs {hist}: {x} exits {rc}: {text[-200:]}")
            return
    if hist:
        check_tree(r, f"after {hist}", runner.read_tree(base),
                   predict(refs, state))
    for x in RUNS:
        out = wd + "/next"
        shutil.rmtree(out, ignore_errors=True)
        if hist:
            shutil.copytree(base, out)
            t = TIMES[RUNS.index(x) % 3]
            for f in os.listdir(out) if t else ():
                os.utime(f"{out}/{f}", (t, t))
            os.makedirs(out + "/sub")
            for n in FOREIGN:
                with open(f"{out}/{n}", "w") as f:
                    f.write("not mine")
                if t:
                    os.utime(f"{out}/{n}", (t, t))
        rc, text = go(x[0], bundle(x[1]), f"{wd}/in-{x[0]}-{x[1]}", out,
                      wd, **kwargs(*x))
        r.n["cli_runs"] += 1
        if rc != 0:
            r.bad(f"runs {hist + [x]}: last exits {rc}: {text[-200:]}")
            continue
        want = predict(refs, step(state, x))
        if set(refs.get(x)) != files(x[0], bundle(x[1])):
            r.bad(f"generate-{x[0]} wrote {sorted(refs.get(x))}, expected "
                  f"{sorted(files(x[0], bundle(x[1])))}")
        if hist:
            for n in FOREIGN:
                try:
                    with open(f"{out}/{n}") as f:
                        ok = f.read() == "not mine"
                except OSError:
                    ok = False
                if not ok:
                    r.bad(f"{x} removed or changed {n}, not its own")
                else:
                    os.remove(f"{out}/{n}")
            if not os.path.isdir(out + "/sub"):
                r.bad(f"{x} removed a folder")
        check_tree(r, f"after {hist + [x]}", runner.read_tree(out), want)
        r.outcome(sorted(step(state, x)))


def contents(case, r, wd):
    refs = Refs(wd)
    x = (case["content"], case["v"])
    good = refs.get(x)
    for kind, make in CONTENT.items():
        for which, t in itertools.product(
                [[f] for f in sorted(good)] + [sorted(good)], TIMES):
            out = wd + "/out"
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            for f in which:
                with open(os.path.join(out, f), "wb") as h:
                    h.write(make(good[f]))
                if t:
                    os.utime(os.path.join(out, f), (t, t))
            rc, text = go(x[0], bundle(x[1]), f"{wd}/in-{x[0]}-{x[1]}", out,
                          wd, **kwargs(*x))
            r.n["cli_runs"] += 1
            if rc != 0:
                r.bad(f"generate-{x[0]} over {kind} {which} exits {rc}: "
                      + text[-200:])
                continue
            check_tree(r, f"generate-{x[0]} over {kind} {which}",
                       runner.read_tree(out), good)
            r.outcome(x, kind, which)


def shape_sets(case, r, wd):
    for i, (names, kinds) in enumerate(case["shapes"]):
        b = [module(n, content(k, j))
             for j, (n, k) in enumerate(zip(names, kinds))]
        for g in GENS:
            kw = {"endian": "big"} if g == "binary" else {}
            if g == "cosmos":
                have = [(m["name"], d["name"]) for m in b for d in m["defs"]
                        if d["k"] == "seq"]
                if not have:
                    continue
                kw = {"module": have[0][0], "messages": [have[0][1]]}
            out = f"{wd}/o{i}{g}"
            rc, text = go(g, b, f"{wd}/i{i}", out, wd, **kw)
            r.n["cli_runs"] += 1
            if rc != 0:
                r.bad(f"generate-{g} of {names} {kinds} exits {rc}: "
                      + text[-200:])
                continue
            check_tree(r, f"generate-{g} of {names} {kinds}",
                       runner.read_tree(out),
                       {f: True for f in files(g, b)})
            r.outcome(g, names, kinds)


def renamed(case, r, wd):
    for g in GENS:
        b, maps = scheme(case, sweeps.binary_bundle if g == "binary"
                         else sweeps.bundle)
        kw = {"endian": "big"} if g == "binary" else {}
        if g == "cosmos":
            mod, ms = sweeps.messages(maps)[1]
            kw = {"module": mod, "messages": ms}
        rc, text = go(g, b, f"{wd}/i{g}", f"{wd}/o{g}", wd, **kw)
        r.n["cli_runs"] += 1
        if rc != 0:
            r.bad(f"generate-{g} under names {case['scheme']} exits {rc}: "
                  + text[-200:])
            continue
        check_tree(r, f"generate-{g} under names {case['scheme']}",
                   runner.read_tree(f"{wd}/o{g}"),
                   {f: True for f in files(g, b)})
        r.outcome(g, case["scheme"])


def folders(case, r, wd):
    g = case["folders"]
    x = (g, 0)
    good = Refs(wd).get(x)
    for how in FOLDERS:
        top = f"{wd}/f-{how}"
        cwd = top + "/cwd"
        os.makedirs(cwd)
        out = {"abs": top + "/o", "slash": top + "/o/", "rel": "o",
               "dot": "./o", "deep": top + "/p/q/o",
               "deeper": "p/q/r/s/o", "exists": top + "/o", "cwd": ".",
               "updown": "../x/../cwd/o", "blank": top + "/a b/o o",
               "link": top + "/lnk/o", "unicode": top + "/\u00e9/o",
               "default": "output/" + g, "equals": top + "/=o",
               "last": top + "/o"}[how]
        if how == "exists":
            os.makedirs(out)
        if how == "updown":
            os.makedirs(top + "/x")
        if how == "link":
            os.makedirs(top + "/real")
            os.symlink(top + "/real", top + "/lnk")
        paths = runner.write_inputs(f"{wd}/in", bundle(0))
        a = runner.argv_for(g, bundle(0), paths, out, **kwargs(*x))
        k = a.index("--output-dir")
        if how == "default":
            del a[k:k + 2]
        elif how == "equals":
            a[k:k + 2] = ["--output-dir=" + out]
        elif how == "last":
            a = a[:1] + paths + a[1:k + 2]
        rc, text = runner.run_cli(a, cwd)
        r.n["cli_runs"] += 1
        if rc != 0:
            r.bad(f"generate-{g} into {how} folder exits {rc}: "
                  + text[-200:])
            continue
        p = os.path.normpath(os.path.join(cwd, out))
        check_tree(r, f"generate-{g} into {how} folder",
                   runner.read_tree(p) if os.path.isdir(p) else None, good)
        # nothing anywhere else
        for d, _, fs in os.walk(top):
            if fs and os.path.realpath(d) != os.path.realpath(p):
                r.bad(f"generate-{g} into {how} folder wrote {fs} to {d}")
        r.outcome(g, how)


def targets(case, r, wd):
    x = ("cosmos", 0)
    good = Refs(wd).get(x)["tgt.txt"].decode()
    for k, t in enumerate(TARGETS):
        out = f"{wd}/t{k}"
        rc, text = go("cosmos", bundle(0), f"{wd}/in", out, wd, target=t,
                      **kwargs(*x))
        r.n["cli_runs"] += 1
        if rc != 0:
            r.bad(f"generate-cosmos with name {t!r} exits {rc}: "
                  + text[-200:])
            continue
        tree = runner.read_tree(out)
        check_tree(r, f"generate-cosmos with name {t!r}", tree,
                   {t + ".txt": True})
        got = tree.get(t + ".txt", b"").decode()
        if len(got) - len(good) not in (0, len(t) - 3):
            r.bad(f"generate-cosmos with name {t!r}: other content")
        r.outcome("target", t)
    # two names in one folder do not mix
    out = wd + "/both"
    for t in ("tgt", "tgt2", "tgt"):
        go("cosmos", bundle(0), f"{wd}/in", out, wd, target=t, **kwargs(*x))
    tree = runner.read_tree(out)
    check_tree(r, "two COSMOS files", tree,
               {"tgt.txt": (good + good).encode(), "tgt2.txt": True})
