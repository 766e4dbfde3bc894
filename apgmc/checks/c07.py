import os
import subprocess

from .. import common, cprobe, kinds, model, runner, trees
from ..asn import INT, N, mem, seq
from ..engine import chunks
from .c01 import scheme
from .c05 import HDR

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all trees of fixed components (subsets, orders, values) over a "
             "three level family of types, nesting of up to 40 levels, lists of up to 200 components, up to 80 specified members, up to 300 messages, one to three specified members of the same or other types per "
             "message; many values of every kind (all next to powers of two and of ten, all APIDs, 190 decimal notations), names that extend each other, the naming schemes of C01; every value kind with all boundary values; fixed "
             "values beside a CCSDS primary header; every message also alone",
    "thorough": "as quick, with all orders of the outer level",
}
ASSUMPTIONS = ["the user of a msgids header includes stdbool.h (it does not "
               "include it itself)",
               "components of one message have distinct names"]
PER = 60

def cases(tier):
    defs, specs = trees.trees(tier, False)
    # two members of the same type in one message define equal names: keep
    # those whose component names are distinct
    specs = [s for s in specs if trees.distinct(s)]
    for g in chunks(specs, PER):
        for place in trees.PLACES:
            yield {"types": defs, "msgs": g, "place": place,
                   "_space": {"states": len(g),
                              "transitions": sum(trees.count(wc) for s in g
                                                 for *_, wc in s if wc)}}
    for s in specs[:60]:
        yield {"types": defs, "msgs": [s],
               "_space": {"states": 1, "transitions": 1}}
    yield from trees.value_cases(kinds.HELPERS)
    yield from trees.big_cases(False)
    yield from trees.named_cases(tier, False, trees.distinct)
    beside = [
        [["sec", 7], ["primary", N(("packet-identification", N(
            ("application-process-identifier", 5))))]],
        [["primary", N(("packet-identification", N(
            ("application-process-identifier", 5))))], ["sec", 7]],
        [["sec", 7]],
    ]
    yield {"types": HDR + [seq("Pay", [mem("code", INT(0, 99))])],
           "msgs": [[("hdr", "Header", w)] for w in beside]
           + [[("hdr", "Header", w), ("pay", "Pay", [["code", 42]])]
              for w in beside]
           + [[("pay", "Pay", [["code", 42]]), ("hdr", "Header", w)]
              for w in beside],
           "_space": {"states": 9, "transitions": 18}}


def run(case, r):
    if "scheme" in case:
        bundle = scheme(case)[0]
        mods = [(m["name"], [d for d in m["defs"] if d["k"] == "seq"])
                for m in bundle]
    else:
        ss = [trees.message("Msg-" + common.name_of(i), s)
              for i, s in enumerate(case["msgs"])]
        bundle = trees.place("defs", case["types"], ss, case.get("place"))
        mods = [("defs", ss)]
    with runner.scratch() as wd:
        res = runner.generate("cfs", bundle, wd)
        r.n["cli_runs"] += 1
        if not res.ok:
            r.bad(f"generate-cfs failed: {res.why()}")
            return
        for mod, ss in mods:
            judge(model.cname(mod) + "_msgids.h", ss, wd, r)


def judge(name, ss, wd, r):
    want = {}
    for s in ss:
        want.update(model.cfs_defines(s))
    got = macros(os.path.join(wd, "out", name), wd)
    if isinstance(got, str):
        r.bad(got)
        return
    got -= {g for g in got if g.endswith("_INCLUDED")}
    if got != set(want):
        r.bad(f"macros missing {sorted(set(want) - got)[:9]}, "
              f"unexpected {sorted(got - set(want))[:9]}")
        return
    src = (f'#include <stdbool.h>\n#include "{name}"\n'
           "#include <stdio.h>\nint main(void){\n")
    for n, v in want.items():
        src += f'printf("{n} %d\\n", {same(n, v)});\n'
    ok, out = cprobe.compile_run(src + "return 0;}\n", wd, [wd + "/out"])
    if not ok:
        r.bad(out)
        return
    for line in out.splitlines():
        n, okay = line.split()
        if okay != "1":
            r.bad(f"{n} is not {want[n]!r}")
    r.n["validated"] += len(ss)
    r.n["macros"] += len(want)
    r.outcome(sorted((n, str(v)) for n, v in want.items()))


def same(n, v):
    if isinstance(v, bool):
        return f"(_Bool)({n}) == {int(v)} && ({n}) < 2"
    if isinstance(v, float):
        return f"({n}) == {v!r}"
    if v > 2**63 - 1:
        return f"(unsigned long long)({n}) == {v}ULL"
    return f"(__int128)({n}) == (__int128){cprobe.lit(v)}"


def macros(path, wd):
    base = subprocess.run(["gcc", "-dM", "-E", "-x", "c", "/dev/null"],
                          stdout=subprocess.PIPE).stdout.decode()
    x = subprocess.run(["gcc", "-dM", "-E", "-x", "c", path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = x.stdout.decode()
    if x.returncode:
        return "gcc: " + out[:200]
    if "warning" in out:
        return "gcc: " + [l for l in out.splitlines() if "warning" in l][0]
    have = {l.split()[1] for l in out.splitlines() if l.startswith("#define")}
    return have - {l.split()[1] for l in base.splitlines()}
