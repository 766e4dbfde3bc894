from .. import common, kinds, runner, sweeps
from ..asn import ARR, REF, STR, mem, module, seq
from ..engine import chunks
from . import c01

LEVEL = "model_checking"
_COMMON = ("all runs of equal members, all array and string lengths 1..24 and "
           "around powers of two, nesting depth 1..30, all widths 1..64 direct "
           "and as alias, every base type and POSIX name in every way of "
           "use as in C01, up to 300 members, packets of up to 3000 items, the naming schemes of C01, "
           "every kind alone in a "
           "module of its own under all name shapes")
FULL = [k for k in kinds.KINDS if k != "Rs"]
BOUNDS = {
    "quick": f"all packets of 1 and 2 members over {len(FULL)} member kinds, "
             f"of 3 over {len(kinds.CORE)} core kinds, " + _COMMON,
    "thorough": f"all packets of 1..3 members over {len(FULL)} member kinds, "
                f"of 4 over {len(kinds.CORE)} core kinds, " + _COMMON,
}
ASSUMPTIONS = ["SEQUENCE OF a SEQUENCE has no COSMOS counterpart (known "
               "finding of C05)"]
PER = 120


def cases(tier):
    st, tr = c01.space(tier)
    st = [w for w in st if "Rs" not in w]
    for g in chunks(st, PER):
        yield {"words": [list(w) for w in g],
               "_space": {"states": len(g), "transitions": tr}}
        tr = 0
    lens = [w for w in c01.lengths() if w[1] != ARR(w[1]["n"], REF("Whole"))]
    for g in chunks(lens, PER):
        yield {"words": g, "_space": {"states": len(g),
                                      "transitions": sum(map(len, g))}}
    for g in chunks(sweeps.words(tier, ("Rs",)), PER):
        yield {"words": g, "_space": {"states": len(g),
                                      "transitions": sum(map(len, g))}}
    yield {"widths": 64, "_space": {"states": 128, "transitions": 320}}
    for label, _, _ in sweeps.named():
        yield {"scheme": label, "_space": {"states": 6, "transitions": 6}}
    yield {"fanout": 9, "_space": {"states": 6, "transitions": 9000}}
    yield {"chain": 30, "_space": {"states": 30, "transitions": 30}}
    for i, k in enumerate(FULL):
        for nm in c01.NAMES if k in kinds.CORE else [c01.NAMES[i % 5]]:
            yield {"alone": k, "names": nm,
                   "_space": {"states": 1, "transitions": 1}}
    for place in sweeps.PLACES:
        yield {"grid": place, "_space": {"states": 430, "transitions": 1100}}


def run(case, r):
    if "scheme" in case:
        b, maps = c01.scheme(case)
        with runner.scratch() as wd:
            for mod, msgs in sweeps.messages(maps):
                common.check_cosmos(b, mod, msgs, r, wd, sub="out-" + mod)
        return
    if "words" in case:
        ss = [kinds.struct("S" + common.name_of(i), w)
              for i, w in enumerate(case["words"])]
        # definition order and message order differ
        bundle = [module("lay-out", ss[::-1] + list(kinds.HELPERS))]
        msgs = [s["name"] for s in ss]
    elif "grid" in case:
        bundle, msgs = sweeps.grid(case["grid"], seqs=False, strs=False)
    elif "fanout" in case:
        bundle, msgs = sweeps.fanout(case["fanout"])
    elif "widths" in case:
        bundle = sweeps.alias_widths()
        msgs = [d["name"] for d in bundle[0]["defs"] if d["k"] == "seq"]
    elif "chain" in case:
        defs = [seq("L0", [mem("a", kinds.U(8)), mem("b", kinds.U(3))])]
        for i in range(1, case["chain"] + 1):
            defs.append(seq(f"L{i}", [
                mem("p", kinds.U(5)), mem("in-ner", REF(f"L{i - 1}")),
                mem("q", kinds.S(16)), mem("r", kinds.BOOL)]))
        bundle = [module("chain", defs)]
        msgs = [d["name"] for d in defs]
    else:
        t, m, mo = case["names"]
        bundle = [module(mo, kinds.closure(
            [seq(t, [mem(m, kinds.typ(case["alone"]))])]))]
        msgs = [t]
    with runner.scratch() as wd:
        common.check_cosmos(bundle, bundle[0]["name"], msgs, r, wd,
                            notes=False)
