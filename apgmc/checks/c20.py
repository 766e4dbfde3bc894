import itertools

from .. import common, kinds, runner, sweeps, trees
from ..asn import BOOL, INT, REF, WC, N, mem, module, seq
from ..engine import chunks
from .c01 import scheme

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all trees of fixed components (subsets, orders, values) over a "
             "three level family of types, nesting of up to 40 levels, lists of up to 200 components, up to 80 specified members, up to 300 messages whose levels share member names, "
             "one to three specified members of the same or other types per message, types in the same or another module, other members of "
             "the same types unspecified; many values of every kind (all next to powers of two and of ten, all APIDs, 190 decimal notations), names that extend each other, the naming schemes of C01; every value kind with all boundary "
             "values; all splits of a specification between the message and "
             "the nested type's own member, and between all subsets of three "
             "nested levels per component (also repeated at several levels); "
             "many messages per run and each "
             "of the first 60 alone",
    "thorough": "as quick, with all orders of the outer level",
}
ASSUMPTIONS = ["a component that is fixed at several levels has the same value "
               "at all of them"]
PER = 80

MEMS = ["x", "y", "application-process-identifier"]
VALS = {"x": 7, "y": True, "application-process-identifier": 300}


def splits():
    """each leaf member: not fixed, fixed at the inner member, fixed outside"""
    for how in itertools.product("-io", repeat=3):
        inner = [[m, VALS[m]] for m, h in zip(MEMS, how) if h == "i"]
        outer = [[m, VALS[m]] for m, h in zip(MEMS, how) if h == "o"]
        yield inner or None, outer or None


def levels(n):
    """each leaf member: fixed at any subset of the three levels"""
    sets = list(itertools.product((0, 1), repeat=3))
    for how in itertools.product(sets, repeat=n):
        yield [[[m, VALS[m]] for m, h in zip(MEMS, how) if h[lv]] or None
               for lv in range(3)]


def cases(tier):
    defs, specs = trees.trees(tier, True)
    for g in chunks(specs, PER):
        for place in trees.PLACES:
            yield {"types": defs, "msgs": g, "place": place,
                   "_space": {"states": len(g),
                              "transitions": sum(trees.count(wc) for s in g
                                                 for *_, wc in s if wc)}}
    for s in specs[:60]:
        yield {"types": defs, "msgs": [s],
               "_space": {"states": 1, "transitions": 1}}
    yield from trees.value_cases(kinds.HELPERS)
    yield from trees.big_cases(True)
    yield from trees.named_cases(tier, True)
    sp = list(splits())
    yield {"splits": sp, "rev": False,
           "_space": {"states": len(sp), "transitions": 3 * len(sp)}}
    yield {"splits": sp, "rev": True,
           "_space": {"states": len(sp), "transitions": 3 * len(sp)}}
    for g in chunks(list(levels(2 if tier == "quick" else 3)), 32):
        yield {"levels": g,
               "_space": {"states": len(g), "transitions": 3 * len(g)}}


def run(case, r):
    if "scheme" in case:
        b, maps = scheme(case)
        for mod, msgs in sweeps.messages(maps):
            with runner.scratch() as wd:
                common.check_cosmos(b, mod, msgs, r, wd, notes=False)
        return
    if "levels" in case:
        defs = [seq("Leaf", [mem(m, BOOL if m == "y" else INT(0, 2047))
                             for m in MEMS])]
        ss = []
        for i, (lo, mi, hi) in enumerate(case["levels"]):
            n = common.name_of(i)
            defs.append(seq("Low" + n, [mem("leaf", REF("Leaf"), wc=lo),
                                        mem("rest", REF("Leaf"))]))
            ss.append(seq("Mid" + n, [
                mem("low", REF("Low" + n),
                    wc=[["leaf", {"wc": mi}]] if mi else None),
                mem("x", INT(0, 3))]))
            ss.append(seq("Top" + n, [
                mem("plain", REF("Mid" + n)),
                mem("mid", REF("Mid" + n),
                    wc=[["low", {"wc": [["leaf", {"wc": hi}]]}]]
                    if hi else None)]))
    elif "splits" in case:
        defs = [seq("Leaf", [mem("x", INT(0, 255)), mem("y", BOOL),
                             mem("application-process-identifier",
                                 INT(0, 2047))])]
        ss = []
        for i, (inner, outer) in enumerate(case["splits"]):
            n = common.name_of(i)
            defs.append(seq("Mid" + n, [mem("x", INT(0, 15)),
                                        mem("leaf-a", REF("Leaf"), wc=inner),
                                        mem("leaf-b", REF("Leaf"))]))
            ss.append(seq("Msg" + n, [
                mem("other", REF("Mid" + n)),
                mem("mid", REF("Mid" + n), wc=[["leaf-a", {"wc": outer}]]
                    if outer else None),
                mem("x", INT(0, 3))]))
        if case["rev"]:
            defs, ss = defs[::-1], ss[::-1]
    else:
        defs = case["types"]
        ss = [trees.message("Msg-" + common.name_of(i), s)
              for i, s in enumerate(case["msgs"])]
    with runner.scratch() as wd:
        common.check_cosmos(trees.place("ids", defs, ss, case.get("place")), "ids",
                            [s["name"] for s in ss], r, wd, notes=False)
