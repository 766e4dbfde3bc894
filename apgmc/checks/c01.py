import itertools

from .. import common, kinds, runner, sweeps
from ..asn import ARR, CMT, REF, STR, choice, imp, mem, module, seq
from ..engine import chunks, words

LEVEL = "model_checking"
_COMMON = (
    "all runs of equal bitfields up to 40, every bit offset 0..8 before every "
    "kind, all array and string lengths 1..24 and around powers of two, "
    "nesting depth 1..30, all widths 1..64 direct and as alias, up to 300 "
    "members, 59 naming schemes (lengths 1..128, names extending each other, "
    "names like keywords, built-in types or CCSDS fields) of a bundle with "
    "every construct, every base type and POSIX name in every way of use "
    "(direct, alias, arrays of one to three dimensions) with types of the same "
    "and of another module, every kind alone in a self-contained module, plain, "
    "commented, repeated and imported, under all name shapes; CHOICEs of every kind, of pairs and triples of kinds and "
    "of up to 100 alternatives, with comments, alone and in SEQUENCEs, arrays, "
    "CHOICEs and other modules; generate-cfs, generate-c, generate-binary")
BOUNDS = {
    "quick": "all structs of 1 and 2 members over the full alphabet of "
             f"{len(kinds.KINDS)} member kinds, all of 3 members over the "
             f"{len(kinds.CORE)} core kinds, " + _COMMON,
    "thorough": "all structs of 1..3 members over the full alphabet of "
                f"{len(kinds.KINDS)} member kinds, all of 4 members over the "
                f"{len(kinds.CORE)} core kinds, " + _COMMON,
}
ASSUMPTIONS = [common.A_TRUST, common.A_NAMES]
PER = 120
GENS = ("cfs", "c", "binary")
LENS = list(range(1, 25)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256,
                             257, 1000]


def space(tier):
    """states: member words; a transition appends one member"""
    full, core = list(kinds.KINDS), kinds.CORE
    if tier == "quick":
        a, b = words(full, 2, 1), words(core, 3, 3)
    else:
        a, b = words(full, 3, 1), words(core, 4, 4)
    seen = set(a.states)
    st = list(a.states) + [w for w in b.states if w not in seen]
    n = a.transitions + b.transitions
    extra = set()
    for k in ("bool", "u3", "u7", "u9", "u33", "u63", "e3", "abool", "a5"):
        for ln in (4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 40):
            extra.add((k,) * ln)
    for k in full:
        for off in range(1, 9):
            extra.add(("bool",) * off + (k, "bool"))
    st += sorted(extra - set(st))
    return st, n + sum(len(w) for w in extra)


def scheme(case, what=sweeps.bundle):
    return next((b, m) for s, b, m in sweeps.named(what)
                if s == case["scheme"])


def lengths():
    for ln in LENS:
        yield ["u8", STR(ln), STR(ln, "NumericString"), "u3"]
        for k in ("Uint8-t", "Five", "Three", "Small-int", "Percent", "Name",
                  "Whole", "Wide", "Flag"):
            yield ["bool", ARR(ln, REF(k)), "u3"]


NAMES = [("A", "a", "m"), ("Ab-c", "b-c", "mo-du"), ("A1", "a1", "m1"),
         ("Ab1-2-c3d", "x1-2-y3", "m1-2-x"), ("Foo-bar-t", "foo", "foo-bar")]


def cases(tier):
    st, tr = space(tier)
    first = True
    for group in chunks(st, PER):
        for kind in GENS:
            yield {"kind": kind, "words": [list(w) for w in group],
                   "_space": {"states": len(group) if kind == "cfs" else 0,
                              "transitions": tr if first else 0}}
            first = False
    for group in chunks(lengths(), PER):
        for kind in GENS:
            yield {"kind": kind, "words": group,
                   "_space": {"states": len(group) if kind == "cfs" else 0,
                              "transitions": sum(map(len, group))}}
    for group in chunks(sweeps.words(tier), PER):
        for kind in GENS:
            yield {"kind": kind, "words": group,
                   "_space": {"states": len(group) if kind == "cfs" else 0,
                              "transitions": sum(map(len, group))}}
    for kind in GENS:
        yield {"kind": kind, "widths": 64,
               "_space": {"states": 128, "transitions": 320}}
    for label, _, _ in sweeps.named():
        yield {"scheme": label, "_space": {"states": 3, "transitions": 3}}
    for kind in GENS:
        yield {"kind": kind, "fanout": 6, "_space": {"states": 6,
                                                     "transitions": 900}}
        yield {"kind": kind, "chain": 30, "_space": {"states": 30,
                                                     "transitions": 30}}
    # each kind alone: the header has to bring everything it needs itself
    for i, k in enumerate(kinds.KINDS):
        for kind in GENS:
            yield {"kind": kind, "alone": k, "names": NAMES[i % len(NAMES)],
                   "_space": {"states": 1, "transitions": 1}}
            for how in ("comment", "twice", "mixed", "imported"):
                yield {"kind": kind, "alone": k, "how": how,
                       "names": NAMES[(i + 3) % len(NAMES)],
                       "_space": {"states": 1, "transitions": 1}}
    for nm in NAMES:
        for k in ("bool", "u8", "e3", "sd", "Rs"):
            for kind in GENS:
                yield {"kind": kind, "alone": k, "names": nm,
                       "_space": {"states": 1, "transitions": 1}}
    for kind in GENS:
        for place in sweeps.PLACES:
            yield {"kind": kind, "grid": place,
                   "_space": {"states": 500 if kind == "cfs" else 0,
                              "transitions": 1250 if kind == "cfs" else 0}}
    full, core = list(kinds.KINDS), kinds.CORE
    us = [[k] for k in full] + [list(w) for w in itertools.product(
        full, core if tier == "quick" else full)] + [
        list(w) for w in itertools.product(core, repeat=3)
        if tier == "thorough" or len(set(w)) == 3] + [
        w[i:] + w[:i] for n in (10, 40, 100) for i in (0, n // 2)
        for w in [[full[(j * 7) % len(full)] for j in range(n)]]]
    for i, group in enumerate(chunks(us, PER)):
        for kind in GENS:
            yield {"kind": kind, "unions": group, "rot": i,
                   "_space": {"states": len(group) if kind == "cfs" else 0,
                              "transitions": sum(map(len, group))
                              if kind == "cfs" else 0}}


def unions(ws, rot):
    """a CHOICE per word, and SEQUENCEs and CHOICEs that use them"""
    ps, us = [], []
    for i, w in enumerate(ws):
        c = kinds.struct("P" + common.name_of(i), w)
        p = choice(c["name"], c["m"], CMT(f"choice {i}") if i % 3 else None)
        for k, m in enumerate(p["m"]):
            m["c"] = (None, CMT(f"text {k}"), CMT(None, "m"),
                      CMT("both", "km"))[(i + k) % 4]
        ps.append(p)
        if i % 3:
            us.append(seq("Q" + common.name_of(i), [
                mem("a", kinds.U(3)), mem("b", REF(p["name"])),
                mem("c", ARR(2, REF(p["name"]))), mem("d", kinds.U(5))]))
        else:
            us.append(choice("Q" + common.name_of(i), [
                mem("a", kinds.U(3)), mem("b", REF(p["name"])),
                mem("c", ARR(2, REF(p["name"])))]))
    hs = list(kinds.HELPERS)
    if rot % 3 == 2:
        return [module("user", us, [imp([p["name"] for p in ps], "uni")]),
                module("uni", ps + hs)]
    return [module("uni", hs + ps + us if rot % 3 else us + hs + ps)]


def run(case, r):
    if "scheme" in case:
        b = scheme(case)[0]
        with runner.scratch() as wd:
            for kind in GENS:
                common.check_c(sweeps.strip(b) if kind == "binary" else b,
                               kind, r, wd)
        return
    if "unions" in case:
        bundle = unions(case["unions"], case["rot"])
    elif "grid" in case:
        bundle = sweeps.grid(case["grid"])[0]
    elif "widths" in case:
        bundle = sweeps.alias_widths()
    elif "words" in case:
        defs = list(kinds.HELPERS) + [
            kinds.struct("S" + common.name_of(i), w)
            for i, w in enumerate(case["words"])]
        bundle = [module("lay-out", defs)]
    elif "fanout" in case:
        bundle = sweeps.fanout(case["fanout"])[0]
    elif "chain" in case:
        defs = [seq("L0", [mem("a", kinds.U(8)), mem("b", kinds.U(3))])]
        for i in range(1, case["chain"] + 1):
            defs.append(seq(f"L{i}", [
                mem("p", kinds.U(5)), mem("in-ner", REF(f"L{i - 1}")),
                mem("q", kinds.S(16)), mem("r", kinds.BOOL)]))
        bundle = [module("chain", defs[::-1])]
    else:
        t, m, mo = case["names"]
        how = case.get("how")
        c = CMT("a comment", unit="mV") if how in ("comment", "mixed") \
            else None
        ms = [mem(m, kinds.typ(case["alone"]), c=c)]
        if how == "mixed":
            ms.insert(0, mem(m + "x", STR(3)))
        if how in ("twice", "mixed"):
            ms.append(mem(m + "y", kinds.typ(case["alone"])))
        defs = kinds.closure([seq(t, ms, c=c)])
        bundle = [module(mo, defs)]
        if how == "imported" and len(defs) > 1:
            used = kinds.refs(ms[0]["t"])
            bundle = [module(mo, defs[-1:], [imp(list(used), "l")]),
                      module("l", defs[:-1])]
    with runner.scratch() as wd:
        common.check_c(bundle, case["kind"], r, wd)
