import itertools

from .. import common, cprobe, model, runner, trees
from ..asn import BOOL, INT, REF, WC, N, mem, seq
from ..engine import chunks
from .c05 import HDR as HDR1

HDR = HDR1[:2] + [
    seq("Second", [mem("code", INT(0, 255)), mem("flag", BOOL)]),
    seq("Header", [mem("before", REF("Second")), mem("primary",
                                                     REF("Primary")),
                   mem("sec", INT(0, 255)),
                   mem("secondary", REF("Second"))]),
    seq("Packet", [mem("sync", INT(0, 15)), mem("head", REF("Header")),
                   mem("crc", INT(0, 65535))]),
]

LEVEL = "model_checking"
BOUNDS = {
    "quick": "version 0..7 x type x flag x 47 APIDs (all one-bit, all but one "
             "bit and boundary values), all 2048 APIDs with all other bits "
             "clear and all set, all subsets and orders of the four fields; "
             "18 headers in every place: all subsets and orders of three "
             "sibling components around the primary header, one level "
             "deeper, beside other specified members, types in the same or "
             "other modules; "
             "also pairwise distinctness within each module",
    "thorough": "all 65536 header values, all subsets and orders of the four "
                "fields for 12 values",
}
ASSUMPTIONS = ["the CCSDS fields have the names used by APG (primary, "
               "packet-identification, ...), the version being a field of "
               "packet-identification as APG requires"]
KEYS = ["packet-version-number", "packet-type-is-cmd",
        "sec-hdr-flag-is-present", "application-process-identifier"]
PER = 256


def space(tier):
    """states: ordered lists of (field, value)"""
    if tier == "thorough":
        apids = range(2048)
    else:
        apids = sorted({0, 1, 2, 3, 9, 10, 15, 16, 99, 100, 127, 128, 255, 256,
                        136, 153, 1000, 1023, 1024, 1365, 682, 2046, 2047}
                       | {1 << i for i in range(11)}
                       | {2047 ^ (1 << i) for i in range(11)})
    for v, c, s in itertools.product(range(8), (False, True), (False, True)):
        more = tier == "quick" and (v, c, s) in ((0, False, False),
                                                 (7, True, True))
        for a in range(2048) if more else apids:
            yield list(zip(KEYS, (v, c, s, a)))
    vals = [(5, True, True, 1365), (1, False, True, 2047), (7, True, False, 0)]
    if tier == "thorough":
        vals += [(v, c, s, a) for v in (2, 4) for c in (False, True)
                 for s in (False, True) for a in (1024,)] + [(3, True, True, 1)]
    for val in vals:
        for k in (1, 2, 3, 4):
            for order in itertools.permutations(range(4), k):
                yield [(KEYS[i], val[i]) for i in order]


SIBS = [["before", {"wc": [["code", 7]]}], ["sec", 200],
        ["secondary", {"wc": [["flag", True], ["code", 9]]}]]
SOME = [list(zip(KEYS, x)) for x in
        [(v, c, s, a) for v, c, s in ((0, False, True), (5, True, False),
                                      (7, True, True))
         for a in (0, 1, 16, 291, 2047)]]
SOME += [[(KEYS[3], 1365), (KEYS[1], True)], [(KEYS[0], 6)],
         [(KEYS[2], True)]]
PLACES = ("own", "imported", "imported-first", "two-modules")


def around():
    """all lists of up to three sibling components and the primary header
    (None) in all orders"""
    for k in range(4):
        for sub in itertools.permutations(range(3), k):
            for at in range(k + 1):
                yield list(sub[:at]) + [None] + list(sub[at:])


def placed():
    """(order of siblings, deeper, other specified member first/last/none)"""
    for order in around():
        for deep in (False, True):
            for other in ("none", "first", "last"):
                yield [order, deep, other]


def cases(tier):
    ps = list(placed())
    for g in chunks(range(len(ps)), 12):
        for place in PLACES:
            # every place with three headers, all headers in turn
            yield {"placed": [[ps[i], [(3 * i + k) % len(SOME)
                                       for k in range(3)]] for i in g],
                   "place": place,
                   "_space": {"states": 3 * len(g),
                              "transitions": 12 * len(g)}}
    for g in chunks(space(tier), PER):
        yield {"hdrs": g, "_space": {"states": len(g),
                                     "transitions": sum(map(len, g))}}


def in_place(case):
    """messages and header fields of the places"""
    ss, hdrs = [], []
    for (order, deep, other), which in case["placed"]:
        for w in which:
            f = SOME[w]
            wc = [["primary", N(("packet-identification", N(*f)))]
                  if o is None else SIBS[o] for o in order]
            ms = [mem("hdr", REF("Header"), wc=WC(*wc))]
            if deep:
                ms = [mem("pkt", REF("Packet"), wc=WC(
                    ("sync", 3), ("head", {"wc": wc})))]
            rest = [mem("opt", REF("Second"), wc=WC(("code", 11))),
                    mem("pay", INT(0, 255))]
            if other == "first":
                ms = rest + ms
            elif other == "last":
                ms = ms + rest
            n = "Msg-" + common.name_of(len(ss))
            ss.append(seq(n, ms))
            hdrs.append(f)
    return ss, hdrs


def run(case, r):
    ss = []
    if "placed" in case:
        ss, case["hdrs"] = in_place(case)
    for i, f in enumerate(case["hdrs"] if not ss else ()):
        ss.append(seq("Msg-" + common.name_of(i), [
            mem("hdr", REF("Header"), wc=WC(
                ("primary", N(("packet-identification", N(*f))))))]))
    bundle = trees.place("ids", HDR, ss, case.get("place"))
    with runner.scratch() as wd:
        res = runner.generate("cfs", bundle, wd)
        r.n["cli_runs"] += 1
        if not res.ok:
            r.bad(f"generate-cfs failed: {res.why()}")
            return
        names = [model.cname(s["name"]).upper() + "_MID" for s in ss]
        src = ('#include "ids_msgids.h"\n#include <stdio.h>\n'
               "int main(void){\n"
               + "".join(f'printf("%lld\\n",(long long)({n}));\n'
                         for n in names) + "return 0;}\n")
        ok, out = cprobe.compile_run(src, wd, [wd + "/out"])
        if not ok:
            r.bad(out)
            return
        seen = {}
        for n, f, got in zip(names, case["hdrs"], map(int, out.split())):
            h = dict((k, v) for k, v in f)
            key = tuple(int(h.get(k, 0)) for k in KEYS)
            want = model.mid(*key)
            r.n["validated"] += 1
            r.outcome(got)
            if got != want:
                r.bad(f"{n} for {f}: {got:#06x}, expected {want:#06x}")
            if seen.setdefault(got, key) != key:
                r.bad(f"{n}: same id {got:#06x} for {key} and {seen[got]}")
