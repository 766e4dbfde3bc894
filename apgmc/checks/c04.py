import itertools

from .. import common, kinds, runner, sweeps
from ..asn import (ARR, BOOL, CMT, INT, REAL, REF, STR, alias, enum, imp, mem,
                   module, seq)
from ..engine import chunks

LEVEL = "model_checking"
TYPES = {
    "bool": BOOL, "u8": INT(0, 255), "i16": INT(-300, 300),
    "fl": REAL("-2.0", "2.5"), "fl0": REAL("0.0", "3.4e38"),
    "flfull": REAL("-3.4e38", "3.4e38"), "db": REAL("-1.0e300", "0.5"),
    "dbfull": REAL("-1.7976931348623157e308", "1.7976931348623157e308"),
    "af": REF("Percent"), "en": REF("Three"), "eo": REF("Ordered"),
    "ab": REF("Flag"), "au": REF("Five"),
    "st": STR(4), "ar": ARR(2, REF("Five")), "arf": ARR(2, REF("Percent")),
    "are": ARR(2, REF("Three")),
    "sq": REF("Ann"),
}
ANN = {
    "-": None, "x": CMT("some text"), "u": CMT(unit="m/s^2"),
    "l": CMT(le=True), "xu": CMT("speed, now (a.b)", "km"),
    "xl": CMT("0x12: id", le=True), "ul": CMT(unit="%", le=True),
    "xul": CMT("All-3", "degC", True),
}
SMALL_T = ["bool", "fl", "en", "sq"]
SMALL_A = ["-", "x", "u", "l"]
HELPERS = [d for d in kinds.HELPERS if d["k"] != "seq"] + [
    enum("Ordered", [["c", 2, CMT("cc")], ["a", 0], ["d", 3], ["b", 1]]),
    seq("Ann", [mem("n-a", INT(0, 7), CMT("inner", "V", True)),
                mem("n-b", REAL("1.0", "2.0")),
                mem("n-c", BOOL, CMT(unit="A"))], CMT("inner packet")),
]
BOUNDS = {
    "quick": f"all {len(ANN)} annotations x all {len(TYPES)} types on one "
             "member, all pairs of these on two adjacent members, all "
             "combinations of 4 annotations and 6 types on three members; "
             "packet comment, packet unit or neither",
    "thorough": "as quick, with all combinations of 5 annotations and 8 types "
                "on three members",
}
for _k in BOUNDS:
    BOUNDS[_k] += "; all pairs of 27 REAL ends, direct, as alias and as array"
for _k in BOUNDS:
    BOUNDS[_k] += ("; every kind of definition with every annotation of its "
                   "own (and of its items) under members with every "
                   "annotation, defined in the same or another module; all "
                   "combinations of 4 annotations on 4 members of the same "
                   "name in adjacent nested SEQUENCEs; one annotated member "
                   "at every position among 40; comments within WITH "
                   "COMPONENTS; all comments of one or "
                   "two characters other than letters and digits; comments of 1..300 and units of 1..60 "
                   "characters, all units of one character and all of two or three "
                   "out of 6 characters; enumerations up to 1025 states; "
                   "packets of up to 3000 items")
ASSUMPTIONS = ["comment texts are from a fixed set (all texts: C16)"]
PER = 100


def space(tier):
    one = [(t, a) for t in TYPES for a in ANN]
    yield from ((x,) for x in one)
    yield from itertools.product(one, repeat=2)
    ts = SMALL_T + ["u8", "ab"]
    an = list(SMALL_A)
    if tier == "thorough":
        ts += ["db", "are"]
        an += ["xul"]
    yield from itertools.product([(t, a) for t in ts for a in an], repeat=3)


ENDS = ["-1.7976931348623157e308", "-1.7976931348623155e308", "-1.0e300",
        "-3.5e38", "-3.41e38", "-3.4e38", "-3.3999999e38", "-1.0e38", "-255.5", "-1.0",
        "-1.0e-7", "0.0", "0.1", "1.0", "3.25", "100.00", "16777217.0",
        "123456789.123456789", "1.0e16", "1.0e22", "3.3999999e38", "3.4e38",
        "3.41e38", "3.5e38", "1.0e39", "1.7976931348623155e308",
        "1.7976931348623157e308"]


def cases(tier):
    pairs = list(itertools.combinations_with_replacement(ENDS, 2))
    for g in chunks(pairs, PER):
        yield {"ends": g,
               "_space": {"states": 3 * len(g), "transitions": 3 * len(g)}}
    for g in chunks(space(tier), PER):
        yield {"packets": [[list(x) for x in w] for w in g],
               "_space": {"states": len(g),
                          "transitions": sum(map(len, g))}}
    for place in ("local", "imported"):
        for a in ANN:
            yield {"defs": a, "place": place,
                   "_space": {"states": 48, "transitions": 96}}
    for g in chunks(itertools.product(SMALL_A, repeat=4), 64):
        yield {"same": g, "_space": {"states": len(g),
                                     "transitions": 4 * len(g)}}
    for a in ("x", "u", "l", "xul"):
        yield {"at": a, "_space": {"states": 40, "transitions": 1600}}
    yield {"wcc": 1, "_space": {"states": len(ANN)**2,
                                "transitions": len(ANN)**2}}
    yield {"texts": 1, "_space": {"states": 360, "transitions": 720}}
    us = [chr(c) for c in range(33, 127) if chr(c) in "%/^"
          or chr(c).isalnum()]
    us += ["".join(x) for n in (2, 3) for x in itertools.product(
        "%Az0/^", repeat=n)]
    for g in chunks(us, 100):
        yield {"units": g, "_space": {"states": len(g),
                                      "transitions": 3 * len(g)}}
    legal = [chr(c) for c in range(33, 123) if c != 96
             and chr(c) not in '[]"\\']
    xs = [f for c in legal for f in (c, c + "x", "x" + c, "x" + c + "y",
                                     "x " + c + " y")]
    odd = [c for c in legal if not c.isalnum()]
    xs += [a + x + b for a, b in itertools.product(odd, repeat=2)
           for x in ("", "z")]
    xs = [x for x in dict.fromkeys(xs) if not any(
        k in x for k in ("--", "*/", "??/"))]
    for g in chunks(xs, 100):
        yield {"odd": g, "_space": {"states": len(g),
                                    "transitions": 3 * len(g)}}
    yield {"fanout": 9, "_space": {"states": 6, "transitions": 9000}}
    for g in chunks(sweeps.ENUMS, 8):
        yield {"enums": g, "_space": {"states": len(g),
                                      "transitions": sum(g)}}


def annotated(case):
    """definitions with annotations of their own, used by members with every
    annotation"""
    c = ANN[case["defs"]]
    lib = [alias("Da", INT(0, 31), c), alias("Db", BOOL, c),
           alias("Dr", REAL("0.0", "9.5"), c), alias("Ds", STR(3), c),
           alias("Uint8-t", INT(0, 255), c),
           enum("De", [["p", None, c], ["q", None, None], ["r", None, c]], c),
           seq("Dq", [mem("i", INT(0, 3), c), mem("j", REF("De")),
                      mem("k", REAL("0.0", "1.0"), c), mem("l", BOOL)], c)]
    ss = []
    for d in lib:
        for a in ANN:
            n = f"M-{d['name'].lower()}-{a}" if a != "-" else (
                f"M-{d['name'].lower()}")
            ms = [mem("first", INT(0, 7)), mem("used", REF(d["name"]), ANN[a]),
                  mem("after", REF(d["name"])), mem("last", INT(0, 7), ANN[a]),
                  mem("end", REF(d["name"]))]
            if d["k"] != "seq":
                ms.append(mem("arr", ARR(2, REF(d["name"])), ANN[a]))
            ss.append(seq(n, ms, ANN[a]))
    if case["place"] == "local":
        return [module("notes", ss + lib, c=c)], ss
    return [module("notes", ss, [imp([d["name"] for d in lib], "lib", c)], c,
                   c), module("lib", lib, c=c)], ss


def special(case):
    if "defs" in case:
        return annotated(case)
    if "fanout" in case:
        b = sweeps.fanout(case["fanout"])[0]
        return b, b[0]["defs"]
    defs, ss = [], []
    for i, (a, b, c, d) in enumerate(case.get("same", ())):
        n = common.name_of(i)
        defs += [seq("Inn-" + n, [mem("m", INT(0, 7), ANN[a])]),
                 seq("Out-" + n, [mem("m", BOOL, ANN[c])])]
        ss.append(seq("Msg" + n, [mem("in", REF("Inn-" + n), ANN[d]),
                                  mem("m", REAL("0.0", "1.0"), ANN[b]),
                                  mem("on", REF("Out-" + n)),
                                  mem("x", REF("Inn-" + n))], ANN[b]))
    if "at" in case:
        ts = [t for t in TYPES.values() if t != REF("Ann")]
        for i in range(40):
            ss.append(seq(f"At{i}", [
                mem(f"m{j}", ts[(i + j) % len(ts)],
                    ANN[case["at"]] if j == i else None) for j in range(40)]))
    if "wcc" in case:
        defs = [seq("Low", [mem("p", INT(0, 7)), mem("q", BOOL, CMT("q it"))]),
                seq("Mid", [mem("low", REF("Low")), mem("z", INT(0, 9))])]
        for i, (a, b) in enumerate(itertools.product(ANN, repeat=2)):
            m = mem("mid", REF("Mid"), ANN[b],
                    wc=[["z", 3], ["low", {"wc": [["q", True], ["p", 1]]}]])
            m["wcc"] = ANN[a]
            ss.append(seq("Wc" + common.name_of(i),
                          [mem("f", INT(0, 1)), m, mem("e", INT(0, 3))]))
    if "texts" in case:
        for n in range(1, 301):
            x = ("word " * 61)[:n].strip()
            x += "x" * (n - len(x))
            ss.append(seq(f"Tx{n}", [mem("a", INT(0, 7), CMT(x)),
                                     mem("b", BOOL),
                                     mem("c", REF("Five"), CMT(x, le=True)),
                                     mem("d", ARR(2, REF("Five")),
                                         CMT(x, "km", True)),
                                     mem("e", REF("Percent"), CMT(x, "m")),
                                     mem("f", BOOL)], CMT(x)))
        for n in range(1, 61):
            u = ("kg/m^2%" * 9)[:n]
            ss.append(seq(f"Un{n}", [mem("a", INT(0, 7), CMT(unit=u)),
                                     mem("b", BOOL, CMT("z", u))]))
    for i, x in enumerate(case.get("odd", ())):
        ss.append(seq("Odd" + common.name_of(i), [
            mem("a", INT(0, 7), CMT(x)), mem("b", BOOL),
            mem("c", REF("Three"), CMT(x, "m", i % 2 == 0))], CMT(x)))
    if "units" in case:
        for i, u in enumerate(case["units"]):
            ss.append(seq("Us" + common.name_of(i), [
                mem("a", INT(0, 7), CMT(unit=u)),
                mem("b", BOOL, CMT("z " + u.lower(), u, i % 2 == 0)),
                mem("c", REF("Percent"), CMT(unit=u, le=i % 3 == 0)),
                mem("d", BOOL)]))
    for n in case.get("enums", ()):
        defs.append(enum(f"E{n}", [f"s{i}" for i in range(n)]))
        ss.append(seq(f"Msg{n}", [mem("a", REF(f"E{n}")), mem("b", BOOL),
                                  mem("c", ARR(2, REF(f"E{n}")))]))
    return [module("notes", HELPERS + defs + ss)], ss


def run(case, r):
    if "ends" not in case and "packets" not in case:
        bundle, ss = special(case)
        with runner.scratch() as wd:
            common.check_cosmos(bundle, "notes", [s["name"] for s in ss], r,
                                wd, geometry=False, ids=True, notes=True)
        return
    defs, msgs = list(HELPERS), []
    for i, (a, b) in enumerate(case.get("ends", ())):
        n = common.name_of(i)
        defs += [alias("R" + n, REAL(a, b)),
                 seq("Q" + n, [mem("di-rect", REAL(a, b)),
                               mem("ali-as", REF("R" + n), CMT(unit="V")),
                               mem("arr", ARR(3, REF("R" + n)))])]
        msgs.append("Q" + n)
    for i, w in enumerate(case.get("packets", ())):
        n = "P" + common.name_of(i)
        c = [None, CMT("packet no. " + str(i)), CMT(unit="ns")][i % 3]
        defs.append(seq(n, [mem("m" + str(j), TYPES[t], ANN[a])
                            for j, (t, a) in enumerate(w)], c))
        msgs.append(n)
    with runner.scratch() as wd:
        common.check_cosmos([module("notes", defs)], "notes", msgs, r, wd,
                            geometry=False, ids=True, notes=True)
