"""Alphabet of member kinds used by several explorations.

HELPERS are definitions every module of such an exploration contains; KINDS
maps a letter name to the ASN.1 type of a member."""
from .asn import (ARR, BOOL, INT, REAL, REF, STR, alias, enum, mem, seq)

U = lambda w: INT(0, 2**w - 1)  # noqa: E731
S = lambda w: INT(-2**(w - 1), 2**(w - 1) - 1)  # noqa: E731
DBL = "1.7e308"

HELPERS = [
    alias("Five", U(5)),
    alias("Flag", BOOL),
    alias("Small-int", INT(-300, 5)),
    alias("Percent", REAL("0.0", "100.0")),
    alias("Uint8-t", U(8)), alias("Uint16-t", U(16)), alias("Uint32-t", U(32)),
    alias("Uint64-t", U(64)),
    alias("Int8-t", S(8)), alias("Int16-t", S(16)), alias("Int32-t", S(32)),
    alias("Int64-t", S(64)),
    alias("Name", STR(5)),
    alias("Wide", REAL("-" + DBL, DBL)),
    enum("One", ["only"]),
    enum("Three", ["no", "yes", "may-be"]),
    seq("Whole", [mem("w-a", U(16)), mem("w-b", U(8)), mem("w-c", S(32))]),
    seq("Nibble", [mem("n-a", U(3)), mem("n-b", BOOL)]),
    seq("Deep", [mem("d-a", U(8)), mem("d-b", REF("Whole")),
                 mem("d-c", REAL("-1.5", "2.5"))]),
]

KINDS = {
    "bool": BOOL, "u1": U(1), "u3": U(3), "u7": U(7), "u8": U(8),
    "u9": U(9), "u11": U(11), "u15": U(15), "u16": U(16), "u17": U(17),
    "u32": U(32), "u33": U(33), "u63": U(63), "u64": U(64),
    "u200": INT(3, 200),
    "i8": INT(-1, 1), "i16": INT(-129, 0), "i32": INT(-5, 40000),
    "i64": INT(-2**40, 7),
    "f": REAL("-2.0", "2.0"), "d": REAL("0.0", DBL),
    "str": STR(3), "num": STR(4, "NumericString"),
    "a5": REF("Five"), "abool": REF("Flag"), "aint": REF("Small-int"),
    "af": REF("Percent"), "ad": REF("Wide"), "astr": REF("Name"),
    "pu8": REF("Uint8-t"), "pu16": REF("Uint16-t"), "pu32": REF("Uint32-t"),
    "pu64": REF("Uint64-t"),
    "pi8": REF("Int8-t"), "pi16": REF("Int16-t"), "pi32": REF("Int32-t"),
    "pi64": REF("Int64-t"),
    "e1": REF("One"), "e3": REF("Three"),
    "sw": REF("Whole"), "sn": REF("Nibble"), "sd": REF("Deep"),
    "Rbool": ARR(3, BOOL), "R5": ARR(2, REF("Five")),
    "Rp16": ARR(2, REF("Uint16-t")), "Rp8": ARR(9, REF("Uint8-t")),
    "Ri": ARR(3, REF("Small-int")), "Rf": ARR(2, REF("Percent")),
    "Re": ARR(4, REF("Three")), "Rs": ARR(2, REF("Whole")),
    "Rstr": ARR(3, REF("Name")), "R1": ARR(1, REF("Int64-t")),
}

# one representative of each behaviour class, for longer words
CORE = ["bool", "u3", "u8", "u11", "u33", "i16", "f", "str", "e3", "sw",
        "R5", "pu32"]
MEMBER_NAMES = ["a", "b-1", "long-name2-x", "d4", "e-e", "f", "g", "h"]


def typ(k):
    return KINDS[k] if isinstance(k, str) else k


def struct(name, word, c=None, names=MEMBER_NAMES):
    """word: list of kind names or types"""
    return seq(name, [mem(names[i] if i < len(names) else f"m{i}", typ(k))
                      for i, k in enumerate(word)], c)


def refs(t):
    while t["t"] == "arr":
        t = t["e"]
    return [t["r"]] if t["t"] == "ref" else []


def closure(defs, pool=HELPERS):
    """defs plus the definitions of pool they need, in pool order"""
    env = {d["name"]: d for d in pool}
    have = {d["name"] for d in defs}
    need = set()
    todo = list(defs)
    while todo:
        d = todo.pop()
        ts = ([m["t"] for m in d["m"]] if d["k"] == "seq"
              else [d["t"]] if d["k"] == "alias" else [])
        for t in ts:
            for n in refs(t):
                if n not in need and n not in have:
                    need.add(n)
                    todo.append(env[n])
    return [d for d in pool if d["name"] in need] + list(defs)
