"""Sweeps of single parameters (widths, counts, name shapes) over large
ranges; several checks judge the same swept inputs, each in its own way."""
import copy
import itertools

from .asn import (ARR, BOOL, CMT, INT, REAL, REF, STR, WC, F, N, alias, enum, imp,
                  mem, module, seq)
from .common import POSIX
from .kinds import KINDS

U = lambda w: INT(0, 2**w - 1)  # noqa: E731
WIDTHS = list(range(1, 65))
COUNTS = list(range(4, 41)) + [64, 65, 100, 128, 200, 256, 300]
ENUMS = sorted(set(range(1, 41)) | {2**k + d for k in range(5, 11)
                                    for d in (-1, 0, 1)})


def words(tier, skip=()):
    """member words over all widths, and long ones"""
    for w in WIDTHS:
        yield [U(w)]
        yield ["bool", U(w), "u3"]
        yield [U(w), U(w)]
        yield [INT(1, 2**w - 1), "u8"]
        yield [INT(2**w - 1, 2**w - 1), "u8"]
    for w in WIDTHS:
        for v in WIDTHS if tier == "thorough" else (3, 8, 24, 33):
            yield [U(w), U(v)]
            if tier == "thorough":
                yield [U(w), U(v), "bool"]
    ks = [k for k in KINDS if k not in skip]
    for n in COUNTS:
        yield ["u8"] * n
        yield [ks[i * 7 % len(ks)] for i in range(n)]
        yield [ks[(i * 5 + n) % len(ks)] for i in range(n)]


def alias_widths():
    """one module: an alias of each width, used three ways"""
    ds = []
    for w in WIDTHS:
        ds += [alias(f"W{w}", U(w)),
               seq(f"A{w}", [mem("a", REF(f"W{w}"))]),
               seq(f"B{w}", [mem("x", BOOL), mem("a", REF(f"W{w}")),
                             mem("b", REF(f"W{w}")), mem("y", U(3))])]
    return [module("wid-ths", ds)]


# ---- types x ways of using them --------------------------------------------

MAXD = "1.7976931348623157e308"
BASES = {
    "bool": BOOL, "u1": U(1), "u5": U(5), "u8": U(8), "u12": U(12),
    "u16": U(16), "u24": U(24), "u32": U(32), "u40": U(40), "u64": U(64),
    "i8": INT(-1, 1), "i16": INT(-129, 128), "i32": INT(-32769, 0),
    "i64": INT(-2**31 - 1, 5), "float": REAL("-1.0", "1.5"),
    "full-float": REAL("-3.4e38", "3.4e38"), "half-float": REAL("0.0", "3.4e38"),
    "double": REAL("-1.0e300", "1.0"), "full-double": REAL("-" + MAXD, MAXD),
    "str": STR(4), "num": STR(6, "NumericString"), "str1": STR(1),
    **{n.lower(): t for n, t in POSIX.items()},
    "float-p": REAL("-3.4e38", "3.4e38"), "double-p": REAL("-" + MAXD, MAXD),
}
POSIX_NAMES = {**{n.lower(): n for n in POSIX}, "float-p": "Float",
               "double-p": "Double"}
OWN = {"enum1": enum("T-enum1", ["only"]),
       "enum5": enum("T-enum5", ["v", "w", "x", "y", "z"]),
       "seq": seq("T-seq", [mem("s-a", U(8)), mem("s-b", INT(-300, 0))])}


def grid(place, bits=True, seqs=True, strs=True):
    """every base type in every way of use (direct, own or POSIX alias, one,
    two and three dimensional arrays of it), the aliases defined in the same
    or in another module.  bits: arrays of types that are not whole bytes,
    seqs: arrays of SEQUENCEs, strs: arrays of direct strings"""
    lib, ss = [], []

    def use(label, ts):
        for i, t in enumerate(ts):
            ss.append(seq(f"S-{label}-{i}", [mem("a", t)]))
            ss.append(seq(f"B-{label}-{i}", [mem("p", BOOL), mem("a", t),
                                             mem("q", t), mem("r", U(8))]))

    def arrays(t, whole):
        if not (whole or bits):
            return []
        return [ARR(1, t), ARR(2, t), ARR(7, t), ARR(2, ARR(3, t)),
                ARR(2, ARR(1, ARR(3, t)))]

    for label, t in BASES.items():
        n = POSIX_NAMES.get(label, "T-" + label)
        lib.append(alias(n, t))
        whole = label not in ("bool", "u1", "u5", "u12", "u24", "u40")
        ts = [t, REF(n)] + arrays(REF(n), whole)
        if t["t"] == "str" and strs or t["t"] == "bool":
            ts += arrays(t, whole)
        use(label, ts)
    for label, d in OWN.items():
        lib.append(d)
        r = REF(d["name"])
        use(label, [r] + (arrays(r, d["k"] == "seq")
                          if seqs or d["k"] != "seq" else []))
    if place == "local":
        b = [module("grid", lib + ss)]
    elif place == "mixed":
        b = [module("grid", ss + lib[::2], imports=[
            imp([d["name"] for d in lib[1::2]], "grid-lib")]),
            module("grid-lib", lib[1::2])]
    else:
        b = [module("grid", ss, imports=[
            imp([d["name"] for d in lib], "grid-lib")]),
            module("grid-lib", lib)]
    return b, [s["name"] for s in ss]


PLACES = ("local", "imported", "mixed")


# ---- names ------------------------------------------------------------------

def bundle():
    """every construct, spread over three modules"""
    lib = module("lib", [
        alias("Uint8-t", INT(0, 255)), alias("Five", INT(0, 31)),
        alias("Flag", BOOL), alias("Ratio", REAL("-1.0", "1.0")),
        alias("Tag", STR(4)), alias("Signed", INT(-300, 300)),
        enum("Mode", [["on", 1], ["off", 0], ["both", 3], ["none", 2]]),
        seq("Leaf", [mem("x", REF("Five")), mem("y", BOOL),
                     mem("m", REF("Mode")), mem("z", INT(0, 255))]),
    ])
    mid = module("mid", [
        seq("Node", [mem("leaf", REF("Leaf")), mem("k", INT(-3000, 3000)),
                     mem("list", ARR(3, REF("Uint8-t"))),
                     mem("r", REAL("-10.0", "100000.0")),
                     mem("q", REF("Uint8-t"))]),
        seq("Pair", [mem("node", REF("Node")), mem("n", INT(0, 4095)),
                     mem("s", REF("Own"))]),
        alias("Own", INT(0, 7)),
    ], [imp(["Leaf", "Uint8-t"], "lib")])
    top = module("top", [
        enum("Kind", ["first", "second", "third"]),
        seq("Msg", [
            mem("hdr", REF("Node"), wc=WC(
                ("k", -7), ("leaf", N(("x", 9), ("y", True))))),
            mem("kind", REF("Kind")), mem("txt", STR(8)),
            mem("mode", REF("Mode")), mem("ratio", REF("Ratio")),
            mem("one", REF("Leaf"), wc=WC(("z", 200))),
            mem("two", REF("Leaf")), mem("tag", REF("Tag")),
            mem("flag", REF("Flag")), mem("tail", INT(0, 15))]),
        seq("Other", [
            mem("pre", REF("Signed")),
            mem("pair", REF("Pair"), wc=WC(
                ("s", 5), ("n", 1000), ("node", N(
                    ("r", F("2.5")), ("leaf", N(("y", False), ("z", 3))),
                    ("q", 17)))))]),
        seq("Bare", [mem("only", REF("Pair"))]),
    ], [imp(["Node", "Pair"], "mid"),
        imp(["Leaf", "Mode", "Ratio", "Tag", "Flag", "Signed"], "lib")])
    return [lib, mid, top]


MESSAGES = {"lib": ["Leaf"], "mid": ["Node", "Pair"],
            "top": ["Other", "Msg", "Bare"]}


def binary_bundle():
    """what generate-binary supports, in one module"""
    return [module("bin", [
        alias("Uint16-t", INT(0, 65535)), alias("Int32-t",
                                                INT(-2**31, 2**31 - 1)),
        seq("Leaf", [mem("x", INT(0, 255)), mem("y", REF("Uint16-t")),
                     mem("z", REAL("-1.0", "1.0e9"))]),
        seq("Node", [mem("k", REF("Int32-t")), mem("leaf", REF("Leaf")),
                     mem("q", INT(0, 2**64 - 1))]),
        seq("Msg", [
            mem("a", REF("Node"), wc=WC(
                ("q", 2**63 + 5), ("leaf", N(("z", F("2.5")), ("x", 200),
                                             ("y", 513))), ("k", -2))),
            mem("b", REF("Leaf"), wc=WC(("y", 7), ("z", F("-0.5")),
                                        ("x", 1)))]),
        seq("Other", [mem("only", REF("Leaf"), wc=WC(
            ("x", 3), ("y", 4), ("z", F("1.5"))))]),
    ])]


def names_of(b):
    """names in order of appearance, per class"""
    out = {"mod": [], "type": [], "mem": [], "item": []}

    def add(c, n):
        if n not in out[c]:
            out[c].append(n)
    for m in b:
        add("mod", m["name"])
        for d in m["defs"]:
            if d["name"] not in POSIX:
                add("type", d["name"])
            for x in d.get("m", ()):
                add("mem", x["n"])
            for it in d.get("items", ()):
                add("item", it[0])
    return out


def rename(b, maps):
    b = copy.deepcopy(b)
    mo, ty, me, it = (maps.get(k, {}) for k in ("mod", "type", "mem", "item"))

    def typ(t):
        if t["t"] == "ref":
            t["r"] = ty.get(t["r"], t["r"])
        elif t["t"] == "arr":
            typ(t["e"])

    def comp(wc):
        for c in wc:
            c[0] = me.get(c[0], c[0])
            if isinstance(c[1], dict) and "wc" in c[1]:
                comp(c[1]["wc"])
    for m in b:
        m["name"] = mo.get(m["name"], m["name"])
        for i in m["imports"]:
            i["from"] = mo.get(i["from"], i["from"])
            i["names"] = [ty.get(n, n) for n in i["names"]]
        for d in m["defs"]:
            d["name"] = ty.get(d["name"], d["name"])
            for x in d.get("m", ()):
                x["n"] = me.get(x["n"], x["n"])
                typ(x["t"])
                if x.get("wc"):
                    comp(x["wc"])
            for k in d.get("items", ()):
                k[0] = it.get(k[0], k[0])
            if d["k"] == "alias":
                typ(d["t"])
    return b


ASNWORDS = ["end", "begin", "module", "imports", "from", "sequence", "choice",
            "enumerated", "real", "integer", "boolean", "null", "size", "of",
            "with", "components", "definitions", "automatic", "tags",
            "numericstring", "ia5string", "module-x", "end-1", "real-2",
            "with-components", "sequence-of", "minus", "plus", "infinity"]
CCSDS = ["application-process-identifier", "packet-version-number",
         "packet-type-is-cmd", "sec-hdr-flag-is-present", "length",
         "packet-length", "ccsds", "mid", "primary-a", "secondary",
         "sequence-flags", "sequence-count", "apid", "msg", "msgids", "hdr"]
BUILTIN = ["Integer", "Real", "Boolean", "Null", "Sequence", "Choice",
           "Enumerated", "End", "Begin", "Module", "Int-own", "Uint-x",
           "Float-x", "Double-x", "Uint8", "Int16", "Uint16-t-x", "Int8",
           "Float-t", "Bool", "Char", "String", "Ia5string", "Size-x", "Of"]


def chain():
    """names that extend each other: v, v1, v-1, va, ..."""
    level = [""]
    while True:
        for s in level:
            yield s
        level = [s + x for s in level for x in ("1", "-1", "a", "-b")]


def cap(n):
    return n[0].upper() + n[1:]


def sized(i, n, style):
    """i-th name of length n"""
    s = "abcdefghij"[i // 26 % 10] + "abcdefghijklmnopqrstuvwxyz"[i % 26]
    if n < 2:
        return s
    fill = {"plain": "x", "digit": "7", "dash": "q-r"}[style]
    s += fill * n
    return s[:n].rstrip("-") if not s[:n].endswith("-") else s[:n - 1] + "z"


def schemes():
    """(label, {class: [names]}) - the lists are long enough for any bundle"""
    ch = list(itertools.islice(chain(), 120))
    for cls in ("mem", "type", "item", "mod"):
        pre = {"mem": "v", "type": "V", "item": "w", "mod": "v"}[cls]
        yield f"prefix-{cls}", {cls: [pre + s for s in ch[:50]]}
        yield f"back-{cls}", {cls: [pre + s for s in ch[:40]]}
    # each name extends the one before (back: the one after) it; at the end or
    # at the start
    for label, f in (("grow", lambda p, i: p + "x" * i),
                     ("dash", lambda p, i: p + "-x" * i),
                     ("suf", lambda p, i: p[:-1] + "x" * i + p[-1])):
        for back in ("", "back-"):
            yield back + label, {
                "mem": [f("v", i) for i in range(60)],
                "type": [f("V", i) if label != "suf" else f("Vy", i)
                         for i in range(60)],
                "item": [f("w", i) for i in range(60)],
                "mod": [f("v", i) for i in range(60)]}
    yield "prefix-all", {"mem": ["v" + s for s in ch],
                         "type": ["V" + s for s in ch],
                         "item": ["w" + s for s in ch],
                         "mod": ["v" + s for s in ch]}
    for style in ("plain", "digit", "dash"):
        for n in ((2, 5, 7, 8, 9, 12, 15, 16, 17, 18, 19, 20, 24, 25, 30, 31,
                   32, 33, 40, 48, 63, 64, 65, 80, 100, 128)
                  if style == "plain" else (6, 19, 31, 32, 33, 64)):
            ns = [sized(i, n, style) for i in range(60)]
            yield f"len-{style}-{n}", {"mem": ns, "item": ["e" + x for x in ns],
                                       "type": [cap(x) for x in ns],
                                       "mod": ns}
    for k in range(0, 29, 7):
        yield f"asn-words-{k}", {
            "mem": ASNWORDS[k:] + ASNWORDS[:k],
            "item": ["i-" + x for x in ASNWORDS], "mod": ASNWORDS[k:] +
            ASNWORDS[:k]}
    yield "ccsds", {"mem": CCSDS + ["zz" + x for x in CCSDS],
                    "mod": ["primary", "packet-identification", "hdr"]}
    for k in (0, 5, 10, 15):
        yield f"builtin-{k}", {"type": BUILTIN[k:] + BUILTIN[:k]}
    # member, type and module names equal up to the case
    al = [sized(i, 4, "plain") for i in range(60)]
    yield "equal", {"mem": al, "mod": al, "type": [cap(x) for x in al],
                    "item": ["it-" + x for x in al]}
    yield "one-letter", {"mem": list("zyxwvutsrqponmlkjihgfedcba"),
                         "type": list("ZYXWVUTSRQPONMLKJIHGFEDCBA"),
                         "mod": list("qrst")}


def named(what=bundle):
    """(label, renamed bundle, {old module: new}, {old type: new}) per scheme;
    names of floating point members never become an APID"""
    for label, sch in schemes():
        b = what()
        have = names_of(b)
        maps = {}
        for c, new in sch.items():
            new = list(dict.fromkeys(new))
            olds = have[c]
            if len(new) < len(olds):
                new += [x for x in (f"{new[i % len(new)]}-zz{i}"
                                    for i in range(len(olds)))
                        if x not in new]
            if label.startswith("back"):
                new = new[:len(olds)][::-1]
            maps[c] = dict(zip(olds, new))
        yield label, rename(b, maps), maps


def messages(maps):
    """[(module, messages)] of the renamed bundle()"""
    mo, ty = maps.get("mod", {}), maps.get("type", {})
    return [(mo.get(m, m), [ty.get(x, x) for x in ms])
            for m, ms in MESSAGES.items()]


def commented(b):
    """with a comment at every place that may have one"""
    b = copy.deepcopy(b)
    k = 0

    def text(what):
        nonlocal k
        k += 1
        return CMT(f"{what} no {k}")
    for m in b:
        m["c"], m["ic"] = text("module"), text("imports")
        for i in m["imports"]:
            i["c"] = text("import")
        for d in m["defs"]:
            d["c"] = text("definition")
            for x in d.get("m", ()):
                x["c"] = text("member")
            for x in d.get("items", ()):
                x[2] = text("item")
    return b


def fanout(depth=9):
    """SEQUENCEs that use each other twice: packets of up to about 3000
    items, all kinds of item with notes, spread over two modules"""
    lib = [enum("Mode", ["off", "on", "aut"], CMT("modes")),
           alias("Lev", REAL("-2.5", "7.25")), alias("Five", INT(0, 31)),
           seq("F0", [mem("a", INT(0, 255), CMT("byte", "m")),
                      mem("b", BOOL), mem("c", REF("Mode"), CMT("mode")),
                      mem("d", REF("Lev"), CMT(unit="V"))])]
    top = []
    for i in range(1, depth + 1):
        d = seq(f"F{i}", [
            mem("p", REF("Five"), CMT(f"level {i}")),
            mem("l", REF(f"F{i - 1}")),
            mem("q", INT(-300, 300), CMT(le=True)),
            mem("r", REF(f"F{i - 1}"), CMT("again")),
            mem("s", STR(i))], CMT(f"packet {i}"))
        (lib if i < 4 else top).append(d)
    return [module("notes", top[::-1], [imp(
        ["Mode", "Five", "F3"] if top else ["Mode"], "low")]),
        module("low", lib)], [d["name"] for d in top]


def strip(b):
    """without WITH COMPONENTS (generate-binary supports only few)"""
    b = copy.deepcopy(b)
    for m in b:
        for d in m["defs"]:
            for x in d.get("m", []):
                x["wc"] = None
    return b
