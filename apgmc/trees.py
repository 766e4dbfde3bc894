"""All WITH COMPONENTS trees over a small family of types."""
import itertools

from .asn import BOOL, INT, REAL, REF, F, imp, mem, module, seq


def types(collide):
    """collide: members of different levels share names"""
    x, y = ("x", "y") if collide else ("lx", "ly")
    mx, my = ("x", "y") if collide else ("mx", "my")
    return [
        seq("Leaf", [mem(x, INT(0, 255)), mem(y, BOOL)]),
        seq("Mid", [mem(mx, INT(-3000, 3000)), mem("leaf-a", REF("Leaf")),
                    mem(my, REAL("-10.0", "100000.0"))]),
        seq("Outer", [mem("first", INT(0, 4095)), mem("mid-a", REF("Mid")),
                      mem("leaf-b", REF("Leaf")), mem("last", INT(0, 15))]),
        seq("Twin", [mem("leaf-p", REF("Leaf")), mem("tk", INT(0, 4095)),
                     mem("leaf-q", REF("Leaf"))]),
    ]


def options(name, env, full):
    """all WITH COMPONENTS lists (value placeholders None) for type `name`;
    with `full`, all subsets in all orders, else all subsets in order and the
    reversed full order"""
    ms = env[name]["m"]
    alts = {}
    for m in ms:
        if m["t"]["t"] == "ref":
            alts[m["n"]] = [("wc", o) for o in
                            options(m["t"]["r"], env, False)]
        else:
            alts[m["n"]] = [m["t"]["t"]]
    out = []
    names = [m["n"] for m in ms]
    for k in range(1, len(names) + 1):
        for sub in itertools.combinations(names, k):
            orders = (itertools.permutations(sub) if full
                      else dict.fromkeys((sub, sub[::-1])))
            for order in orders:
                for pick in itertools.product(*(alts[n] for n in order)):
                    out.append(list(zip(order, pick)))
    return out


class Values:
    """hands out distinct values per kind, deterministic"""

    def __init__(self):
        self.i = 0

    def of(self, kind):
        self.i += 1
        if kind == "bool":
            return self.i % 2 == 0
        if kind == "real":
            return F(f"{self.i * 7 % 13 - 6}.5")
        return 1 + self.i * 5 % 13

    def fill(self, opt):
        out = []
        for n, o in opt:
            if isinstance(o, tuple):
                out.append([n, {"wc": self.fill(o[1])}])
            else:
                out.append([n, self.of(o)])
        return out


def count(wc):
    return sum(count(v["wc"]) + 1 if isinstance(v, dict) and "wc" in v else 1
               for _, v in wc)


def trees(tier, collide):
    """list of message member lists [(member name, type, wc or None)]"""
    defs = types(collide)
    env = {d["name"]: d for d in defs}
    v = Values()
    leaf = options("Leaf", env, True)
    mid = options("Mid", env, True)
    out = []
    for o in leaf:
        out.append([("only", "Leaf", v.fill(o))])
    for o in mid:
        out.append([("only", "Mid", v.fill(o))])
    for a in [None] + mid:
        for b in [None] + leaf:
            if a or b:
                out.append([("pre", "Mid", a and v.fill(a)),
                            ("mid-z", "Mid", None),
                            ("q", "Leaf", b and v.fill(b))])
    for o in options("Outer", env, tier == "thorough"):
        out.append([("deep", "Outer", v.fill(o)), ("z", "Outer", None)])
    # several specified members of the same type, on every level
    for o in options("Twin", env, True):
        out.append([("deep", "Twin", v.fill(o))])
    for k, gap in ((2, False), (2, True), (3, False)):
        for os in itertools.product(leaf, repeat=k):
            ms = [(f"m{i}", "Leaf", v.fill(o)) for i, o in enumerate(os)]
            out.append(ms[:1] + [("gap", "Leaf", None)] * gap + ms[1:])
    for a, b in zip(mid, mid[::-1]):
        out.append([("m0", "Mid", v.fill(a)), ("m1", "Mid", v.fill(b))])
        out.append([("m0", "Mid", v.fill(a)), ("m1", "Mid", v.fill(a))])
    return defs, out


def message(name, spec):
    return seq(name, [mem(n, REF(t), wc=wc) for n, t, wc in spec]
               + [mem("tail", INT(0, 255))])


PLACES = ("own", "imported", "imported-first", "two-modules")


def place(name, defs, msgs, how=None):
    """bundle with the types in the same module, in another one (passed
    after or before it), or spread over two others"""
    if how in (None, "own"):
        return [module(name, defs + msgs)]
    if how == "two-modules":
        a = [d for i, d in enumerate(defs) if i == 0]
        b = defs[1:]
        ia = [imp([d["name"] for d in a], "lib-a")]
        if not b:
            return [module(name, msgs, ia), module("lib-a", a)]
        used = lambda ds: ia if any(  # noqa: E731
            m["t"].get("r") == a[0]["name"] for d in ds
            for m in d.get("m", [])) else []
        return [module("lib-b", b, used(b)),
                module(name, msgs, used(msgs)
                       + [imp([d["name"] for d in b], "lib-b")]),
                module("lib-a", a)]
    own = module(name, msgs, [imp([d["name"] for d in defs], "lib")])
    lib = module("lib", defs)
    return [own, lib] if how == "imported" else [lib, own]


VALUES = {
    "u8": (INT(0, 255), [0, 1, 127, 128, 255]),
    "u16": (INT(0, 65535), [256, 65535]),
    "u32": (INT(0, 2**32 - 1), [2**31, 2**32 - 1]),
    "u64": (INT(0, 2**64 - 1), [2**63 - 1, 2**63, 2**64 - 1]),
    "u11": (INT(0, 2047), [0, 9, 10, 2047]),
    "i8": (INT(-128, 127), [-128, -1, 0, 127]),
    "i32": (INT(-2**31, 5), [-2**31, -2**31 + 1, 5]),
    "i64": (INT(-2**63, 2**63 - 1), [-2**63 + 1, -2**40, 2**63 - 1]),
    "bool": (BOOL, [True, False]),
    "abool": (REF("Flag"), [True, False]),
    "a5": (REF("Five"), [0, 17, 31]),
    "pu16": (REF("Uint16-t"), [0, 1, 40000]),
    "pi16": (REF("Int16-t"), [-1, 300]),
    "en": (REF("Three"), [0, 1, 2]),
    "f": ({"t": "real", "lo": "-1.0e30", "hi": "1.0e30"},
          [F("0.0"), F("-0.5"), F("1.25"), F("100000.0"), F("0.0625"),
           F("1.0e20"), F("-1.5e-20")]),
    "d": ({"t": "real", "lo": "-1.0e300", "hi": "1.0e300"},
          [F("0.1"), F("1.0e300"), F("-123456789.123456789"),
           F("1.0e-300")]),
    "af": (REF("Percent"), [F("0.0"), F("99.5")]),
}


def around(lo, hi):
    """all small numbers and all numbers next to powers of two in lo..hi"""
    v = set(range(-300, 301)) | {10**k + d for k in range(20) for d in (-1, 0)}
    for k in range(65):
        v |= {2**k - 1, 2**k, 2**k + 1}
    v |= {-x for x in v}
    return sorted(x for x in v if lo <= x <= hi)


def literals():
    """decimal literals of all sizes and shapes"""
    out = ["0.0", "-0.0", "+1.5", "5.", ".5", "-.25", "1e5", "1E5", "1.0e+5",
           "1.0E-5", "0.1", "-0.1", "0.30000000000000004", "16777217.0",
           "9007199254740993.0", "123456789.123456789", "1.0000001",
           "3.4028234e38", "0.1234567890123456789", "999999999999999.9",
           "3.141592653589793", "2.718281828459045e-10"]
    for e in list(range(-40, 41)) + [-300, -200, -100, 60, 100, 200, 300]:
        out += [f"1.0e{e}", f"-7.25e{e}"]
    for k in range(1, 18):
        out += ["1." + "3" * k, "1" * k + ".5", "0." + "0" * k + "7"]
    return list(dict.fromkeys(out))


MANY = {
    "u8": (INT(0, 255), around(0, 255)),
    "u16": (INT(0, 65535), around(0, 65535)),
    "u32": (INT(0, 2**32 - 1), around(0, 2**32 - 1)),
    "u64": (INT(0, 2**64 - 1), around(0, 2**64 - 1)),
    "u11": (INT(0, 2047), around(0, 2047)),
    "u63": (INT(0, 2**63 - 1), around(0, 2**63 - 1)),
    "i8": (INT(-128, 127), around(-128, 127)),
    "i16": (INT(-2**15, 2**15 - 1), around(-2**15, 2**15 - 1)),
    "i32": (INT(-2**31, 2**31 - 1), around(-2**31, 2**31 - 1)),
    "i64": (INT(-2**63, 2**63 - 1), around(-2**63, 2**63 - 1)),
    "pu64": (REF("Uint64-t"), around(0, 2**64 - 1)),
    "pi64": (REF("Int64-t"), around(-2**63, 2**63 - 1)),
    "d": (REAL("-1.7e308", "1.7e308"), [F(x) for x in literals()]),
    "f": (REAL("-3.4e38", "3.4e38"),
          [F(x) for x in literals() if abs(float(x)) < 3.4e38]),
    "ad": (REF("Wide"), [F(x) for x in literals()]),
}


def value_messages(values=None, name="val"):
    """[(type definitions, [(member name, type, wc)])]"""
    out = []
    for k, (t, vs) in (values or VALUES).items():
        T = "V" + k
        out.append((seq(T, [mem("pad", INT(0, 255)), mem(name, t)]),
                    [[("m", T, [[name, v]])] for v in vs]))
    return out


APID = "application-process-identifier"


def value_cases(helpers, per=250):
    """cases of all kinds of values; the few of each kind with the types
    placed in all ways, the many in the same module"""
    helpers = [d for d in helpers if d["k"] != "seq"]
    vals = value_messages()
    n = sum(len(m) for _, m in vals)
    for place in PLACES:
        yield {"types": helpers + [t for t, _ in vals], "place": place,
               "msgs": [m for _, ms in vals for m in ms],
               "_space": {"states": n, "transitions": n}}
    more = value_messages(MANY)
    more += value_messages({"apid": (INT(0, 2047), list(range(2048)))}, APID)
    # the member COSMOS writes in hexadecimal, with every kind of value
    more += value_messages(VALUES, APID)
    more += value_messages({k: MANY[k] for k in ("u16", "u32", "i32", "u64")},
                           APID)
    for t, ms in more:
        for i in range(0, len(ms), per):
            g = ms[i:i + per]
            yield {"types": helpers + [t], "msgs": g,
                   "_space": {"states": len(g), "transitions": len(g)}}


def renamed(tier, collide):
    """the trees again, under member names that extend each other (growing
    and shrinking along the definitions): [(types, specs)]"""
    from . import sweeps
    defs, specs = trees(tier, collide)
    top = ["only", "pre", "mid-z", "q", "deep", "z", "m0", "m1", "m2", "gap"]
    olds = list(dict.fromkeys([m["n"] for d in defs for m in d["m"]] + top))
    ch = ["v" + s for s in itertools.islice(sweeps.chain(), 40)]
    for new in (ch[:len(olds)], ch[:len(olds)][::-1],
                ["v" + "x" * i for i in range(len(olds))],
                ["v" + "x" * i for i in range(len(olds))][::-1]):
        me = dict(zip(olds, new))

        def comp(wc):
            return [[me[k], {"wc": comp(v["wc"])}
                     if isinstance(v, dict) and "wc" in v else v]
                    for k, v in wc]
        yield ([dict(d, m=[dict(m, n=me[m["n"]]) for m in d["m"]])
                for d in defs],
               [[(me[n], t, wc and comp(wc)) for n, t, wc in s]
                for s in specs])


def named_cases(tier, collide, keep=lambda s: True, per=100):
    """cases for all renamed trees and for all naming schemes"""
    from . import sweeps
    for defs, specs in renamed(tier, collide):
        specs = [s for s in specs if keep(s)]
        for i in range(0, len(specs), per):
            g = specs[i:i + per]
            yield {"types": defs, "msgs": g,
                   "_space": {"states": len(g), "transitions": sum(
                       count(wc) for s in g for *_, wc in s if wc)}}
    for label, _, _ in sweeps.named():
        yield {"scheme": label, "_space": {"states": 3, "transitions": 3}}


def big_cases(collide):
    """cases of deep nesting, long component lists, many specified members and
    many messages.  collide: the levels share member names"""
    depths = list(range(1, 17)) + [24, 40]

    def nm(c, i):
        return c if collide else f"{c}{i}"

    def case(types, msgs, place=None):
        return {"types": types, "msgs": msgs, "place": place,
                "_space": {"states": len(msgs), "transitions": sum(
                    count(wc) for s in msgs for *_, wc in s if wc)}}
    for d in depths:
        ts = [seq("D0", [mem(nm("v", 0), INT(0, 255)),
                         mem(nm("w", 0), INT(-99, 99))])]
        for i in range(1, d + 1):
            ts.append(seq(f"D{i}", [
                mem(nm("v", i), INT(0, 65535)),
                mem(nm("in", i), REF(f"D{i - 1}")),
                mem(nm("w", i), INT(-99, 99))]))

        def tree(i, want):
            """components of D<i> and below; want(level) -> which of v, w"""
            c = []
            k = want(i)
            if "v" in k:
                c.append([nm("v", i), 2 + i])
            below = tree(i - 1, want) if i else []
            if below:
                c.append([nm("in", i), {"wc": below}])
            if "w" in k:
                c.append([nm("w", i), -3 - i])
            return c[::-1] if i % 3 == 2 else c
        wants = [lambda i: "vw", lambda i: "vw" if i == 0 else "",
                 lambda i: "v" if i % 2 else "w"]
        wants += [lambda i, k=k: "w" if i == k else "" for k in range(d + 1)]
        msgs = [[("a", f"D{d}", tree(d, w)), ("z", f"D{d // 2}", None)]
                for w in wants]
        # APG's parser backtracks once per level whose nested components come
        # last, 2^depth steps in all: beyond 8 levels the nested components
        # stay in the middle
        yield case(ts, msgs if d <= 8 else msgs[:1], PLACES[d % 4])
    for n in list(range(1, 41)) + [64, 100, 200]:
        ts = [seq("Wide", [mem(f"m{i}", INT(0, 2**(8 + i % 9) - 1))
                           for i in range(n)])]
        full = [[f"m{i}", 1 + i] for i in range(n)]
        msgs = [full, full[::-1], full[1::2] + full[::2], full[-1:],
                full[n // 2:], full[:1]]
        yield case(ts, [[("a", "Wide", w)] for w in msgs], PLACES[n % 4])
    for n in list(range(2, 21)) + [40, 80]:
        ts = [seq(f"K{i}", [mem(nm("x", i), INT(0, 255)),
                            mem(nm("y", i), INT(0, 4095))])
              for i in range(n)]
        wc = [[[nm("x", i), 1 + i], [nm("y", i), 300 + i]] for i in range(n)]
        msgs = [[(f"a{i}", f"K{i}", wc[i] if use(i) else None)
                 for i in range(n)] for use in (
                     lambda i: True, lambda i: i == n - 1, lambda i: i % 2,
                     lambda i: i == 0)]
        yield case(ts, msgs)
    # many members without values before, between and after those with values
    for n in (30, 100, 300):
        ts = [seq("Wide", [mem(f"m{i}", INT(0, 255)) for i in range(n)]),
              seq("Low", [mem("v", INT(0, 255)), mem("w", BOOL)]),
              seq("Mid", [mem("low", REF("Low")), mem("k", INT(0, 4095))]),
              seq("Top", [mem("mid", REF("Mid")), mem("j", INT(0, 99))])]
        wc = [["j", 42], ["mid", {"wc": [["k", 777], ["low", {"wc": [
            ["w", True], ["v", 9]]}]]}]]
        msgs = [[("f", "Wide", None), ("a", "Top", wc)],
                [("a", "Top", wc), ("f", "Wide", None)],
                [("f", "Wide", None), ("a", "Top", wc), ("g", "Wide", None),
                 ("z", "Low", None)],
                [("f", "Wide", None), ("e", "Top", None), ("a", "Top", wc)]]
        yield case(ts, msgs, PLACES[n % 4])
    ts = [seq("One", [mem("x", INT(0, 65535)), mem("y", BOOL)])]
    for n in (100, 300):
        yield case(ts, [[("a", "One", [["x", i], ["y", i % 2 == 0]][
            :1 + i % 2])] for i in range(n)])


def leaf_names(wc):
    for k, v in wc:
        if isinstance(v, dict) and "wc" in v:
            yield from leaf_names(v["wc"])
        else:
            yield k


def distinct(spec):
    n = [k for *_, wc in spec if wc for k in leaf_names(wc)]
    return len(n) == len(set(n))
