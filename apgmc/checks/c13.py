import copy
import itertools

from .. import common, runner, sweeps
from ..asn import (ARR, BOOL, INT, NULL, REAL, REF, STR, WC, N, alias, choice,
                   enum, imp, mem, module, seq)
from .c01 import scheme

LEVEL = "model_checking"
BOUNDS = {
    "quick": "a consistent bundle of 4 modules using every construct; every "
             "single defect (14 kinds) at every position where it can be "
             "written, with all four commands (messages of a faulty and of "
             "an unrelated module) and two file orders; every pair of "
             "defects out of one representative per kind and module; all 10 "
             "POSIX names with 9 wrong ranges; all lists over the module "
             "names of up to 5 entries as --asn1-modules; every name in use "
             "replaced by up to 11 undefined names close to it; all single defects "
             "again with comments everywhere and among (before, behind) 20 more "
             "modules, 45 more definitions, 25 more imported names, 45 more members, "
             "40 more components; 25 reversed ranges of all magnitudes; wrong "
             "components at every depth of up to 20; all import-closed "
             "sub-bundles in all orders and all naming schemes of C01 accepted",
    "thorough": "as quick, with all pairs of single defects and lists of up "
                "to 6 entries",
}
ASSUMPTIONS = ["WITH COMPONENTS on a member of a built-in type is accepted "
               "and ignored by APG on purpose (pinned by its tests)"]
U8 = INT(0, 255)


def base():
    core = module("core", [
        alias("Uint8-t", U8), alias("Five", INT(0, 31)),
        alias("Ratio", REAL("-1.0", "1.0")), alias("Tag", STR(4)),
        enum("Mode", ["off", "on"]),
        seq("Leaf", [mem("x", REF("Five")), mem("y", BOOL),
                     mem("m", REF("Mode"))]),
    ])
    mid = module("mid-dle", [
        seq("Node", [mem("leaf", REF("Leaf")), mem("k", INT(-5, 5)),
                     mem("list", ARR(3, REF("Uint8-t")))]),
        alias("Level", REAL("0.0", "10.0")),
        seq("Fixed", [
            mem("before", REF("Level")),
            mem("node", REF("Node"), wc=WC(
                ("k", 3), ("leaf", N(("x", 7), ("y", True))))),
            mem("after", REF("Node"))]),
    ], [imp(["Leaf", "Uint8-t"], "core")])
    top = module("top", [
        enum("Kind", [["p", 1], ["q", 0]]),
        seq("Msg", [
            mem("hdr", REF("Node"), wc=WC(
                ("leaf", N(("y", False),)))),
            mem("kind", REF("Kind")), mem("txt", STR(8)),
            mem("val", INT(1, 1000)), mem("r", REAL("2.5", "3.5")),
            mem("leaf", REF("Leaf"), wc=WC(("x", 1))),
            mem("arr", ARR(2, REF("Kind")))]),
    ], [imp(["Node"], "mid-dle"), imp(["Leaf"], "core")])
    iso = module("iso", [
        alias("Int16-t", INT(-2**15, 2**15 - 1)),
        seq("Alone", [mem("a", REF("Int16-t")), mem("b", INT(0, 7))]),
    ])
    return [core, mid, top, iso]


# what each module may be asked for in COSMOS
MSG = {"core": "Leaf", "mid-dle": "Node", "top": "Msg", "iso": "Alone"}


def type_slots(b):
    """paths of all member / alias types (and array element types)"""
    for mi, m in enumerate(b):
        for di, d in enumerate(m["defs"]):
            if d["k"] in ("seq", "choice"):
                for k, x in enumerate(d["m"]):
                    p = [mi, "defs", di, "m", k, "t"]
                    yield p
                    if x["t"]["t"] == "arr":
                        yield p + ["e"]
            elif d["k"] == "alias":
                yield [mi, "defs", di, "t"]


def get(b, path):
    for k in path:
        b = b[k]
    return b


def put(b, path, v):
    get(b, path[:-1])[path[-1]] = v


def wc_slots(b):
    """paths of all component lists"""
    def rec(p, wc):
        yield p
        for i, (_, v) in enumerate(wc):
            if isinstance(v, dict) and "wc" in v:
                yield from rec(p + [i, 1, "wc"], v["wc"])
    for mi, m in enumerate(b):
        for di, d in enumerate(m["defs"]):
            for k, x in enumerate(d.get("m", [])):
                if x.get("wc"):
                    yield from rec([mi, "defs", di, "m", k, "wc"], x["wc"])


def defects():
    """list of (kind, module index, edit); an edit is [[op, path, value]..]"""
    b = base()
    out = []

    def add(kind, mi, *ops):
        out.append({"kind": kind, "mod": mi, "ops": [list(o) for o in ops]})

    names = {d["name"]: mi for mi, m in enumerate(b) for d in m["defs"]}
    for p in type_slots(b):
        t = get(b, p)
        elem = p[-1] == "e"
        add("undefined", p[0], ("put", p, REF("Nope")))
        if not elem and t["t"] != "arr":
            add("undefined", p[0], ("put", p, ARR(2, REF("Nope"))))
            add("undefined", p[0], ("put", p, ARR(2, ARR(3, REF("Nope")))))
            add("null", p[0], ("put", p, ARR(2, NULL)))
        add("null", p[0], ("put", p, NULL))
        add("negative", p[0], ("put", p, STR(-1)))
        add("negative", p[0], ("put", p, STR(-40, "NumericString")))
        some = next((d["name"] for d in b[p[0]]["defs"]
                     if d["k"] == "alias"), None)
        if not elem and some:
            add("negative", p[0], ("put", p, ARR(-1, REF(some))))
            add("negative", p[0], ("put", p, ARR(-300, REF(some))))
            add("negative", p[0], ("put", p, ARR(2, ARR(-3, REF(some)))))
            add("negative", p[0], ("put", p, ARR(-2, ARR(2, REF(some)))))
        add("reversed", p[0], ("put", p, INT(8, 7)))
        add("reversed", p[0], ("put", p, INT(-1, -2)))
        add("reversed", p[0], ("put", p, REAL("1.5", "1.0")))
        # defined elsewhere, but neither imported nor built in
        seen = {d["name"] for d in b[p[0]]["defs"]}
        for im in b[p[0]]["imports"]:
            seen |= set(im["names"])
        other = [n for n in names if n not in seen]
        if other and not (len(p) == 4 and p[1] == "defs"):
            add("not-imported", p[0], ("put", p, REF(other[0])))
    for mi, m in enumerate(b):
        n = len(m["defs"])
        # extra definitions at the start, in the middle, at the end
        for at in sorted({0, n // 2, n}):
            add("undefined", mi, ("ins", [mi, "defs"], at, seq(
                "Extra", [mem("a", U8), mem("b", REF("Nope"))])))
            add("undefined", mi, ("ins", [mi, "defs"], at, choice(
                "Extra", [mem("a", REF("Nope"))])))
            add("null", mi, ("ins", [mi, "defs"], at, alias("Nil", NULL)))
            add("null", mi, ("ins", [mi, "defs"], at, choice(
                "Extra", [mem("a", U8), mem("b", NULL)])))
            add("reversed", mi, ("ins", [mi, "defs"], at, choice(
                "Extra", [mem("a", INT(3, 2))])))
        # a type defined twice: same or other kind, same or other module
        for di, d in enumerate(m["defs"]):
            for mj in range(len(b)):
                for new in (copy.deepcopy(d), enum(d["name"], ["zz", "zy"]),
                            seq(d["name"], [mem("z", U8)])):
                    if new == d and mj != mi:
                        continue    # would need the imports too
                    if d["k"] == "alias" and d["name"].endswith("-t"):
                        if new["k"] != "alias":
                            continue
                    at = (di + mj) % (len(b[mj]["defs"]) + 1)
                    add("twice", mj, ("ins", [mj, "defs"], at, new))
        # imports
        for ii, im in enumerate(m["imports"]):
            p = [mi, "imports", ii]
            add("no-module", mi, ("put", p + ["from"], "nowhere"))
            add("no-name", mi, ("put", p + ["names"],
                                im["names"] + ["Nope"]))
            add("no-name", mi, ("put", p + ["names"],
                                ["Nope"] + im["names"]))
            add("no-name", mi, ("put", p + ["names"],
                                im["names"] + ["Alone"]))
            if len(im["names"]) > 1:
                for k in range(len(im["names"])):
                    add("not-imported", mi,
                        ("put", p + ["names"],
                         im["names"][:k] + im["names"][k + 1:]))
            other = "iso" if im["from"] != "iso" else "core"
            add("no-name", mi, ("put", p + ["from"], other))
        for at in range(len(m["imports"]) + 1):
            add("no-module", mi, ("ins", [mi, "imports"], at,
                                  imp(["Ghost"], "nowhere")))
            if m["name"] != "iso":
                add("no-name", mi, ("ins", [mi, "imports"], at,
                                    imp(["Ghost"], "iso")))
        # the same module name twice
        for at in (0, len(b)):
            add("module-twice", mi, ("ins", [], at, module(
                m["name"], [seq("Some", [mem("s", U8)])])))
        add("module-twice", mi, ("ins", [], len(b), copy.deepcopy(m)))
    for p in wc_slots(b):
        wc = get(b, p)
        for at in range(len(wc) + 1):
            add("component", p[0], ("ins", p, at, ["ghost", 1]))
            add("component", p[0], ("ins", p, at,
                                    ["ghost", N(("x", 1))]))
        for i in range(len(wc)):
            add("component", p[0], ("put", p + [i, 0], "ghost"))
            # a name that exists one level up or down, not here
            add("component", p[0], ("put", p + [i, 0], "kind"))
            # components of a component that has none
            for k, v in (("x", 1), ("m", "on"), ("ghost", True)):
                leaf = {"leaf": "x", "x": "x", "y": "m"}.get(wc[i][0])
                if wc[i][0] == "leaf":
                    add("component", p[0], ("put", p + [i, 1],
                                            N((leaf, N((k, v))))))
                elif wc[i][0] == "x":
                    add("component", p[0], ("put", p + [i, 1], N((k, v))))
    # components of a member whose type has none: alias, enumeration
    seqs = {d["name"] for m in b for d in m["defs"] if d["k"] == "seq"}
    for p in type_slots(b):
        t = get(b, p)
        if p[-2] != "t" and len(p) == 6 and t["t"] == "ref" \
                and t["r"] not in seqs:
            q = p[:-1] + ["wc"]
            for n in (1, 2, 5, 25):
                add("component", p[0], ("put", q, WC(
                    *[(f"g{chr(97 + i)}", i) for i in range(n)])))
            add("component", p[0], ("put", q, WC(("x", N(("y", 1))))))
            add("component", p[0], ("put", q, WC(("value", True))))
            add("component", p[0], ("put", q, WC(("off", 0))))
    return out


def near(n):
    """names that a careless comparison takes for n"""
    out = [n + "x", n + "-x", n + "1", n + "s", n + n.lower(), n + "-" +
           n.lower()]
    if len(n) > 1:
        out += [n[:-1].rstrip("-"), n[0] + n[2:].lstrip("-")]
    if "-" in n:
        out += [n.split("-")[0], n.replace("-", "")]
    if n[0].islower():
        out += ["x" + n, "x-" + n]
        if "-" in n:
            out.append(n.split("-", 1)[1])
    return list(dict.fromkeys(x for x in out if x and x != n))


def near_defects():
    """every use of a name replaced by a name close to it that is undefined
    (there), and types that look built in but are not defined"""
    b = base()
    out = []
    types = {d["name"] for m in b for d in m["defs"]}
    mods = {m["name"] for m in b}

    def add(kind, mi, path, v):
        out.append({"kind": kind, "mod": mi, "ops": [["put", path, v]]})
    for p in type_slots(b):
        t = get(b, p)
        if t["t"] == "ref":
            for n in near(t["r"]):
                if n not in types:
                    add("undefined", p[0], p, REF(n))
    for p in [next(q for q in type_slots(b) if q[0] == mi and len(q) > 4)
              for mi in range(len(b))]:
        for n in ("Float", "Double", "Uint16-t", "Int8-t", "Uint", "Int",
                  "Uint8", "Integer", "Real", "Boolean", "Null", "Sequence",
                  "Ia5string", "String", "Char", "Bool", "T", "Module"):
            add("undefined", p[0], p, REF(n))
    for mi, m in enumerate(b):
        for ii, im in enumerate(m["imports"]):
            p = [mi, "imports", ii]
            for n in near(im["from"]):
                if n not in mods:
                    add("no-module", mi, p + ["from"], n)
            have = next(x for x in b if x["name"] == im["from"])["defs"]
            have = {d["name"] for d in have}
            for k, o in enumerate(im["names"]):
                for n in near(o):
                    if n not in have:
                        add("no-name", mi, p + ["names"], im["names"] + [n])
                        add("no-name", mi, p + ["names"], im["names"][:k]
                            + [n] + im["names"][k + 1:])
            # a member or item of the module, not a type
            add("no-name", mi, p + ["names"], im["names"] + ["X"])
    for p in wc_slots(b):
        for i, (k, v) in enumerate(get(b, p)):
            for n in near(k):
                # Leaf has x, y, m; Node has leaf, k, list
                if n not in ("x", "y", "m", "leaf", "k", "list"):
                    add("component", p[0], p + [i, 0], n)
    return out


def apply(b, d):
    for op in d["ops"]:
        if op[0] == "put":
            put(b, op[1], copy.deepcopy(op[2]))
        else:
            get(b, op[1]).insert(op[2], copy.deepcopy(op[3]))
    return b


def inflate(b, last=False):
    """the same bundle with many more modules, definitions, imported names,
    members and components, all in order, before (or after) those there are"""
    b = copy.deepcopy(b)
    env = {d["name"]: d for m in b for d in m["defs"]}
    fill = [f"fill-{common.name_of(i)}" for i in range(45)]

    def join(old, new):
        return old + new if last else new + old

    def comps(wc, t):
        """all of t's members that were added here get a value, too"""
        d = env.get(t["r"]) if t["t"] == "ref" else None
        if d is None or d["k"] != "seq":
            return wc
        ts = {m["n"]: m["t"] for m in d["m"]}
        wc = [[k, {"wc": comps(v["wc"], ts[k])}
               if isinstance(v, dict) and "wc" in v and k in ts else v]
              for k, v in wc]
        return join(wc, [[f, 1] for f in fill[:40]])
    names = list(dict.fromkeys(m["name"] for m in b))
    for m in b:
        for d in m["defs"]:
            for x in d.get("m", ()):
                if x.get("wc"):
                    x["wc"] = comps(x["wc"], x["t"])
    for m in b:
        for d in m["defs"]:
            if d["k"] == "seq":
                d["m"] = join(d["m"], [mem(f, U8) for f in fill])
        for i in m["imports"]:
            if i["from"] in names:
                k = names.index(i["from"])
                i["names"] = join(i["names"], [f"F{k}-{f}"
                                               for f in fill[:25]])
    done = set()
    for m in b:
        k = names.index(m["name"])
        if k in done:
            continue    # the same module twice
        done.add(k)
        m["defs"] = join(m["defs"], [
            alias(f"F{k}-{f}", U8) if i % 3 else
            enum(f"F{k}-{f}", [f"i{k}-{f}-{j}" for j in range(4)])
            for i, f in enumerate(fill)])
    extra = [module(f"more-{f}", [seq(f"More-{f}", [mem("a", U8)])])
             for f in fill[:20]]
    for m in b:
        m["imports"] = join(m["imports"], [imp([f"More-{f}"], f"more-{f}")
                                           for f in fill[:20]])
    return join(b, extra)


VARIANTS = {"commented": sweeps.commented, "before": inflate,
            "after": lambda b: inflate(b, True)}

REVERSED = [INT(a, z) for a, z in (
    (1, 0), (0, -1), (10, 9), (100, 99), (1000, 999), (20, 3), (-1, -10),
    (-9, -10), (2**31, 2**31 - 1), (2**63, 2**63 - 1), (2**64 - 1, 2**63),
    (2**53 + 1, 2**53), (255, 0), (127, -128), (1, -1))] + [
    REAL(a, z) for a, z in (
        ("1.0", "0.5"), ("10.0", "9.0"), ("1.0e5", "9.0e4"),
        ("-1.0", "-1.5"), ("1.0e-3", "1.0e-4"), ("0.0", "-0.1"),
        ("3.4e38", "-3.4e38"), ("1.0e300", "1.0e299"), ("0.2", "0.1"),
        ("1.0000001", "1.0"))]


def deep(n, wrong=None, at=0):
    """n nested component lists; at level `wrong` a component does not exist"""
    ds = [seq("D0", [mem("v", U8), mem("w", U8)])]
    for i in range(1, n + 1):
        ds.append(seq(f"D{i}", [mem("v", U8), mem("in", REF(f"D{i - 1}")),
                                mem("w", U8)]))

    def comps(i):
        c = [["v", 1], ["w", 2]]
        if i:
            c.insert(1, ["in", {"wc": comps(i - 1)}])
        if i == wrong:
            c.insert(at % (len(c) + 1), ["ghost", 3])
        return c
    ds.append(seq("Top", [mem("top", REF(f"D{n}"), wc=comps(n))]))
    return [module("deep", ds[::-1] if n % 2 else ds)]


POSIX = dict(common.POSIX, **{
    "Float": REAL("-3.4e38", "3.4e38"),
    "Double": REAL("-1.7976931348623157e308", "1.7976931348623157e308")})


def posix_cases():
    for name, t in common.POSIX.items():
        lo, hi = t["lo"], t["hi"]
        wrong = {(lo, hi + 1), (lo, hi - 1), (lo + 1, hi), (lo - 1, hi),
                 (lo, (hi - 1) // 2), (lo, hi * 2 + 1), (0, 0), (0, 1),
                 (lo + 1, hi + 1), (-1, hi)}
        wrong.discard((lo, hi))
        yield name, [INT(a, z) for a, z in sorted(wrong)] + [
            BOOL, STR(3), REAL("0.0", "1.0"), INT(None, None)]
    big = POSIX["Double"]["hi"]
    for name, hi, other in (("Float", "3.4e38", big), ("Double", big,
                                                       "3.4e38")):
        yield name, [REAL("-" + hi, "3.3e38"), REAL("-3.3e38", hi),
                     REAL("0.0", hi), REAL("-1.0", "1.0"),
                     REAL("-" + other, other), REAL("-" + hi, "1.0"), BOOL,
                     INT(-5, 5), STR(3), REAL(None, None)]


def cases(tier):
    sp = lambda n, t=None: {"states": n, "transitions": n * (t or 1)}  # noqa
    ds = defects()
    for i in range(0, len(ds), 12):
        yield {"single": list(range(i, min(i + 12, len(ds)))),
               "_space": sp(len(ds[i:i + 12]), 2)}
    for v in VARIANTS:
        for i in range(0, len(ds), 12):
            yield {"variant": v, "of": list(range(i, min(i + 12, len(ds)))),
                   "_space": sp(len(ds[i:i + 12]))}
        yield {"variant": v, "of": None, "_space": sp(1)}
    for i in range(0, len(REVERSED), 5):
        yield {"reversed": REVERSED[i:i + 5],
               "_space": sp(len(REVERSED[i:i + 5]), 4)}
    for n in list(range(1, 13)) + [20]:
        yield {"deep": n, "_space": sp(n + 2)}
    if tier == "thorough":
        pick = list(range(len(ds)))
    else:
        pick, have = [], set()
        for i, d in enumerate(ds):
            key = (d["kind"], d["mod"])
            if key not in have:
                have.add(key)
                pick.append(i)
    pairs = list(itertools.combinations(pick, 2))
    for i in range(0, len(pairs), 40):
        yield {"pairs": pairs[i:i + 40],
               "_space": sp(len(pairs[i:i + 40]), 2)}
    nd = near_defects()
    for i in range(0, len(nd), 16):
        yield {"near": list(range(i, min(i + 16, len(nd)))),
               "_space": sp(len(nd[i:i + 16]))}
    for i, (label, _, _) in enumerate(sweeps.named()):
        yield {"scheme": label, "rot": i, "_space": sp(1)}
    lists = [x for n in ("core", "mid-dle") for y in near(n)
             for x in (["core", "mid-dle", y], [y if z == n else z
                                                for z in ("core", "mid-dle")],
                       [y, "mid-dle", "core"])]
    yield {"lists": lists, "_space": sp(len(lists))}
    for name, wrong in posix_cases():
        yield {"posix": name, "wrong": wrong, "_space": sp(len(wrong))}
    # sub-bundles closed under import
    need = {0: set(), 1: {0}, 2: {0, 1}, 3: set()}
    for k in range(1, 5):
        for sub in itertools.combinations(range(4), k):
            if all(need[i] <= set(sub) for i in sub):
                yield {"sub": list(sub), "_space": sp(1)}
            else:
                yield {"unclosed": list(sub), "_space": sp(1)}
    names = ["core", "mid-dle", "nowhere", "mid"]
    top = 5 if tier == "quick" else 6
    lists = [list(x) for n in range(1, top + 1)
             for x in itertools.product(names[:3] if n > 3 else names,
                                        repeat=n)]
    for i in range(0, len(lists), 60):
        yield {"lists": lists[i:i + 60], "_space": sp(len(lists[i:i + 60]))}


def kwargs(kind, msgmod="core"):
    if kind == "binary":
        return {"endian": "little"}
    if kind == "cosmos":
        return {"module": msgmod, "messages": [MSG[msgmod]]}
    return {}


def expect_refusal(bundle, r, kind, what, names=None, msgmod="core", **kw):
    with runner.scratch() as wd:
        paths = runner.write_inputs(
            wd + "/in", bundle, names=[f"f{i}.asn"
                                       for i in range(len(bundle))])
        if kw.pop("back", False):
            paths = paths[::-1]
        mods = kw.pop("mods", None)
        if mods is None:
            mods = list(dict.fromkeys(m["name"] for m in bundle))
        argv = runner.argv_for(kind, bundle, paths, wd + "/out", mods=mods,
                               **kwargs(kind, msgmod))
        rc, text = runner.run_cli(argv, wd)
    r.n["cli_runs"] += 1
    r.outcome(kind, what, rc)
    if rc == 0:
        r.bad(f"generate-{kind} accepts: {what}")
    elif rc == "hang":
        r.bad(f"generate-{kind} does not end: {what}")


def strip(b):
    """without WITH COMPONENTS and CHOICE: what generate-binary supports"""
    b = copy.deepcopy(b)
    for m in b:
        for d in m["defs"]:
            for x in d.get("m", []):
                x["wc"] = None
    return b


def run(case, r):
    if "single" in case:
        ds = defects()
        for i in case["single"]:
            d = ds[i]
            what = f"{d['kind']} in module {d['mod']}: {d['ops']}"[:300]
            b = apply(base(), d)
            r.n["validated"] += 1
            for k, kind in enumerate(("cfs", "c", "cosmos", "cosmos",
                                      "binary")):
                if kind == "binary":
                    if d["kind"] == "component":
                        continue
                    bb = strip(b)
                else:
                    bb = b
                # COSMOS: a message of the faulty module, then of another
                msgmod = (base()[d["mod"]]["name"] if k == 2 else
                          "iso" if d["mod"] != 3 else "core")
                expect_refusal(bb, r, kind, what, msgmod=msgmod,
                               back=(i + k) % 2 == 1)
    elif "variant" in case:
        how = VARIANTS[case["variant"]]
        if case["of"] is None:
            accept(how(base()), r, dict(MSG, **{
                m["name"]: m["defs"][0]["name"] for m in how(base())
                if m["name"] not in MSG}))
            return
        ds = defects()
        for i in case["of"]:
            d = ds[i]
            b = how(apply(base(), d))
            kind = ("cfs", "cosmos", "c", "cosmos", "binary")[i % 5]
            if kind == "binary":
                if d["kind"] == "component":
                    kind = "c"
                else:
                    b = strip(b)
            expect_refusal(b, r, kind, f"{d['kind']} in module {d['mod']} "
                           f"({case['variant']}): {d['ops']}"[:300],
                           msgmod=base()[d["mod"]]["name"] if i % 2 else
                           "iso" if d["mod"] != 3 else "core",
                           back=i % 3 == 1)
            r.n["validated"] += 1
    elif "reversed" in case:
        MSG["rev"] = "Leaf"
        for t in case["reversed"]:
            for k, ds in enumerate((
                    [alias("Odd", t)], [seq("Odd", [mem("x", t)])],
                    [seq("Odd", [mem("a", U8), mem("x", t), mem("b", BOOL)])],
                    [choice("Odd", [mem("a", U8), mem("x", t)])])):
                leaf = [seq("Leaf", [mem("x", INT(0, 7))])]
                b = [module("rev", leaf + ds if k % 2 else ds + leaf)]
                for kind in ("cfs", "c", "binary", "cosmos"):
                    expect_refusal(b, r, kind, f"{t} in {ds}"[:200],
                                   msgmod="rev")
            r.n["validated"] += 1
    elif "deep" in case:
        n = case["deep"]
        MSG["deep"] = "Top"
        accept(deep(n), r, {"deep": "Top"})
        for i in range(n + 1):
            for k, kind in enumerate(("cfs", "c", "cosmos")):
                expect_refusal(deep(n, i, i + k), r, kind,
                               f"component at depth {i} of {n}",
                               msgmod="deep")
            r.n["validated"] += 1
    elif "near" in case:
        ds = near_defects()
        for i in case["near"]:
            d = ds[i]
            kind = ("cfs", "cosmos", "c", "cosmos")[i % 4]
            expect_refusal(apply(base(), d), r, kind,
                           f"{d['kind']} in module {d['mod']}: {d['ops']}"
                           [:300], msgmod=base()[d["mod"]]["name"],
                           back=i % 3 == 1)
            r.n["validated"] += 1
    elif "scheme" in case:
        b, maps = scheme(case)
        k = case["rot"]
        msgs = {m: ms[-1] for m, ms in sweeps.messages(maps)}
        accept((b, b[::-1], [b[1], b[2], b[0]])[k % 3], r, msgs)
    elif "pairs" in case:
        ds = defects()
        for i, j in case["pairs"]:
            b = base()
            try:
                # the second edit's paths refer to the unedited bundle: apply
                # the one further back first
                for d in sorted((ds[i], ds[j]),
                                key=lambda d: str(d["ops"][0][1]),
                                reverse=True):
                    apply(b, d)
            except (KeyError, IndexError, TypeError):
                r.n["pairs_not_combinable"] += 1
                continue
            kind = ("cfs", "c", "cosmos")[(i + j) % 3]
            expect_refusal(b, r, kind, f"{ds[i]['kind']} and {ds[j]['kind']}: "
                           f"{ds[i]['ops']} {ds[j]['ops']}"[:400],
                           msgmod="iso", back=i % 2 == 1)
            r.n["validated"] += 1
    elif "posix" in case:
        for k, t in enumerate(case["wrong"]):
            b = [module("px", [seq("Leaf", [mem("x", INT(0, 7))]),
                               alias(case["posix"], t)])]
            for kind in ("cfs", "c", "binary", "cosmos"):
                if kind == "cosmos":
                    MSG["px"] = "Leaf"
                expect_refusal(b, r, kind, f"{case['posix']} ::= {t}",
                               msgmod="px")
            r.n["validated"] += 1
        ok = [module("px", [seq("Leaf", [mem("x", REF(case["posix"]))]),
                            alias(case["posix"], POSIX[case["posix"]])])]
        accept(ok, r, {"px": "Leaf"})
    elif "sub" in case:
        b = base()
        for o in itertools.permutations(case["sub"]):
            accept([b[i] for i in o], r, MSG)
    elif "unclosed" in case:
        b = [base()[i] for i in case["unclosed"]]
        for k, kind in enumerate(("cfs", "c", "binary", "cosmos")):
            expect_refusal(strip(b), r, kind, f"modules {case['unclosed']}",
                           msgmod=b[0]["name"], back=k % 2)
        r.n["validated"] += 1
    else:
        for k, mods in enumerate(case["lists"]):
            b = strip(base()[:2])
            kind = ("cfs", "c", "binary")[k % 3]
            if sorted(mods) == ["core", "mid-dle"]:
                accept(b, r, None, kinds=(kind,), mods=mods)
            else:
                expect_refusal(b, r, kind, f"--asn1-modules {mods}",
                               mods=mods)
            r.n["validated"] += 1


def accept(bundle, r, msg, kinds=("cfs", "c", "binary", "cosmos"), mods=None):
    for kind in kinds:
        if kind == "cosmos":
            todo = [{"module": m["name"], "messages": [msg[m["name"]]]}
                    for m in bundle]
        else:
            todo = [dict(kwargs(kind), mods=mods)]
        for kw in todo:
            with runner.scratch() as wd:
                res = runner.generate(
                    kind, strip(bundle) if kind == "binary" else bundle, wd,
                    **kw)
            r.n["cli_runs"] += 1
            if not res.ok:
                r.bad(f"generate-{kind} refuses consistent modules "
                      f"{[m['name'] for m in bundle]}: {res.why()}")
    r.n["validated"] += 1
    r.outcome("accepted", [m["name"] for m in bundle])
