"""Relates the outputs of two generators with each other; the reference model
only names the leaf members."""
import itertools

from .. import common, cosmos, cprobe, kinds, model, runner, sweeps, trees
from ..asn import (ARR, BOOL, CMT, INT, REF, WC, N, enum, mem, module, seq)
from ..engine import chunks
from . import c01

LEVEL = "model_checking"
NOT = ("Rs", "Rbool", "R5", "Re")      # known findings, explored separately
FULL = [k for k in kinds.KINDS if k not in NOT]
BOUNDS = {
    "quick": f"all messages of 1 and 2 members over {len(FULL)} member kinds, "
             "of 3 over the core kinds, equal runs, lengths and depths as in "
             "C01; all widths 1..64, every base type in every way of use "
             "as in C01, up to 300 members, all naming schemes "
             "of C01, enumerations of 1..40 and around every power of two up "
             "to 1025 items; all 2^4 header specifications x 9 APIDs for the "
             "message id, all trees of fixed components of C07 (macros and "
             "identifier values compared); both generators run on the same files, the C side measured "
             "through the compiler",
    "thorough": f"all messages of 1..3 members over {len(FULL)} member kinds, "
                "of 4 over the core kinds, and all of the above",
}
ASSUMPTIONS = [
    common.A_TRUST,
    "offsets are compared for members whose predecessors all end on byte "
    "boundaries (COSMOS is big endian and does not pad nested packets)"]
PER = 120

HDR = [
    seq("Packet-ident", [mem("packet-version-number", INT(0, 7)),
                         mem("packet-type-is-cmd", BOOL),
                         mem("sec-hdr-flag-is-present", BOOL),
                         mem("application-process-identifier", INT(0, 2047))]),
    seq("Primary", [mem("packet-identification", REF("Packet-ident")),
                    mem("len", INT(0, 65535))]),
    seq("Header", [mem("primary", REF("Primary")), mem("sec", INT(0, 255))]),
]


def hdr_msgs():
    for v, c, s in itertools.product((0, 1, 5, 7), (0, 1), (0, 1)):
        for apid in (0, 1, 9, 10, 255, 256, 1000, 1365, 2047):
            yield [v, c, s, apid]


FINDINGS = {
    "array-bool": ARR(3, BOOL), "array-5bit": ARR(2, REF("Five")),
    "array-enum": ARR(4, REF("Three")), "array-sequence": ARR(2, REF("Whole")),
}


def cases(tier):
    st, tr = c01.space(tier)
    st = [w for w in st if not set(NOT) & set(w)]
    for g in chunks(st, PER):
        yield {"words": [list(w) for w in g],
               "_space": {"states": len(g), "transitions": tr}}
        tr = 0
    lens = [w for w in c01.lengths() if w[1]["t"] == "str"
            or w[1]["e"]["r"] not in ("Five", "Three", "Whole", "Flag")]
    for g in chunks(lens, PER):
        yield {"words": g, "_space": {"states": len(g),
                                      "transitions": sum(map(len, g))}}
    for g in chunks(hdr_msgs(), 48):
        yield {"hdr": g, "_space": {"states": len(g),
                                    "transitions": 4 * len(g)}}
    for g in chunks(sweeps.words(tier, NOT), PER):
        yield {"words": g, "_space": {"states": len(g),
                                      "transitions": sum(map(len, g))}}
    yield {"widths": 64, "_space": {"states": 128, "transitions": 320}}
    for place in sweeps.PLACES:
        yield {"grid": place, "_space": {"states": 380, "transitions": 950}}
    yield {"fanout": 7, "_space": {"states": 4, "transitions": 2000}}
    for label, _, _ in sweeps.named():
        yield {"scheme": label, "_space": {"states": 6, "transitions": 6}}
    defs, specs = trees.trees("quick", False)
    specs = [s for s in specs if trees.distinct(s)]
    for g in chunks(specs, 100):
        yield {"types": defs, "msgs": g, "_space": {
            "states": len(g), "transitions": sum(
                trees.count(wc) for s in g for *_, wc in s if wc)}}
    yield from trees.value_cases(kinds.HELPERS)
    for n in sweeps.ENUMS:
        yield {"enum": n, "_space": {"states": 1, "transitions": n}}
    for k, t in FINDINGS.items():
        yield {"words": [[t]], "finding": k,
               "_space": {"states": 1, "transitions": 1}}


def run(case, r):
    if "hdr" in case:
        return run_hdr(case, r)
    if "msgs" in case:
        return run_fixed(case, r)
    if "scheme" in case:
        return run_scheme(case, r)
    if "enum" in case:
        n = case["enum"]
        order = sorted(range(n), key=lambda i: (i * 7) % n if n % 7 else i)
        ss = [seq("Msg", [mem("x", REF("Big")), mem("y", REF("Given"))])]
        defs = [enum("Big", [f"x{i}" for i in range(n)]),
                enum("Given", [[f"y{i}", i] for i in order])] + ss
    elif "grid" in case:
        bundle, names = sweeps.grid(case["grid"], False, False, False)
        ss = [d for d in bundle[0]["defs"] if d["name"] in names]
    elif "widths" in case:
        defs = sweeps.alias_widths()[0]["defs"]
        ss = [d for d in defs if d["k"] == "seq"]
    elif "words" in case:
        ss = [kinds.struct("S" + common.name_of(i), w)
              for i, w in enumerate(case["words"])]
        defs = list(kinds.HELPERS) + ss
    if "fanout" in case:
        bundle = sweeps.fanout(case["fanout"])[0]
        ss = bundle[0]["defs"]
    elif "grid" not in case:
        bundle = [module("both", defs)]
    env = model.env_of(bundle)
    with runner.scratch() as wd:
        pk = common.run_cosmos(bundle, bundle[0]["name"],
                               [s["name"] for s in ss], r, wd)
        res = runner.generate("cfs", bundle, wd, sub="cfs")
        r.n["cli_runs"] += 2
        if not res.ok:
            r.bad(f"generate-cfs failed: {res.why()}")
        if pk is None or not res.ok:
            return
        enums = common.defs_of(bundle, "enum")
        ok, out = cprobe.compile_run(
            cprobe.probe_source([bundle[0]["name"] + "_msg.h"], ss, enums,
                                env), wd,
            [wd + "/cfs"])
        if not ok:
            r.bad(out)
            return
        sizes, leaves, ev = cprobe.parse_output(out)
        for s, p in zip(ss, pk):
            compare(s, p, env, sizes, leaves, ev, r)


def compare(s, p, env, sizes, leaves, ev, r):
    T = model.cname(s["name"])
    r.n["validated"] += 1
    # group C leaves into items: array elements belong to one item
    groups = []
    for path, sh, *_ in model.c_leaves(s, env):
        key = path.split("[")[0]
        if not groups or groups[-1][0] != key:
            groups.append((key, []))
        groups[-1][1].append((path, sh))
    names = [k.split(".")[-1].replace("_", "-") for k, _ in groups]
    if p["name"] != s["name"] or [i["name"] for i in p["items"]] != names:
        r.bad(f"{T}: cFS members {names}, COSMOS {p['name']} "
              f"{[i['name'] for i in p['items']]}")
        return
    pos, aligned = 0, True
    for (key, ls), it in zip(groups, p["items"]):
        bits = [cprobe.bits_of(leaves[(T, path)][0]) for path, _ in ls]
        flags = leaves[(T, ls[0][0])][1]
        w = len(bits[0])
        if it["w"] != w:
            r.bad(f"{T}.{key}: {w} bits in C, {it['w']} bits in COSMOS")
        total = it["w"] if it["arr"] is None else it["arr"]
        ctotal = bits[-1][-1] - bits[0][0] + 1
        if total != ctotal:
            r.bad(f"{T}.{key}: {ctotal} bits in all in C, {total} in COSMOS")
        kind = {"u": "UINT", "s": "INT", "f": "FLOAT", "d": "FLOAT",
                "c": "STRING"}[flags[0]]
        if it["type"] != kind:
            r.bad(f"{T}.{key}: {kind} in C, {it['type']} in COSMOS")
        if aligned and w % 8 == 0 and bits[0][0] != pos:
            r.bad(f"{T}.{key}: at bit {bits[0][0]} in C, {pos} in COSMOS")
        aligned = aligned and w % 8 == 0
        pos += total
        sh = ls[0][1]
        if sh["s"] == "enum" and ev is not None:
            c = {k: v for (t, k), v in ev.items()
                 if t == model.cname(sh["name"])}
            g = {model.cname(k): v for k, v in it["states"]}
            if c != g:
                r.bad(f"{T}.{key}: C values {c}, COSMOS states {g}")
        r.outcome(w, total, kind, pos)
    if aligned and sizes[T] * 8 != pos:
        r.bad(f"{T}: {sizes[T] * 8} bits in C, {pos} in COSMOS")


def run_scheme(case, r):
    b, maps = c01.scheme(case)
    env = model.env_of(b)
    with runner.scratch() as wd:
        res = runner.generate("cfs", b, wd, sub="cfs")
        r.n["cli_runs"] += 1
        if not res.ok:
            r.bad(f"generate-cfs failed: {res.why()}")
            return
        for mod, msgs in sweeps.messages(maps):
            pk = common.run_cosmos(b, mod, msgs, r, wd, sub="out-" + mod)
            if pk is None:
                return
            ss = [env[m][1] for m in msgs]
            inc = model.cname(mod)
            ok, out = cprobe.compile_run(
                cprobe.probe_source([inc + "_msg.h"], ss,
                                    common.defs_of(b, "enum") if mod ==
                                    sweeps.messages(maps)[-1][0] else [], env),
                wd, [wd + "/cfs"])
            if not ok:
                r.bad(out)
                return
            sizes, leaves, ev = cprobe.parse_output(out)
            for s, p in zip(ss, pk):
                compare(s, p, env, sizes, leaves, ev or None, r)
            fixed(ss, pk, inc, wd, r)


def fixed_names(s):
    """[(component name)] of all fixed leaves of message s"""
    return [k for m in s["m"] if m.get("wc")
            for k in trees.leaf_names(m["wc"])]


def fixed(ss, pk, inc, wd, r):
    """macros of the message id header against COSMOS identifier items"""
    src = ('#include <stdbool.h>\n#include "%s_msgids.h"\n'
           "#include <stdio.h>\nint main(void){\n" % inc)
    n = 0
    for s, p in zip(ss, pk):
        names = fixed_names(s)
        ids = {}
        for it in p["items"]:
            if it["id"] is not None:
                ids.setdefault(it["name"], []).append(it["id"])
        if sorted(ids) != sorted(names) or any(len(v) > 1
                                               for v in ids.values()):
            r.bad(f"{s['name']}: fixed {sorted(names)}, identifier items "
                  f"{ids}")
            return
        for k in names:
            mac = model.cname(s["name"] + "_" + k).upper()
            v = ids[k][0]
            lit = repr(v) if isinstance(v, float) else cprobe.lit(v)
            cast = "" if isinstance(v, float) else "(__int128)"
            src += (f'printf("{mac} %d\\n", {cast}({mac}) == '
                    f"{cast}({lit}));\n")
            n += 1
    ok, out = cprobe.compile_run(src + "return 0;}\n", wd, [wd + "/cfs"])
    if not ok:
        r.bad(out)
        return
    r.n["fixed_values"] += n
    for line in out.splitlines():
        if not line.endswith(" 1"):
            r.bad(f"macro {line.split()[0]} differs from the identifier value")


def run_fixed(case, r):
    ss = [trees.message("Msg-" + common.name_of(i), s)
          for i, s in enumerate(case["msgs"])]
    bundle = trees.place("both", case["types"], ss, case.get("place"))
    with runner.scratch() as wd:
        pk = common.run_cosmos(bundle, "both", [s["name"] for s in ss], r, wd)
        res = runner.generate("cfs", bundle, wd, sub="cfs")
        r.n["cli_runs"] += 2
        if not res.ok:
            r.bad(f"generate-cfs failed: {res.why()}")
        if pk is None or not res.ok:
            return
        r.n["validated"] += len(ss)
        fixed(ss, pk, "both", wd, r)


def run_hdr(case, r):
    ss = []
    for i, (v, c, s, apid) in enumerate(case["hdr"]):
        ss.append(seq("Msg" + common.name_of(i), [
            mem("hdr", REF("Header"), wc=WC(
                ("primary", N(("packet-identification", N(
                    ("packet-version-number", v),
                    ("packet-type-is-cmd", bool(c)),
                    ("sec-hdr-flag-is-present", bool(s)),
                    ("application-process-identifier", apid))))))),
            mem("pay", INT(0, 255))]))
    bundle = [module("both", HDR + ss)]
    with runner.scratch() as wd:
        pk = common.run_cosmos(bundle, "both", [s["name"] for s in ss], r, wd)
        res = runner.generate("cfs", bundle, wd, sub="cfs")
        r.n["cli_runs"] += 2
        if not res.ok:
            r.bad(f"generate-cfs failed: {res.why()}")
        if pk is None or not res.ok:
            return
        src = ('#include <stdbool.h>\n#include "both_msgids.h"\n'
               "#include <stdio.h>\nint main(void){\n"
               + "".join(f'printf("%lld\\n",(long long)'
                         f'{s["name"].upper()}_MID);\n' for s in ss)
               + "return 0;}\n")
        ok, out = cprobe.compile_run(src, wd, [wd + "/cfs"])
        if not ok:
            r.bad(out)
            return
        for s, p, mid in zip(ss, pk, map(int, out.split())):
            bits = ""
            for it in p["items"]:
                if it["id"] is not None:
                    bits += format(it["id"], f"0{it['w']}b")
            r.n["validated"] += 1
            r.outcome(mid)
            if bits == "" or int(bits, 2) != mid or len(bits) != 16:
                r.bad(f"{s['name']}: id items give {bits}, MID is {mid:#x}")
