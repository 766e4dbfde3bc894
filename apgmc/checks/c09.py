import itertools
import struct

from .. import common, cprobe, kinds, model, runner, sweeps, trees
from ..asn import BOOL, INT, REAL, REF, F, alias, mem, module, seq
from ..engine import chunks, words
from .c01 import scheme
from .c08 import cond, expected

LEVEL = "model_checking"
ASSUMPTIONS = ["values and types are from the alphabets below",
               "the host is little endian (big endian images are compared "
               "byte by byte only)"]

FT = REAL("-3.4e38", "3.4e38")
DT = REAL("-1.7976931348623157e308", "1.7976931348623157e308")
# kind -> (type, [values], struct code, [values that do not fit])
KINDS = {}
for _w, _c in ((8, "B"), (16, "H"), (32, "I"), (64, "Q")):
    _v = [0, 1, 2**(_w - 1), 2**_w - 1, 2**_w // 3]
    _n = [-1, 2**_w, 2**(_w + 1) + 5]
    KINDS[f"u{_w}"] = (INT(0, 2**_w - 1), _v, _c, _n)
    KINDS[f"pu{_w}"] = (REF(f"Uint{_w}-t"), _v, _c, _n)
    _h = 2**(_w - 1)
    _v = [0, -1, -_h, _h - 1, -_h // 3]
    _n = [-_h - 1, _h]
    KINDS[f"i{_w}"] = (INT(-_h, _h - 1), _v, _c.lower(), _n)
    KINDS[f"pi{_w}"] = (REF(f"Int{_w}-t"), _v, _c.lower(), _n)
KINDS["u8r"] = (INT(7, 130), [7, 130], "B", [])
KINDS["f"] = (REAL("-1.0e6", "1.0e6"),
              [F("0.0"), F("-1.5"), F("3.14"), F("1.0e-3"), F("1000000.0")],
              "f", [F("1.0e39")])
KINDS["pf"] = (REF("Float"), [F("0.0"), F("-2.5e38"), F("0.1")], "f",
               [F("-1.0e39")])
KINDS["d"] = (REAL("-1.0e300", "1.0e300"),
              [F("0.0"), F("-1.5"), F("3.14"), F("1.0e300"), F("0.1")], "d", [])
KINDS["pd"] = (REF("Double"), [F("0.0"), F("-1.0e308"), F("2.5")], "d", [])
CORE = ["u8", "pu16", "i32", "u64", "f", "d"]
HELP = ([alias(n, t) for n, t in common.POSIX.items()]
        + [alias("Float", FT), alias("Double", DT),
           alias("Five", INT(0, 31)), alias("Flag", BOOL),
           alias("Own16", INT(0, 65535))])
BOUNDS = {
    "quick": f"all structs of 1 and 2 members over {len(KINDS)} numeric kinds "
             f"(all values), of 3 over {len(CORE)} kinds, in all orders of "
             "components; two level nesting in all orders, nested members of the "
             "same type, one to three "
             "specified members; all proper subsets of components, all "
             "unfitting values, unsupported kinds; all values next to powers "
             "of two and of ten of every width and 190 decimal notations, "
             "structs of 5..40, 64, 100 and 300 members, nesting depth "
             "1..10, messages of 2..4 members with all subsets of them "
             "specified, several modules, the naming schemes of C01; both "
             "byte orders",
    "thorough": f"as quick, with 3 members over {len(KINDS)} kinds and 4 over "
                f"{len(CORE)} kinds",
}
PER = 80


def vals(k, i):
    v = KINDS[k][1]
    return v[i % len(v)]


def flat(tier):
    """(word, values, order)"""
    i = 0
    for k in KINDS:
        for v in KINDS[k][1]:
            yield [k], [v], [0]
    full = list(KINDS)
    ws = (list(words(full, 2, 2).states) + list(words(CORE, 3, 3).states)
          if tier == "quick" else
          list(words(full, 3, 2).states) + list(words(CORE, 4, 4).states))
    for w in ws:
        for order in itertools.permutations(range(len(w))):
            i += 1
            yield list(w), [vals(k, i + j) for j, k in enumerate(w)], \
                list(order)


def nested():
    """(order of outer, order of inner, number of top members)"""
    for o in itertools.permutations(range(3)):
        for n in itertools.permutations(range(2)):
            for m in (1, 2, 3):
                yield [list(o), list(n), m]


def cases(tier):
    for e in ("little", "big"):
        for g in chunks(flat(tier), PER):
            yield {"flat": g, "endian": e,
                   "_space": {"states": len(g),
                              "transitions": sum(len(x[0]) for x in g)}}
        g = list(nested())
        yield {"nested": g, "endian": e,
               "_space": {"states": len(g), "transitions": 5 * len(g)}}
        g = list(itertools.product(itertools.permutations(range(3)),
                                   itertools.permutations(range(2)), (1, 2)))
        yield {"twin": g, "endian": e,
               "_space": {"states": len(g), "transitions": 10 * len(g)}}
        # one message of its own module
        for x in itertools.islice(flat(tier), 0, 30):
            yield {"flat": [x], "endian": e,
                   "_space": {"states": 1, "transitions": 1}}
        yield from more(e)
        for g in chunks(refusals(), 6):
            yield {"refuse": g, "endian": e,
                   "_space": {"states": len(g), "transitions": len(g)}}


def more(e):
    for k in KINDS:
        t = KINDS[k][0]
        if t["t"] == "ref" and t["r"] in common.POSIX:
            t = common.POSIX[t["r"]]
        if t["t"] == "int":
            vs = trees.around(t["lo"], t["hi"])
        else:
            big = 1e38 if KINDS[k][2] == "f" else 1e301
            vs = [F(x) for x in trees.literals() if abs(float(x)) < big]
        for g in chunks([[[k], [v], [0]] for v in vs], 300):
            yield {"flat": g, "endian": e, "noread": True,
                   "_space": {"states": len(g), "transitions": len(g)}}
    full = list(KINDS)
    g = []
    for n in list(range(5, 41)) + [64, 100, 300]:
        for w in ([CORE[n % 6]] * n, [full[(7 * i + n) % len(full)]
                                      for i in range(n)]):
            for o in (list(range(n)), list(range(n))[::-1]):
                g.append([w, [vals(k, i) for i, k in enumerate(w)], o])
    for c in chunks(g, 20):
        yield {"flat": c, "endian": e, "_space": {
            "states": len(c), "transitions": sum(len(x[0]) for x in c)}}
    g = [[d, o] for d in range(1, 11) for o in range(6)]
    yield {"deep": g, "endian": e, "_space": {
        "states": len(g), "transitions": sum(3 * d for d, _ in g)}}
    for n in (2, 3, 4, 12, 40):
        for keep in (itertools.product((0, 1), repeat=n) if n < 5 else
                     [[int(bool(u(i))) for i in range(n)] for u in (
                         lambda i: 1, lambda i: i, lambda i: i < n - 1,
                         lambda i: i == n // 2, lambda i: i % 2)]):
            if any(keep):
                yield {"partial": list(keep), "endian": e, "_space": {
                    "states": 1, "transitions": n}}
    for label, _, _ in sweeps.named(sweeps.binary_bundle):
        yield {"scheme": label, "endian": e,
               "_space": {"states": 2, "transitions": 5}}
    for n in (1, 2, 3, 4, 12, 30):
        yield {"modules": n, "endian": e,
               "_space": {"states": n, "transitions": 2 * n}}


def refusals():
    """(word of kinds or types, [[member index, value]])"""
    for k, (t, v, c, no) in KINDS.items():
        for x in no:
            yield [k], [[0, x]], False
            yield ["u8", k, "u16"], [[0, 1], [1, x], [2, 2]], False
    for w in itertools.product(("u8", "i32", "d"), repeat=2):
        for keep in ((0,), (1,)):
            yield list(w), [[i, vals(w[i], 1)] for i in keep], True
    w = ["u8", "u16", "i32"]
    for n in (1, 2):
        for keep in itertools.combinations(range(3), n):
            yield w, [[i, vals(w[i], 1)] for i in keep], True
    for t, v in ((BOOL, True), (INT(0, 7), 3), (REF("Five"), 30),
                 (REF("Flag"), False), (REF("Own16"), 40000),
                 (INT(0, 2047), 1), (INT(0, 2**24 - 1), 77)):
        yield [t], [[0, v]], True
        yield ["u8", t, "u8"], [[0, 1], [1, v], [2, 2]], True


def code(k, v, end):
    f = {"little": "<", "big": ">"}[end]
    if isinstance(v, dict):
        v = float(v["f"])
    return struct.pack(f + KINDS[k][2], v)


NM = ["first", "sec-ond", "third3", "z"] + [f"m-{i}" for i in range(300)]


def build(case):
    """-> (type definitions, messages, expected images)"""
    end = case["endian"]
    types, msgs, want = [], [], []
    if "flat" in case:
        for i, (w, vs, order) in enumerate(case["flat"]):
            n = common.name_of(i)
            types.append(seq("T" + n, [mem(NM[j], KINDS[k][0])
                                       for j, k in enumerate(w)]))
            msgs.append(seq("Msg-" + n, [mem("body", REF("T" + n), wc=[
                [NM[j], vs[j]] for j in order])]))
            want.append(b"".join(code(k, v, end) for k, v in zip(w, vs)))
    elif "twin" in case:
        ink = ["u16", "i32"]
        types += [seq("Twin", [mem("left", REF("Inner")),
                               mem("first", KINDS["u8"][0]),
                               mem("right", REF("Inner"))]),
                  seq("Inner", [mem(NM[j], KINDS[k][0])
                                for j, k in enumerate(ink)])]
        for i, (o, n, m) in enumerate(case["twin"]):
            ms, img = [], b""
            for top in range(m):
                v = [1 + 9 * i + top, 2 + 7 * i + top, 3 + 5 * i + top]
                comp = []
                for j, name in enumerate(("left", "first", "right")):
                    if j == 1:
                        comp.append([name, v[1] % 256])
                        img += code("u8", v[1] % 256, end)
                    else:
                        iv = [v[j], -v[j] - 300]
                        comp.append([name, {"wc": [[NM[x], iv[x]]
                                                   for x in n]}])
                        img += b"".join(code(k, x, end)
                                        for k, x in zip(ink, iv))
                ms.append(mem(f"top{top}", REF("Twin"),
                              wc=[comp[j] for j in o]))
            msgs.append(seq("Msg-" + common.name_of(i), ms))
            want.append(img)
    elif "deep" in case:
        ks = ["u16", None, "i8"]
        types.append(seq("D0", [mem("sec-ond", KINDS["u32"][0])]))
        for d in range(1, 11):
            types.insert(d % 2 * d, seq(f"D{d}", [
                mem("first", KINDS["u16"][0]), mem("z", REF(f"D{d - 1}")),
                mem("sec-ond", KINDS["i8"][0])]))
        orders = list(itertools.permutations(range(3)))
        for i, (d, o) in enumerate(case["deep"]):
            wc, img = [["sec-ond", 1000 + i]], code("u32", 1000 + i, end)
            for k in range(1, d + 1):
                a, b = 500 * k + i, i - 20 * (k % 6)
                comp = [["first", a], ["z", {"wc": wc}], ["sec-ond", b]]
                wc = [comp[j] for j in orders[(o + k) % 6]]
                img = code("u16", a, end) + img + code("i8", b, end)
            msgs.append(seq("Msg-" + common.name_of(i), [
                mem("body", REF(f"D{d}"), wc=wc)]))
            want.append(img)
    else:
        ink, outk = ["u16", "i32"], ["u8", None, "f"]
        types += [seq("Inner", [mem(NM[j], KINDS[k][0])
                                for j, k in enumerate(ink)]),
                  seq("Outer", [mem("sec-ond", KINDS["u8"][0]),
                                mem("in-ner", REF("Inner")),
                                mem("first", KINDS["f"][0])])]
        for i, (o, n, m) in enumerate(case["nested"]):
            ms, img = [], b""
            for top in range(m):
                s = i * 3 + top
                iv = [vals(k, s + j) for j, k in enumerate(ink)]
                inner = {"wc": [[NM[j], iv[j]] for j in n]}
                comp = [["sec-ond", vals("u8", s)], ["in-ner", inner],
                        ["first", vals("f", s)]]
                ms.append(mem(f"top{top}", REF("Outer"),
                              wc=[comp[j] for j in o]))
                img += (code("u8", vals("u8", s), end)
                        + b"".join(code(k, v, end) for k, v in zip(ink, iv))
                        + code("f", vals("f", s), end))
            msgs.append(seq("Msg-" + common.name_of(i), ms))
            want.append(img)
    return types, msgs, want


def run(case, r):
    if "refuse" in case:
        for x in case["refuse"]:
            refused(x, case["endian"], r)
        return
    if "partial" in case:
        return partial(case, r)
    if "scheme" in case or "modules" in case:
        return several(case, r)
    types, msgs, want = build(case)
    bundle = [module("bi-n", HELP + msgs + types)]
    with runner.scratch() as wd:
        res = runner.generate("binary", bundle, wd, endian=case["endian"])
        resc = runner.generate("c", bundle, wd, sub="c")
        r.n["cli_runs"] += 2
        if not (res.ok and resc.ok):
            r.bad(f"generation failed: {res.why()} / {resc.why()}")
            return
        for m, img in zip(msgs, want):
            fn = model.lower1(model.cname(m["name"])) + ".bin"
            got = res.files.get(fn)
            r.n["validated"] += 1
            r.outcome(img)
            if got != img:
                r.bad(f"{fn}: {got and got.hex()}, expected {img.hex()} for "
                      f"{m['m']}")
        if (case["endian"] == "little" and not r.problems
                and "noread" not in case):
            readback(bundle, msgs, wd, r)


def several(case, r):
    """renamed or several modules"""
    end = case["endian"]
    if "scheme" in case:
        bundle = scheme(case, sweeps.binary_bundle)[0]
    else:
        bundle = []
        for i in range(case["modules"]):
            u = common.name_of(i)
            bundle.append(module(f"bi-{u}", [
                seq(f"Top-{u}", [mem("b", REF(f"Rec-{u}"), wc=[
                    ["y", 300 + i], ["x", -1 - i]])]),
                seq(f"Rec-{u}", [mem("x", KINDS["i16"][0]),
                                 mem("y", KINDS["u32"][0])]),
                seq(f"Plain-{u}", [mem("b", REF(f"Rec-{u}"))])]))
    env = model.env_of(bundle)
    msgs = [d for m in bundle for d in m["defs"] if d["k"] == "seq"
            and any(x["wc"] for x in d["m"])]
    want = {model.lower1(model.cname(m["name"])) + ".bin": image(m, env, end)
            for m in msgs}
    with runner.scratch() as wd:
        res = runner.generate("binary", bundle, wd, endian=end)
        resc = runner.generate("c", bundle, wd, sub="c")
        r.n["cli_runs"] += 2
        if not (res.ok and resc.ok):
            r.bad(f"generation failed: {res.why()} / {resc.why()}")
            return
        got = {f: v for f, v in res.files.items() if f.endswith(".bin")}
        if set(got) != set(want):
            r.bad(f"files {sorted(got)}, expected {sorted(want)}")
        for f in set(want) & set(got):
            r.n["validated"] += 1
            r.outcome(want[f])
            if got[f] != want[f]:
                r.bad(f"{f}: {got[f].hex()}, expected {want[f].hex()}")
        if end == "little" and not r.problems:
            for m in bundle:
                readback(bundle, [d for d in msgs if d in m["defs"]], wd, r,
                         model.cname(m["name"]))


def partial(case, r):
    """only some members of the message are specified"""
    end = case["endian"]
    types = [seq("Rec", [mem("x", KINDS["i16"][0]),
                         mem("y", KINDS["u32"][0])])]
    msg = seq("Msg", [mem(NM[i], REF("Rec"), wc=k and [
        ["x", 7 + i], ["y", 9 * i]] or None)
        for i, k in enumerate(case["partial"])])
    bundle = [module("bi-n", types + [msg])]
    with runner.scratch() as wd:
        res = runner.generate("binary", bundle, wd, endian=end)
    r.n["cli_runs"] += 1
    r.n["validated"] += 1
    want = image(msg, model.env_of(bundle), end)
    r.outcome(res.ok, want)
    if not res.ok:
        if all(case["partial"]):
            r.bad(f"refuses a complete specification: {res.why()}")
    elif res.files.get("msg.bin") != want:
        got = res.files.get("msg.bin")
        r.bad(f"members specified {case['partial']}: writes "
              f"{got and got.hex()}, expected {want.hex()} or a refusal")


def readback(bundle, msgs, wd, r, mod="bi_n"):
    env = model.env_of(bundle)
    src = (f'#include "{mod}.h"\n#include <stdio.h>\n#include <string.h>\n'
           "int main(void){\n")
    src2 = (f'#include "{mod}.c"\n#include <stdio.h>\n#include <string.h>\n'
            "static char b[4096];\nint main(void){ FILE *f; size_t n;\n")
    for m in msgs:
        T = model.cname(m["name"])
        o = model.lower1(T)
        fn = f"out/{o}.bin"
        src += (f"{{ {T} s; FILE *f = fopen(\"{fn}\", \"rb\"); "
                "memset(&s, 0xa5, sizeof s); "
                "size_t n = fread(&s, 1, sizeof s, f); "
                f'printf("{T} sizeof %d\\n", n == sizeof s && fgetc(f) == '
                "EOF); fclose(f);\n")
        for path, sh, v in expected(None, m, env):
            src += f'printf("{T} {path} %d\\n", {cond("s", path, sh, v)});\n'
        src += "}\n"
        src2 += (f'f = fopen("{fn}", "rb"); n = fread(b, 1, 4096, f); '
                 f'fclose(f); printf("{T} c-object %d\\n", n == sizeof {o} '
                 f"&& !memcmp(b, &{o}, n));\n")
    for s, inc, nm in ((src, wd + "/out", "rb"), (src2, wd + "/c", "rc")):
        ok, out = cprobe.compile_run(s + "return 0;}\n", wd, [inc], name=nm)
        if not ok:
            r.bad(out)
            return
        r.n["readbacks"] += out.count("\n")
        for line in out.splitlines():
            if not line.endswith(" 1"):
                r.bad(f"read back differs: {line}")


def refused(x, end, r):
    w, vs, zero = x
    ts = [KINDS[k][0] if isinstance(k, str) else k for k in w]
    types = [seq("Body", [mem(NM[j], t) for j, t in enumerate(ts)])]
    msg = seq("Msg", [mem("body", REF("Body"),
                          wc=[[NM[j], v] for j, v in vs])])
    with runner.scratch() as wd:
        bundle = [module("bi-n", HELP + types + [msg])]
        res = runner.generate("binary", bundle, wd, endian=end)
        r.n["cli_runs"] += 1
        r.n["validated"] += 1
        r.outcome(res.rc, res.text[-50:])
        if not res.ok:
            return
        got = res.files.get("msg.bin")
        env = model.env_of(bundle)
        want = None
        if zero:
            want = image(msg, env, end)
        if got != want:
            r.bad(f"accepts {vs} for {ts} and writes {got and got.hex()}")


def image(msg, env, end):
    """complete image with zeros where no value is given, or None"""
    out = b""
    for path, s, v in expected(None, msg, env):
        if s["w"] % 8 or model.is_bitfield(s):
            return None
        if s["s"] == "flt":
            f = {"little": "<", "big": ">"}[end] + "fd"[s["w"] == 64]
            out += struct.pack(f, v)
        else:
            out += int(v).to_bytes(s["w"] // 8, end, signed=s["s"] == "int")
    return out
