import itertools
import os

from .. import common, cosmos, runner, sweeps
from ..asn import (ARR, BOOL, CMT, INT, REAL, REF, STR, WC, N, alias, enum,
                   imp, mem, module, seq)
from .c01 import scheme

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all 1956 ordered selections of 6 messages that share types, "
             "nest each other and fix values of the same components "
             "differently; all histories of up to 3 runs into one file over "
             "8 selections (two targets, two modules), earlier content kept "
             "byte for byte; the same over 11 kinds of earlier content of the "
             "file (no line end, multi-byte characters, CRLF, ...); all ordered "
             "pairs of messages of a module under the naming "
             "schemes of C01; up to 600 messages in one run; lists with repetitions; "
             "13 names that are no message at every position of 4 lists refused; "
             "histories of 40 runs",
    "thorough": "as quick with 7 messages (13699 ordered selections) and "
                "histories of up to 4 runs",
}
ASSUMPTIONS = []
H = "application-process-identifier"


def bundle():
    lib = module("lib", [
        alias("Uint8-t", INT(0, 255)),
        enum("Mode", [["on", 1], ["off", 0]]),
        seq("Head", [mem("ver", INT(0, 7)), mem("flag", BOOL),
                     mem(H, INT(0, 2047)), mem("ok", BOOL)]),
        seq("Body", [mem("x", REF("Uint8-t"), CMT("the x", "m")),
                     mem("mode", REF("Mode")),
                     mem("t", REAL("-1.5", "2.5"), CMT(None, None, True)),
                     mem("name", STR(4))]),
    ])
    tm = module("tm", [
        seq("Plain", [mem("head", REF("Head")), mem("body", REF("Body")),
                      mem("n", INT(0, 15))], CMT("plain one")),
        seq("First", [
            mem("head", REF("Head"), wc=WC((H, 17), ("flag", True))),
            mem("body", REF("Body"))]),
        seq("Second", [
            mem("head", REF("Head"), wc=WC((H, 18), ("ver", 3),
                                           ("flag", False))),
            mem("body", REF("Body"), wc=WC(("x", 7))),
            mem("n", INT(0, 15), CMT("other n", "s", True))],
            CMT("second one")),
        seq("Outer", [
            mem("pre", INT(-4, 4)),
            mem("in-a", REF("Plain"), wc=WC(
                ("head", N(("flag", True),)), ("n", 2))),
            mem("in-b", REF("Plain"))]),
        seq("Wrap", [
            mem("in-s", REF("Second"), wc=WC(("n", 9))),
            mem("in-p", REF("Plain")),
            mem("list", ARR(3, REF("Uint8-t")))]),
        seq("Bare", [mem("ok", BOOL), mem("x", INT(0, 255)),
                     mem(H, INT(0, 2047))]),
        seq("Last", [
            mem("head", REF("Head"), wc=WC(("ok", True))),
            mem("wrap", REF("Wrap"))]),
    ], [imp(["Head", "Body", "Uint8-t"], "lib")])
    return [lib, tm]


MSGS = ["Plain", "First", "Second", "Outer", "Wrap", "Bare", "Last"]
SEL = [("tm", ["Plain"], "tgt"), ("tm", ["Second", "Plain"], "tgt"),
       ("tm", ["Outer"], "tgt"), ("lib", ["Head"], "tgt"),
       ("lib", ["Body", "Head"], "tgt"), ("tm", ["Wrap", "First"], "oth"),
       ("tm", ["Bare"], "tgt"), ("tm", ["First", "Wrap", "First"], "tgt")]
# what is no message of module tm: undefined, cut off, imported, of another
# kind, nothing at all
WRONG = ["Nope", "", "Plai", "Plain-x", "plain", " Plain", "PLAIN", "Head",
         "Uint8-t", "Mode", "tm", "*", "Plain;Bare"]


def cases(tier):
    msgs = MSGS[:6] if tier == "quick" else MSGS
    batch = []
    for k in range(1, len(msgs) + 1):
        for sel in itertools.permutations(msgs, k):
            batch.append(list(sel))
            if len(batch) == 25:
                yield {"sels": batch, "_space": {
                    "states": 25, "transitions": sum(map(len, batch))}}
                batch = []
    if batch:
        yield {"sels": batch, "_space": {
            "states": len(batch), "transitions": sum(map(len, batch))}}
    reps = [list(x) for k in range(2, 5) for x in itertools.product(
        ("Second", "Outer", "Bare"), repeat=k) if len(set(x)) < k]
    for i in range(0, len(reps), 25):
        yield {"sels": reps[i:i + 25], "_space": {
            "states": len(reps[i:i + 25]),
            "transitions": sum(map(len, reps[i:i + 25]))}}
    batch = []
    for k in range(1, 4 if tier == "quick" else 5):
        for h in itertools.product(range(len(SEL)), repeat=k):
            batch.append(list(h))
    for k, pre in enumerate(PRE):
        for j in range(len(SEL)):
            batch.append([f"pre{k}", j])
            batch.append([f"pre{k}", j, (j + k) % len(SEL)])
    for k in range(2):
        # long histories
        batch.append([(j * (k + 2) + j // 8) % len(SEL) for j in range(40)])
    for w in WRONG:
        g = [list(x[:i]) + [w] + list(x[i:]) for x in (
            [], ["Plain"], ["Second", "Bare"], ["Bare", "Bare", "Outer"])
            for i in range(len(x) + 1)]
        yield {"wrong": g, "_space": {"states": len(g),
                                      "transitions": 2 * len(g)}}
    for label, _, _ in sweeps.named():
        yield {"scheme": label, "_space": {"states": 15, "transitions": 33}}
    for n in (7, 8, 9, 10, 11, 16, 17, 32, 33, 60, 100, 128, 200, 257, 600):
        for back in (0, 1):
            yield {"many": n, "back": back,
                   "_space": {"states": 1, "transitions": n}}
    for i in range(0, len(batch), 15):
        g = batch[i:i + 15]
        yield {"hist": g, "_space": {"states": len(g),
                                     "transitions": sum(map(len, g))}}


PKT = ('TELEMETRY OLD Gone BIG_ENDIAN "%s"\n'
       '  APPEND_ITEM x 8 UINT ""\n')
PRE = [b"", b"\n", b"# only a comment\n", (PKT % "kept").encode(),
       (PKT % "kept").encode() + b"# no line end",
       (PKT % "\u00e4\u00f6\u00fc \u20ac \U0001f680").encode("utf8"),
       (PKT % "crlf").replace("\n", "\r\n").encode(),
       (PKT % ("long " * 3000)).encode() + b"\n" * 50,
       (PKT % ("longer " * 10000)).encode(),
       (PKT % "long file").encode() + b"# comment line\n" * 80000,
       # as written by APG itself, with a comment that is not ASCII
       b"# This file was autogenerated from ASN.1 model.\n\n"
       + (PKT % "\u00b0C").encode("utf8")]

_alone = {}


def alone(b, mod, msg, target, r):
    """the packet of a run that requests just this message"""
    key = (mod, msg, target, runner.FRESH)
    if key not in _alone:
        with runner.scratch() as wd:
            pk = common.run_cosmos(b, mod, [msg], r, wd, target=target)
        if pk is None or len(pk) != 1:
            r.bad(f"{msg} alone gives {pk and [p['name'] for p in pk]}")
            return None
        _alone[key] = pk[0]
    return _alone[key]


def same(pk, b, mod, sel, target, r, what):
    if [p["name"] for p in pk] != sel:
        r.bad(f"{what}: packets {[p['name'] for p in pk]}, requested {sel}")
        return
    for p in pk:
        a = alone(b, mod, p["name"], target, r)
        if a is None:
            return
        if p != a:
            for x, y in zip(p["items"], a["items"]):
                if x != y:
                    r.bad(f"{what}: {p['name']}.{x['name']} is {x}, alone {y}")
                    break
            else:
                r.bad(f"{what}: packet {p['name']} differs from the one alone")


def many(n):
    return [module("tm", [
        seq("Part", [mem("x", INT(0, 255)), mem("y", INT(0, 15))])] + [
        seq(f"Msg-{common.name_of(i)}", [
            mem("p", REF("Part"), wc=WC(("x", i)) if i % 3 else None),
            mem("z", INT(0, 2**(i % 30 + 1) - 1))]) for i in range(n)])]


def pick(b, mod, names, sels, r, key):
    """selections of a bundle of its own"""
    ref = {}
    for sel in [[n] for n in names] + sels:
        with runner.scratch() as wd:
            pk = common.run_cosmos(b, mod, sel, r, wd)
        if pk is None:
            return
        if [p["name"] for p in pk] != sel:
            r.bad(f"packets {[p['name'] for p in pk]}, requested {sel}")
            return
        for p in pk:
            if len(sel) == 1:
                ref[p["name"]] = p
            elif p != ref[p["name"]]:
                r.bad(f"selection {sel}: packet {p['name']} differs from the "
                      "one alone")
        r.n["validated"] += 1
        r.outcome(key, sel)


def run(case, r):
    if "scheme" in case:
        b, maps = scheme(case)
        for mod, ms in sweeps.messages(maps):
            if len(ms) > 1:
                pick(b, mod, ms, [list(s) for s in itertools.permutations(
                    ms, 2)] + [ms[::-1]],
                     r, case["scheme"])
        return
    if "many" in case:
        b = many(case["many"])
        ns = [d["name"] for d in b[0]["defs"]]
        with runner.scratch() as wd:
            common.check_cosmos(b, "tm", ns[::-1] if case["back"] else ns, r,
                                wd)
        return
    b = bundle()
    if "wrong" in case:
        for i, sel in enumerate(case["wrong"]):
            with runner.scratch() as wd:
                paths = runner.write_inputs(wd + "/in", b)
                before = None
                if i % 2:
                    runner.run_cli(runner.argv_for(
                        "cosmos", b, paths, wd + "/out", module="tm",
                        messages=["Plain"]), wd)
                    before = runner.read_tree(wd + "/out")
                rc, text = runner.run_cli(runner.argv_for(
                    "cosmos", b, paths, wd + "/out", module="tm",
                    messages=sel), wd)
                r.n["cli_runs"] += 1
                r.n["validated"] += 1
                r.outcome("wrong", sel, rc)
                now = None
                if os.path.isdir(wd + "/out"):
                    now = runner.read_tree(wd + "/out")
                if rc == 0:
                    r.bad(f"accepts the messages {sel}")
                elif now != before:
                    r.bad(f"refuses the messages {sel}, but writes")
        return
    if "sels" in case:
        for sel in case["sels"]:
            with runner.scratch() as wd:
                pk = common.run_cosmos(b, "tm", sel, r, wd)
            if pk is not None:
                same(pk, b, "tm", sel, "tgt", r, f"selection {sel}")
                r.n["validated"] += 1
                r.outcome(sel)
        return
    for h in case["hist"]:
        with runner.scratch() as wd:
            content = {"tgt": b"", "oth": b""}
            paths = runner.write_inputs(wd + "/in", b)
            out = wd + "/out"
            old = []
            if isinstance(h[0], str):
                content["tgt"] = PRE[int(h[0][3:])]
                old = ["Gone"] * (b"Gone" in content["tgt"])
                os.makedirs(out)
                with open(out + "/tgt.txt", "wb") as f:
                    f.write(content["tgt"])
            for step, k in enumerate(h):
                if isinstance(k, str):
                    continue
                mod, sel, target = SEL[k]
                rc, text = runner.run_cli(runner.argv_for(
                    "cosmos", b, paths, out, module=mod, messages=sel,
                    target=target), wd)
                r.n["cli_runs"] += 1
                what = f"history {h} step {step}"
                if rc != 0:
                    r.bad(f"{what}: failed {text[-200:]}")
                    break
                now = runner.read_tree(out)
                want = {n + ".txt" for n in content
                        if content[n] or n == target
                        or n == "tgt" and isinstance(h[0], str)}
                if set(now) != want:
                    r.bad(f"{what}: files {sorted(now)}, expected "
                          f"{sorted(want)}")
                    break
                bad = False
                for n in content:
                    data = now.get(n + ".txt", b"")
                    if not data.startswith(content[n]):
                        r.bad(f"{what}: earlier packets of {n}.txt changed")
                        bad = True
                    elif n != target and data != content[n]:
                        r.bad(f"{what}: {n}.txt changed")
                        bad = True
                if bad:
                    break
                data = now[target + ".txt"]
                try:
                    pk = cosmos.parse(data[len(content[target]):]
                                      .decode("utf8"))
                    whole = cosmos.parse(data.decode("utf8"))
                except cosmos.Bad as x:
                    r.bad(f"{what}: {x}")
                    break
                same(pk, b, mod, sel, target, r, what)
                names = [m for j in h[:step + 1] if not isinstance(j, str)
                         for m in SEL[j][1] if SEL[j][2] == target]
                if target == "tgt":
                    names = old + names
                if [p["name"] for p in whole] != names:
                    r.bad(f"{what}: packets {[p['name'] for p in whole]}, "
                          f"expected {names}")
                content[target] = data
            r.n["validated"] += 1
            r.outcome(h)
