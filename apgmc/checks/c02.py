import itertools

from .. import common, runner
from ..asn import ARR, INT, REAL, REF, alias, mem, module, seq
from ..engine import chunks

LEVEL = "model_checking"
BOUNDS = {
    "quick": "unsigned: all upper ends 2^k-1, 2^k, 2^k+1 for k=0..65 and all "
             "of 0..70, with lower ends 0, 1, upper; signed: all pairs of "
             "ends at and next to +-2^k for the k next to every stdint width; "
             "REAL: all pairs of 24 ends; each direct, as alias, as array "
             "element, in generate-cfs/-c/-binary (boundary values stored and "
             "read back in compiled C) and generate-cosmos; all unsupported "
             "ranges and all POSIX names with all neighbouring ranges in "
             "every command",
    "thorough": "as quick, with all of 0..300 as unsigned upper ends and all "
                "pairs of ends next to +-2^k for all k=0..65 as signed ends",
}
ASSUMPTIONS = [
    common.A_TRUST,
    "REAL ends between 3.4e38 (APG's limit for float) and FLT_MAX are not "
    "explored"]
PER = 100


def near(k):
    return {2**k - 1, 2**k, 2**k + 1}


def unsigned(tier):
    ends = set(range(71 if tier == "quick" else 301))
    for k in range(66):
        ends |= near(k)
    for hi in sorted(ends):
        for lo in sorted({0, min(1, hi), hi}):
            yield lo, hi


KS = (0, 1, 6, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63, 64)


def signed(tier):
    pos = {0}
    for k in KS if tier == "quick" else range(66):
        pos |= near(k)
    for lo, hi in itertools.product(sorted(-p for p in pos if p),
                                    sorted(pos) + [-1, -2]):
        if lo <= hi:
            yield lo, hi


def supported(lo, hi):
    if lo >= 0:
        return hi < 2**64
    return lo >= -2**63 and hi < 2**63


REALS = ["-1.0e400", "-1.7e308", "-3.5e38", "-3.41e38", "-3.4028236e38",
         "-3.4e38", "3.4028236e38", "3.41e38", "3.45e38", "-1.0e38", "-255.5",
         "-1.0", "-0.5", "0.0", "0.1", "1.0", "3.25", "100.00", "1.0e10",
         "3.4e38", "3.5e38", "1.0e39", "1.7976931348623157e308", "1.0e400"]


def reals():
    for a, b in itertools.combinations_with_replacement(
            sorted(REALS, key=float), 2):
        yield a, b


def int_types(tier):
    return [INT(lo, hi) for lo, hi in
            itertools.chain(unsigned(tier), signed(tier))]


POSIX = dict(common.POSIX)
POSIX["Float"] = REAL("-3.4e38", "3.4e38")
POSIX["Double"] = REAL("-1.7976931348623157e308", "1.7976931348623157e308")


def posix_variants():
    """(name, type, accepted)"""
    for n, t in POSIX.items():
        yield n, t, True
        if t["t"] == "int":
            for dl, dh in ((-1, 0), (1, 0), (0, -1), (0, 1), (1, 1), (-1, -1)):
                lo, hi = t["lo"] + dl, t["hi"] + dh
                yield n, INT(lo, hi), False
            for lo, hi in sorted({(-t["hi"], t["hi"]), (t["lo"], -t["lo"]),
                           (t["hi"], t["hi"]), (t["lo"], t["lo"]),
                           (0, 0), (t["lo"], 0), (1, t["hi"])}):
                if lo <= hi and (lo, hi) != (t["lo"], t["hi"]):
                    yield n, INT(lo, hi), False
            for o in POSIX.values():
                if o != t:
                    yield n, o, False
        else:
            yield n, REAL(t["hi"], t["hi"]), False
            yield n, REAL(t["lo"], t["lo"]), False
            yield n, REAL("-3.3999999e38", t["hi"]), False
            yield n, REAL(t["lo"], "3.3999999e38"), False
            yield n, REAL("0.0", t["hi"]), False
            yield n, REAL(t["lo"], "0.0"), False
            yield n, REAL("-1.0", "1.0"), False
            for o in POSIX.values():
                if o != t:
                    yield n, o, False


def cases(tier):
    ints = int_types(tier)
    ok = [t for t in ints if supported(t["lo"], t["hi"])]
    no = [t for t in ints if not supported(t["lo"], t["hi"])]
    for a, b in reals():
        (no if "e400" in a + b else ok).append(REAL(a, b))
    for g in chunks(ok, PER):
        for kind in ("cfs", "c", "binary", "cosmos"):
            yield {"ok": g, "kind": kind,
                   "_space": {"states": 3 * len(g) if kind == "cfs" else 0,
                              "transitions": 3 * len(g)}}
    for g in chunks(no, 8):
        for kind in ("cfs", "c", "binary", "cosmos"):
            yield {"no": g, "kind": kind,
                   "_space": {"states": len(g) if kind == "cfs" else 0,
                              "transitions": len(g)}}
    for g in chunks(posix_variants(), 8):
        for kind in ("cfs", "c", "binary", "cosmos"):
            yield {"posix": g, "kind": kind,
                   "_space": {"states": len(g) if kind == "cfs" else 0,
                              "transitions": len(g)}}


def three_ways(types):
    defs, msgs = [], []
    for i, t in enumerate(types):
        x = common.name_of(i)
        defs += [alias("A" + x, t),
                 seq("S" + x, [mem("dir", t), mem("ali", REF("A" + x)),
                               mem("arr", ARR(2, REF("A" + x)))])]
        msgs.append("S" + x)
    return defs, msgs


def attempt(bundle, kind, msgs, wd, sub):
    return runner.generate(
        kind, bundle, wd, sub=sub,
        **({"module": bundle[0]["name"], "messages": msgs}
           if kind == "cosmos" else
           {"endian": "big"} if kind == "binary" else {}))


def run(case, r):
    kind = case["kind"]
    with runner.scratch() as wd:
        if "ok" in case:
            defs, msgs = three_ways(case["ok"])
            bundle = [module("ranges", defs)]
            if kind == "cosmos":
                common.check_cosmos(bundle, "ranges", msgs, r, wd,
                                    ids=False, notes=False)
            else:
                common.check_c(bundle, kind, r, wd)
            return
        if "no" in case:
            todo = []
            for t in case["no"]:
                todo.append(([seq("Msg", [mem("v", t)])], False))
                todo.append(([alias("Ali", t),
                              seq("Msg", [mem("v", REF("Ali"))])], False))
        else:
            todo = [([alias(n, t), seq("Msg", [mem("v", REF(n))])], okay)
                    for n, t, okay in case["posix"]]
        for i, (defs, okay) in enumerate(todo):
            bundle = [module("ranges", defs)]
            if okay:
                if kind == "cosmos":
                    common.check_cosmos(bundle, "ranges", ["Msg"], r, wd,
                                        notes=False, sub=f"o{i}")
                else:
                    common.check_c(bundle, kind, r, wd)
                continue
            res = attempt(bundle, kind, ["Msg"], wd, f"o{i}")
            r.n["cli_runs"] += 1
            r.n["validated"] += 1
            r.outcome(kind, res.rc, res.text[-60:])
            if res.rc == "hang":
                r.bad(f"generate-{kind} does not end for {defs}")
            elif res.ok:
                r.bad(f"generate-{kind} accepts {defs}")
