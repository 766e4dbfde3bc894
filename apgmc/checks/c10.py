import itertools

from .. import common, model, runner, sweeps
from ..asn import ARR, BOOL, INT, REF, enum, imp, mem, module, seq
from .c01 import scheme

LEVEL = "model_checking"
_COMMON = ("all enumerations without numbers and with shifted, rotated, "
           "reversed explicit numbers of 1..40 items and around every power "
           "of two up to 1025 (and up to 45 numberings of each size with a "
           "repeated, missing or shifted number, of the same sum, ends or sum "
           "of squares, or counted from the end), used directly, in nested SEQUENCEs and from "
           "another module; item names of all schemes of C01 with plain, "
           "reversed and interleaved numbers; generate-cfs, -c, -binary, -cosmos")
BOUNDS = {
    "quick": "all assignments of numbers -1..n (or none at all) to n = 1..4 "
             "items, all permutations of 5 items, each with all other "
             "definitions of the module; " + _COMMON,
    "thorough": "all assignments of numbers -2..n+1 to n = 1..4 items, all of "
                "0..5 to 5 items, all permutations of 6 items; " + _COMMON,
}
ASSUMPTIONS = ["either all or no items have a number (mixing is not "
               "documented)", common.A_NAMES]


def mk(name, nums, pre):
    return enum(name, [[f"{pre}{i}", p] for i, p in enumerate(nums)])


def valid(nums):
    return sorted(nums) == list(range(len(nums)))


def wrong(n):
    """numberings of n items that are no permutation of 0..n-1, most of them
    with the right least, greatest, sum or sum of squares"""
    out = []
    same = list(range(n))

    def add(**at):
        x = list(same)
        for k, v in at.items():
            x[int(k[1:])] = v
        for y in (x, x[::-1], x[n // 2:] + x[:n // 2]):
            if not valid(y) and y not in out:
                out.append(y)
    m = n // 2
    add(**{f"i{n - 1}": n})
    add(i0=-1)
    out.append([i + 1 for i in same])
    out.append([i - 1 for i in same])
    out.append([2 * i for i in same] if n > 1 else [2])
    out.append([0] * n if n > 1 else [7])
    if n > 1:
        add(**{f"i{n - 1}": n - 2})
        add(i0=1)
        add(**{f"i{m}": m - 1})
        add(i0=n - 1)
    if n > 3:
        # the same sum, least and greatest
        add(i1=2, **{f"i{n - 2}": n - 3})
        add(**{f"i{m - 1}": m, f"i{m}": m - 1, f"i{m + 1}": m})
        add(i0=1, **{f"i{n - 1}": n - 2})
        add(i0=-1, **{f"i{n - 1}": n})
    if n > 8:
        # {0, 4, 5} -> {1, 2, 6}: the same sum and sum of squares
        a = m - 3
        add(**{f"i{a}": a + 1, f"i{a + 4}": a + 2, f"i{a + 5}": a + 6})
    if n > 40:
        out = out[::3]
    # numbers that count from the end
    for x in ([i - 1 for i in same], [i - n for i in same],
              same[:-1] + [-1], [-n] + same[1:],
              [i - n if i % 2 else i for i in same], [i + n for i in same]):
        if not valid(x) and x not in out:
            out.append(x)
    return out


def cases(tier):
    lo, hi, perm = (-1, 0, 5) if tier == "quick" else (-2, 1, 6)
    good, bad = [], []
    for n in range(1, 5):
        for nums in itertools.product(range(lo, n + hi + 1), repeat=n):
            (good if valid(nums) else bad).append(list(nums))
    if tier == "thorough":
        bad += [list(x) for x in itertools.product(range(6), repeat=5)
                if not valid(x)]
    good += [list(p) for p in itertools.permutations(range(perm))]
    for i in range(0, len(good), 40):
        g = good[i:i + 40]
        yield {"enums": g, "_space": {"states": len(g),
                                      "transitions": sum(map(len, g))}}
    for i in range(0, len(bad), 10):
        g = bad[i:i + 10]
        yield {"bad": g, "all": tier == "thorough", "_space": {"states": len(g),
                                    "transitions": sum(map(len, g))}}
    sizes = sorted(set(range(1, 41)) | {2**k + d for k in range(5, 11)
                                        for d in (-1, 0, 1)})
    for n in sizes:
        yield {"size": n, "_space": {"states": 5, "transitions": n}}
    for n in sizes:
        g = wrong(n)
        yield {"bad": g, "all": n in (5, 17) or tier == "thorough",
               "_space": {"states": len(g), "transitions": n * len(g)}}
    for label, _, _ in sweeps.named(item_bundle):
        yield {"scheme": label, "_space": {"states": 5, "transitions": 5}}


def item_bundle():
    """17 items in five enumerations; the names are replaced by a scheme"""
    nums = [[None] * 4, [3, 2, 1, 0], [1, 3, 0, 2], [1, 0], [2, 0, 1]]
    k = 0
    es = []
    for i, n in enumerate(nums):
        es.append(enum(f"En{i}", [[f"it{k + j}", v]
                                  for j, v in enumerate(n)]))
        k += len(n)
    use = [mem(f"u{i}", REF(e["name"])) for i, e in enumerate(es)]
    return [module("enums", es[:3] + [seq("In-ner", use[:3])]),
            module("user", es[3:] + [seq("Msg", use + [
                mem("i", REF("In-ner"))])],
                [imp([e["name"] for e in es[:3]] + ["In-ner"], "enums")])]


def verify(bundle, r, wd, msg):
    env = model.env_of(bundle)
    for kind in ("cfs", "c", "binary"):
        common.check_c(bundle, kind, r, wd, env)
    common.check_cosmos(bundle, msg[0], [msg[1]], r, wd, env)


def run(case, r):
    if "bad" in case:
        for i, nums in enumerate(case["bad"]):
            r.n["validated"] += 1
            d = mk("Given", nums, "x")
            bundle = [module("enums", [
                enum("Other", ["a", "b"]), d,
                seq("Msg", [mem("x", REF("Given")), mem("y", REF("Other"))])])]
            gens = (("cfs", {}), ("c", {}), ("binary", {"endian": "big"}),
                    ("cosmos", {"module": "enums", "messages": ["Msg"]}))
            # two commands per assignment in turn (all four when thorough)
            for kind, kw in (gens if case["all"] else gens[i % 2::2]):
                with runner.scratch() as wd:
                    res = runner.generate(kind, bundle, wd, **kw)
                r.outcome(kind, nums, res.ok)
                if res.ok:
                    r.bad(f"generate-{kind} accepts item numbers {nums}")
                elif res.rc == "hang":
                    r.bad(f"generate-{kind} hangs for item numbers {nums}")
        return
    if "scheme" in case:
        b, maps = scheme(case, item_bundle)
        with runner.scratch() as wd:
            verify(b, r, wd, (b[1]["name"], maps.get("type", {}).get(
                "Msg", "Msg")))
        return
    if "enums" in case:
        es = [mk("E" + common.name_of(i), nums, common.name_of(i) + "x")
              for i, nums in enumerate(case["enums"])]
        bundle = [module("enums", es + [
            seq("Msg", [mem("b", BOOL)]
                + [mem("m" + common.name_of(i), REF(e["name"]))
                   for i, e in enumerate(es)])])]
        with runner.scratch() as wd:
            verify(bundle, r, wd, ("enums", "Msg"))
        r.n["validated"] += len(es)
        return
    n = case["size"]
    es = [mk("Plain", [None] * n, "p"),
          mk("Same", list(range(n)), "s"),
          mk("Back", list(range(n))[::-1], "b"),
          mk("Rot", [(i + 1) % n for i in range(n)], "r"),
          mk("Mul", [(i * 3) % n if n % 3 else i for i in range(n)], "m")]
    inner = seq("In-ner", [mem("k" + str(i), REF(e["name"]))
                           for i, e in enumerate(es)])
    use = [mem("u", INT(0, 7)), mem("i", REF("In-ner"))] + [
        mem("v" + str(i), REF(e["name"])) for i, e in enumerate(es)]
    if n % 2:
        bundle = [module("enums", es + [inner, seq("Msg", use)])]
        where = ("enums", "Msg")
    else:
        bundle = [module("user", [seq("Msg", use)],
                         [imp([e["name"] for e in es] + ["In-ner"], "enums")]),
                  module("enums", [inner] + es)]
        where = ("user", "Msg")
    with runner.scratch() as wd:
        verify(bundle, r, wd, where)
