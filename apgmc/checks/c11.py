import itertools

from .. import common, cprobe, model, runner
from ..asn import ARR, BOOL, INT, REF, alias, choice, enum, mem, module, seq

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all directed graphs of uses between 1..3 SEQUENCEs (loops "
             "included) and all acyclic ones between 4, direct or through "
             "SEQUENCE OF, some of them CHOICEs, with every order of writing the definitions down; "
             "four naming schemes, names that contain each other among them; "
             "leaf definitions of every kind (alias, POSIX alias, enum) at "
             "every position; cycles of length 1..6 at every distance from "
             "the rest, of up to 120 beside chains of up to 120; chains, combs and lattices of up to 30 and chains, "
             "stars and fans of 64 and 150 definitions forward, backward and interleaved; all four generators",
    "thorough": "as quick, with all directed graphs on 4 SEQUENCEs in every "
                "order and all acyclic ones on 5 in every order",
}
ASSUMPTIONS = [common.A_TRUST]
# naming schemes; in the last three the names contain each other
SCHEMES = [["Delta", "Alpha", "Zeta", "Beta", "Eps", "Om"],
           ["T" + "x" * i for i in range(6)],
           ["T" + "-x" * i for i in range(6)][::-1],
           ["T" + "y" * i + "x" for i in range(6)]]
LEAVES = [alias("Uint8-t", INT(0, 255)), alias("Five", INT(0, 31)),
          enum("Mode", ["off", "on", "aut"]), seq("Leaf", [mem("l", BOOL)])]
GENS = ("cfs", "c", "binary", "cosmos")


def graphs(n):
    """all digraphs on n nodes as tuples of (i, j); loops included"""
    pairs = [(i, j) for i in range(n) for j in range(n)]
    for bits in range(2 ** len(pairs)):
        yield [p for k, p in enumerate(pairs) if bits >> k & 1]


def dags(n):
    """all labelled acyclic digraphs on n nodes"""
    # i -> j and j -> i exclude each other: three choices per pair
    und = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for pick in itertools.product((0, 1, 2), repeat=len(und)):
        es = [(a, b) if p == 1 else (b, a) for (a, b), p in zip(und, pick)
              if p]
        if acyclic(n, es):
            yield es


def acyclic(n, es):
    rem = set(range(n))
    while rem:
        ok = {i for i in rem if not any(a == i and b in rem for a, b in es)}
        if not ok:
            return False
        rem -= ok
    return True


def build(n, es, arr, cho=0, sch=0):
    """definitions, named after scheme sch; edge i -> j: i has a member of type j (j's SEQUENCE OF if
    arr says so); bit i of cho: i is a CHOICE"""
    out = []
    NAMES = SCHEMES[sch]
    for i in range(n):
        ms = [mem("own", INT(0, 255))]
        for k, (a, b) in enumerate(es):
            if a == i:
                t = REF(NAMES[b])
                if arr:
                    t = ARR(2, t)
                    if (a + b + len(es)) % 3 == 0:
                        t = ARR(3, t)
                ms.append(mem("m" + common.name_of(b), t))
        out.append((choice if cho >> i & 1 else seq)(NAMES[i], ms))
    return out


def cases(tier):
    sp = lambda n, t: {"states": n, "transitions": t}  # noqa: E731
    deep = 4 if tier == "thorough" else 3
    # cyclic graphs: refused in any order.  One case = one graph.
    for n in range(1, deep + 1):
        todo = []
        for es in graphs(n):
            if not acyclic(n, es):
                todo.append(es)
        for i in range(0, len(todo), 24):
            g = todo[i:i + 24]
            yield {"cyclic": g, "n": n,
                   "_space": sp(len(g), sum(map(len, g)))}
    for L in range(1, 7):
        for tail in range(0, 3):
            yield {"ring": L, "tail": tail, "_space": sp(1, L + tail)}
    for n in (10, 25, 60, 120):
        for L in (1, 2, 5, n):
            yield {"beside": n, "ring": L, "_space": sp(1, L + n)}
    # acyclic graphs, every order
    top = 5 if tier == "thorough" else 4
    for n in range(1, top + 1):
        orders = list(itertools.permutations(range(n)))
        if n == top:
            # labels are interchangeable up to the order of writing: all
            # labelled graphs x one order = all unlabelled graphs x all orders
            orders = [tuple(range(n))]
        todo = [[es, list(o)] for es in dags(n) for o in orders]
        if n <= 3:
            for i, x in enumerate(todo):
                yield {"dags": [x], "n": n, "lone": True, "names": i % 4,
                       "_space": sp(1, len(x[0]))}
        for i in range(0, len(todo), 12):
            g = todo[i:i + 12]
            for k in range(4) if n <= 3 else [i // 12 % 4]:
                yield {"dags": g, "n": n, "names": k, "_space":
                       sp(len(g), sum(len(e) for e, _ in g))}
    # definitions of every kind, every order
    for o in itertools.permutations(range(5)):
        yield {"kinds": list(o), "_space": sp(1, 5)}
    for shape in ("chain", "comb", "lattice", "star", "fan"):
        for n in (8, 30, 64, 150):
            if n > 30 and shape in ("comb", "lattice"):
                continue
            for how in ("fwd", "back", "mix", "mix2"):
                yield {"shape": shape, "size": n, "how": how,
                       "_space": sp(1, n)}


def generate(kind, bundle, wd, msgs=None, **kw):
    if kind == "binary":
        kw["endian"] = "little"
    if kind == "cosmos":
        kw.update(module=bundle[0]["name"], messages=msgs)
    return runner.generate(kind, bundle, wd, **kw)


def refused(defs, r, what, i, every):
    """in the given and the reversed order; two commands per order in turn
    unless `every`"""
    msgs = [d["name"] for d in defs if d["k"] == "seq"] or [defs[0]["name"]]
    for k, ds in enumerate([defs, defs[::-1]]):
        for kind in GENS if every else GENS[(i + k) % 2::2]:
            with runner.scratch() as wd:
                res = generate(kind, [module("cyc", ds)], wd, msgs[:1])
            r.n["cli_runs"] += 1
            if res.ok:
                r.bad(f"generate-{kind} accepts circular types {what}")
            elif res.rc == "hang":
                r.bad(f"generate-{kind} does not end for circular types "
                      f"{what}")
            r.outcome(kind, res.rc)
    r.n["validated"] += 1


def accepted(bundle, r, arr, kinds=("cfs", "c", "binary")):
    """compile and measure everything; COSMOS for all that has no array of
    sequences"""
    with runner.scratch() as wd:
        env = model.env_of(bundle)
        for kind in kinds:
            common.check_c(bundle, kind, r, wd, env)
        if not arr:
            msgs = [d["name"] for d in bundle[0]["defs"] if d["k"] == "seq"]
            common.check_cosmos(bundle, bundle[0]["name"], msgs, r, wd, env)


def rename(d, pre):
    """d with its name and all SEQUENCE names it uses prefixed"""
    def t(x):
        if x["t"] == "arr":
            return ARR(x["n"], t(x["e"]))
        if x["t"] == "ref":
            return REF(pre + "-" + x["r"].lower())
        return x
    return (seq if d["k"] == "seq" else choice)(
        pre + "-" + d["name"].lower(), [mem(m["n"], t(m["t"])) for m in d["m"]])


def run(case, r):
    if "cyclic" in case:
        for i, es in enumerate(case["cyclic"]):
            refused(build(case["n"], es, i // 2 % 2), r, es, i, case["n"] < 3)
            refused(build(case["n"], es, i // 3 % 2,
                          1 + i % (2**case["n"] - 1)), r, ["choices", es],
                    i + 1, False)
    elif "beside" in case:
        # a ring, a chain without a loop, and a chain that ends in the ring
        n, L = case["beside"], case["ring"]
        ds = [seq(f"R{i}", [mem("n", REF(f"R{(i + 1) % L}"))])
              for i in range(L)]
        free = [seq(f"N{i}", [mem("a", INT(0, 3))] + (
            [mem("p", REF(f"N{i - 1}"))] if i else [])) for i in range(n)]
        into = [seq(f"U{i}", [mem("p", REF(f"U{i - 1}" if i else "R0"))])
                for i in range(n)]
        every = n < 50
        refused(free + ds, r, f"ring of {L} after {n}", n, every)
        refused(ds + into, r, f"ring of {L} before {n}", L, every)
        refused(free + ds + into, r, f"ring of {L} among {n}", n + 1, every)
        refused([x for y in zip(free, into) for x in y] + ds, r,
                f"ring of {L} mixed with {n}", L + 1, every)
    elif "ring" in case:
        L = case["ring"]
        for arr, cho in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 2)):
            ds = []
            for i in range(L):
                t = REF(f"R{(i + 1) % L}")
                ds.append((choice if cho and i % cho == 0 else seq)(
                    f"R{i}", [mem("a", INT(0, 255)),
                              mem("n", ARR(2, ARR(3, t)) if arr and i % 2
                                  else ARR(3, t) if arr else t),
                              mem("b", BOOL)]))
            for k in range(case["tail"]):
                to = f"T{k - 1}" if k else "R0"
                ds.append(seq(f"T{k}", [mem("x", REF(to))]))
                ds.insert(0, seq(f"Free{k}", [mem("x", INT(0, 7))]))
            refused(ds, r, f"ring of {L}", 0, True)
    elif "dags" in case:
        # several independent graphs in one module: their definitions are
        # interleaved, which is one more order to cope with
        for arr in (False,) if case.get("lone") else (False, True, "cho"):
            rows = []
            for g, (es, o) in enumerate(case["dags"]):
                ds = build(case["n"], es, arr is True or arr and g % 2,
                           arr == "cho" and 1 + (g + len(es)) % (
                               2**case["n"] - 1), case["names"])
                rows.append([rename(ds[i], "G" + common.name_of(g))
                             for i in o])
            defs = [row[i] for i in range(case["n"]) for row in rows]
            accepted([module("dag", defs)], r, arr, ("cfs",)
                     if case.get("lone") else ("cfs", "c", "binary"))
    elif "kinds" in case:
        for cho in (True, False):
            kinds(case, r, cho)
    else:
        shapes(case, r)


def kinds(case, r, cho):
    """definitions of every kind in the given order"""
    users = LEAVES + [(choice if cho else seq)("User", [
        mem("a", REF("Uint8-t")), mem("b", REF("Five")),
        mem("c", REF("Mode")), mem("d", REF("Leaf")),
        mem("e", ARR(2, REF("Uint8-t"))),
        mem("f", ARR(2, REF("Five")))])]
    accepted([module("kin", [users[i] for i in case["kinds"]])], r, cho,
             ("cfs", "c") if cho else ("cfs", "c", "binary"))


def shapes(case, r):
    n, shape = case["size"], case["shape"]
    ds = []
    for i in range(n):
        ms = [mem("o", INT(0, 255))]
        if shape == "chain" and i:
            ms.append(mem("p", REF(f"N{i - 1}")))
        elif shape == "comb" and i % 2:
            ms.append(mem("p", REF(f"N{i - 1}")))
            if i > 2:
                ms.append(mem("q", REF(f"N{i - 3}")))
        elif shape == "lattice" and i >= 3:
            ms += [mem("p" + str(k), REF(f"N{i // 3 * 3 - 3 + k}"))
                   for k in range(3) if i < 9 or k == i % 3]
        elif shape == "star" and i == n - 1:
            ms += [mem("p" + str(k), REF(f"N{k}")) for k in range(i)]
        elif shape == "fan" and i:
            ms.append(mem("p", REF("N0")))
        ds.append(seq(f"N{i}", ms))
    how = case["how"]
    if how == "back":
        ds = ds[::-1]
    elif how == "mix":
        ds = ds[1::2] + ds[::2]
    elif how == "mix2":
        ds = ds[n // 2:] + ds[:n // 2]
    bundle = [module("shape", ds)]
    if n <= 30:
        accepted(bundle, r, False)
        return
    env = model.env_of(bundle)
    with runner.scratch() as wd:
        for kind in ("cfs", "c", "binary"):
            res = generate(kind, bundle, wd, sub="out-" + kind)
            r.n["cli_runs"] += 1
            r.outcome(kind, shape, n, how, res.rc)
            if not res.ok:
                r.bad(f"generate-{kind} refuses {shape} of {n}: {res.why()}")
                continue
            src = f'#include "{common.header(kind, "shape")}"\n'
            for d in ds:
                want = model.layout(d, env)[1] // 8
                src += (f"_Static_assert(sizeof({d['name']}) == {want}, "
                        "\"size\");\n")
            ok, out = cprobe.compile_run(src + "int main(void){return 0;}\n",
                                         wd, [wd + "/out-" + kind])
            if not ok:
                r.bad(f"generate-{kind}: {shape} of {n} {how}: {out}")
        common.check_cosmos(bundle, "shape", [f"N{n - 1}", "N0"], r, wd, env)
    r.n["validated"] += 1
