import itertools
import subprocess

from .. import common, model, runner, sweeps
from ..asn import (ARR, BOOL, INT, REF, STR, alias, enum, imp, mem, module,
                   seq)
from .c01 import scheme
from .c11 import acyclic, dags, graphs

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all directed import graphs on 1..3 modules (self imports "
             "included) and all acyclic ones on 4, each module defining an "
             "alias, a string alias, an enumeration and a SEQUENCE that uses "
             "those of every module it imports; all orders of files on up to "
             "3 modules, all orders of --asn1-modules and of inclusion "
             "rotated along; every header alone; rings of 1..5 modules, and of "
             "up to 40 beside, before and behind chains of up to 40; "
             "chains, fans and lattices of 9 and 30 modules; names imported at once or one "
             "by one; module names "
             "that contain each other in turn; half of "
             "all with comments everywhere; one type reached by "
             "several paths; the naming schemes of C01 with two orders each; all four generators (on 4 modules one C "
             "generator in turn and COSMOS for the module that reaches most)",
    "thorough": "as quick, with all directed graphs on 4 modules, all "
                "acyclic ones on 4 in every order of files, and all acyclic "
                "ones on 5",
}
ASSUMPTIONS = [common.A_TRUST,
               "generate-binary only gets SEQUENCEs without fixed values "
               "here (it refuses values of imported types)"]
# naming schemes; in all but the first the names contain each other
SCHEMES = [["delta", "alpha-two", "zeta", "beta-x1", "eps"],
           ["v" + "x" * i for i in range(5)],
           ["v" + "-x" * i for i in range(5)][::-1],
           ["x" * i + "v" for i in range(5)]]
MODS = SCHEMES[0]


def T(i, kind):
    return f"{kind}-{common.name_of(i)}"


def build(n, es, sch=0, split=0):
    """module i defines four types; edge i -> j: i imports j's types, all at
    once or split: one FROM per name, module by module or in turn"""
    out = []
    MODS = SCHEMES[sch]
    for i in range(n):
        e = T(i, "Mode")
        defs = [
            alias(T(i, "Num"), INT(0, 2**(3 + i) - 1)),
            alias(T(i, "Txt"), STR(3 + i)),
            enum(e, [f"{common.name_of(i)}{k}" for k in range(2 + i)]),
            alias(f"Uint{(8, 16, 32, 64, 8)[i]}-t"
                  if i < 4 else "Int8-t",
                  INT(0, 2**(8, 16, 32, 64)[i] - 1) if i < 4
                  else INT(-128, 127)),
        ]
        posix = defs[-1]["name"]
        ms = [mem("own", REF(T(i, "Num"))), mem("txt", REF(T(i, "Txt"))),
              mem("mode", REF(e)), mem("px", REF(posix))]
        imps = []
        for a, b in es:
            if a != i:
                continue
            p = out_posix(b)
            names = [T(b, "Num"), T(b, "Txt"), T(b, "Mode"), T(b, "Rec"), p]
            if split:
                imps += [imp([x], MODS[b]) for x in names]
            else:
                imps.append(imp(names, MODS[b]))
            s = common.name_of(b)
            ms += [mem(f"n{s}", REF(T(b, "Num"))),
                   mem(f"t{s}", REF(T(b, "Txt"))),
                   mem(f"r{s}", REF(T(b, "Rec"))),
                   mem(f"e{s}", REF(T(b, "Mode"))),
                   mem(f"p{s}", REF(p)),
                   mem(f"a{s}", ARR(2, REF(p)))]
        if split > 1:
            imps = [x for k in range(5) for x in imps[k::5]]
        defs.insert(i % 4, seq(T(i, "Rec"), ms))
        out.append(module(MODS[i], defs, imps))
    return out


def out_posix(i):
    return f"Uint{(8, 16, 32, 64)[i]}-t" if i < 4 else "Int8-t"


def cases(tier):
    sp = lambda n, t: {"states": n, "transitions": t}  # noqa: E731
    for n in range(1, (4 if tier == "quick" else 5)):
        todo = [es for es in graphs(n) if not acyclic(n, es)]
        for i in range(0, len(todo), 20):
            g = todo[i:i + 20]
            yield {"cyclic": g, "n": n, "_space": sp(len(g),
                                                     sum(map(len, g)))}
    for L in range(1, 6):
        yield {"ring": L, "_space": sp(1, L)}
    for L in (1, 2, 3, 12, 40):
        for n in (1, 2, 6, 12, 20, 40):
            for o in range(3):
                yield {"beside": n, "round": L, "order": o,
                       "_space": sp(1, L + 2 * n)}
    top = 4 if tier == "quick" else 5
    for n in range(1, top + 1):
        orders = list(itertools.permutations(range(n)))
        for k, es in enumerate(dags(n)):
            if n == top:
                some = [orders[k % len(orders)]]
            else:
                some = orders
            for q, o, sch in [(q, o, sch) for q, o in enumerate(some)
                              for sch in (range(4) if n < 3
                                          else [(k + q) % 4])]:
                # include and argument orders run along with the file order
                yield {"n": n, "names": sch, "es": es, "files": list(o),
                       "split": (k + q + sch) % 3,
                       "args": list(orders[(k + q) % len(orders)]),
                       "incs": list(orders[(k + 2 * q + 1) % len(orders)]),
                       "gens": 7 if n < 3 else 1 << (k + q) % 3,
                       "every": n < top or tier == "thorough",
                       "_space": sp(1, len(es))}
    for shape in ("chain", "rchain", "lattice", "fan"):
        for n in (9, 30):
            for rot in range(3):
                yield {"shape": shape, "rot": rot, "size": n,
                       "_space": sp(1, n)}


    for i, (label, _, _) in enumerate(sweeps.named(paths)):
        yield {"scheme": label, "rot": i, "_space": sp(4, 6)}


def paths():
    """one type reached over three modules and by two paths"""
    b = sweeps.strip(sweeps.bundle())
    b.append(module("far", [seq("Far", [mem("p", REF("Pair")),
                                        mem("l", REF("Leaf"))])],
                    [imp(["Pair"], "mid"), imp(["Leaf"], "lib")]))
    return b


def refused(bundle, r, what, kinds):
    for k, kind in enumerate(kinds):
        kw = {}
        if kind == "binary":
            kw["endian"] = "little"
        if kind == "cosmos":
            kw.update(module=bundle[0]["name"],
                      messages=[[d["name"] for d in bundle[0]["defs"]
                                 if d["k"] == "seq"][0]])
        with runner.scratch() as wd:
            res = runner.generate(kind, bundle, wd,
                                  order=list(range(len(bundle)))[::-1]
                                  if k % 2 else None, **kw)
        r.n["cli_runs"] += 1
        r.outcome(kind, res.rc)
        if res.ok:
            r.bad(f"generate-{kind} accepts circular imports {what}")
        elif res.rc == "hang":
            r.bad(f"generate-{kind} does not end for circular imports {what}")
    r.n["validated"] += 1


def cyc_build(n, es):
    """cyclic imports whose types are not circular"""
    out = []
    for i in range(n):
        js = [b for a, b in es if a == i]
        out.append(module(MODS[i], [
            alias(T(i, "Num"), INT(0, 7)),
            seq(T(i, "Rec"), [mem("own", REF(T(i, "Num")))]
                + [mem("n" + common.name_of(j), REF(T(j, "Num")))
                   for j in js if j != i])],
            [imp([T(j, "Num")], MODS[j]) for j in js]))
    return out


def alone(bundle, kind, r, wd, env):
    """compile one unit per header, checking the sizes of its types"""
    for i, m in enumerate(bundle):
        h = common.header(kind, m["name"])
        src = f'#include "{h}"\n#include "{h}"\n'
        for d in m["defs"]:
            if d["k"] == "seq":
                want = model.layout(d, env)[1] // 8
                src += (f"_Static_assert(sizeof({model.cname(d['name'])}) == "
                        f"{want}, \"size\");\n")
            elif d["k"] == "enum":
                for v, k in enumerate(model.enum_states(d)):
                    src += (f"_Static_assert({model.cname(k)} == {v}, "
                            "\"value\");\n")
        with open(f"{wd}/alone{i}.c", "w") as f:
            f.write(src)
    p = subprocess.run(
        ["gcc", "-std=gnu11", "-w", "-fsyntax-only", f"-I{wd}/out-{kind}"]
        + [f"{wd}/alone{i}.c" for i in range(len(bundle))],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    r.n["c_facts"] += len(bundle)
    if p.returncode:
        t = [x for x in p.stdout.decode("utf8", "replace").splitlines()
             if "error" in x]
        r.bad(f"generate-{kind}: a header used alone: " + " | ".join(t[:3]))


def widest(bundle):
    """index of the module that reaches the most modules"""
    dep = {m["name"]: {i["from"] for i in m["imports"]} for m in bundle}

    def reach(n):
        return {n}.union(*(reach(k) for k in dep[n]))
    return max(range(len(bundle)), key=lambda i: len(reach(bundle[i]["name"])))


def measure(bundle, r, kinds, files, args, incs, lone=True, every=True):
    env = model.env_of(bundle)
    n = len(bundle)
    with runner.scratch() as wd:
        for kind in kinds:
            inc = [common.header(kind, bundle[i]["name"]) for i in incs]
            res = common.check_c(bundle, kind, r, wd, env, includes=inc,
                                 order=files,
                                 mods=[bundle[i]["name"] for i in args])
            if res is None or not lone:
                continue
            # each header alone gives at least its own types
            if n > 1:
                alone(bundle, kind, r, wd, env)
        for i in range(n) if every else [widest(bundle)]:
            msgs = [d["name"] for d in bundle[i]["defs"] if d["k"] == "seq"]
            common.check_cosmos(bundle, bundle[i]["name"], msgs, r, wd, env,
                                sub=f"out-cosmos{i}", order=files)


def run(case, r):
    if "cyclic" in case:
        n = case["n"]
        for i, es in enumerate(case["cyclic"]):
            kinds = ("cfs", "cosmos", "c", "binary")
            refused(cyc_build(n, es), r, es,
                    kinds if n < 3 else kinds[i % 2::2])
    elif "ring" in case:
        L = case["ring"]
        b = cyc_build(L, [(i, (i + 1) % L) for i in range(L)])
        b.insert(0, module("free", [seq("Free", [mem("x", INT(0, 7))])]))
        b.append(module("user", [seq("User", [mem("x", REF(T(0, "Rec")))])],
                        [imp([T(0, "Rec")], MODS[0])]))
        refused(b, r, f"ring of {L}", ("cfs", "cosmos", "c", "binary"))
    elif "beside" in case:
        # a ring, a chain without a loop, a chain that starts in the ring and
        # one that ends in it
        n, L, o = case["beside"], case["round"], case["order"]
        links = [(f"r{i}", f"r{(i + 1) % L}") for i in range(L)]
        links += [(f"n{i}", f"n{i + 1}" if i < n - 1 else None)
                  for i in range(n)]
        links += [(f"i{i}", f"i{i + 1}" if i < n - 1 else "r0")
                  for i in range(n)]
        links += [(f"o{i}", f"o{i + 1}" if i < n - 1 else None)
                  for i in range(n)] + [("r0", "o0")]
        b = [module(f"m{x}", [alias(f"T{x}", INT(0, 7)),
                              seq(f"S{x}", [mem("own", REF(f"T{x}"))]
                                  + [mem(f"m{y}", REF(f"T{y}"))
                                     for z, y in links if z == x and y
                                     and y != x])],
                    [imp([f"T{y}"], f"m{y}") for z, y in links
                     if z == x and y])
             for x in dict.fromkeys(x for x, _ in links)]
        if o == 1:
            b = b[::-1]
        elif o:
            b = b[::2] + b[1::2]
        kinds = ("cfs", "cosmos", "c", "binary")
        refused(b, r, f"ring of {L} beside chains of {n}",
                kinds[(n + L) % 2::2])
    elif "scheme" in case:
        b = scheme(case, paths)[0]
        orders = list(itertools.permutations(range(4)))
        k = case["rot"]
        for q in range(2):
            measure(b, r, [("cfs", "c", "binary")[(k + q) % 3]],
                    list(orders[(k + 11 * q) % 24]),
                    list(orders[(k * 5 + q) % 24]),
                    list(orders[(k * 7 + q) % 24]))
    elif "shape" in case:
        n = case["size"]
        ms = []
        for i in range(n):
            if case["shape"] in ("chain", "rchain"):
                deps = [i - 1] if i else []
            elif case["shape"] == "fan":
                deps = [0] if 0 < i < n - 1 else list(range(i))
            else:
                deps = [j for j in range(n) if j // 3 == i // 3 - 1
                        and (i < 9 or i % 3 == j % 3)]
            ms.append(module(f"m{i}", [
                seq(f"Rec{i}", [mem("o", INT(0, 2**(i % 9 + 1) - 1))]
                    + [mem(f"d{j}", REF(f"Rec{j}")) for j in deps])],
                [imp([f"Rec{j}"], f"m{j}") for j in deps]))
        if case["shape"] == "rchain":
            ms = ms[::-1]
        k = case["rot"] * n // 2 % n
        if case["rot"]:
            ms = sweeps.commented(ms)
        order = list(range(n))
        measure(ms, r, [("cfs", "c", "binary")[case["rot"]]],
                order[k:] + order[:k], order[::-1], order[k:] + order[:k],
                False)
    else:
        b = build(case["n"], case["es"], case["names"], case["split"])
        if sum(case["files"][::2]) % 2:
            b = sweeps.commented(b)
        kinds = [g for i, g in enumerate(("cfs", "c", "binary"))
                 if case["gens"] >> i & 1]
        measure(b, r, kinds, case["files"], case["args"], case["incs"],
                every=case["every"])
