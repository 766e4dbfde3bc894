from .. import common, cprobe, kinds, model, runner, trees
from ..asn import INT, N, mem, module, seq
from ..engine import chunks
from .c01 import scheme

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all trees of fixed components (subsets, orders, values) over a "
             "three level family of types, nesting of up to 40 levels, lists of up to 200 components, up to 80 specified members, up to 300 messages whose levels share member names, "
             "one to three specified members of the same or other types per message, types in the same or another module; many values of every kind (all next to powers of two and of ten, all APIDs, 190 decimal notations), names that extend each other, the naming schemes of C01; every value kind "
             "with all boundary values; every tree of the first 60 also in a "
             "module of its own; several and imported messages per bundle",
    "thorough": "as quick, with all orders of the outer level",
}
ASSUMPTIONS = ["the generated .c file is compiled as a translation unit with "
               "its header (the header's tentative definition needs -fcommon "
               "to be used from several units)"]
PER = 60


def cases(tier):
    defs, specs = trees.trees(tier, True)
    for g in chunks(specs, PER):
        for place in trees.PLACES:
            yield {"types": defs, "msgs": g, "place": place,
                   "_space": {"states": len(g),
                              "transitions": sum(trees.count(wc) for s in g
                                                 for *_, wc in s if wc)}}
    for s in specs[:60]:
        yield {"types": defs, "msgs": [s],
               "_space": {"states": 1, "transitions": 1}}
    yield from trees.value_cases(kinds.HELPERS)
    yield from trees.big_cases(True)
    yield from trees.named_cases(tier, True)


def expected(spec_wc, d, env):
    """[(path, shape, value or 0)] of all leaves of the object"""
    vals = {}

    def walk(path, wc):
        for k, v in wc:
            p = f"{path}.{model.cname(k)}"
            if isinstance(v, dict) and "wc" in v:
                walk(p, v["wc"])
            else:
                vals[p] = v

    for m in d["m"]:
        if m.get("wc"):
            walk(model.cname(m["n"]), m["wc"])
    out = []
    for path, s, *_ in model.c_leaves(d, env):
        v = vals.pop(path, 0)
        if isinstance(v, dict):
            v = float(v["f"])
        out.append((path, s, v))
    assert not vals, vals
    return out


def cond(obj, path, s, v):
    e = f"{obj}.{path}"
    if s["s"] == "flt":
        t = "float" if s["w"] == 32 else "double"
        return f"{e} == ({t}){float(v)!r}"
    if s["s"] == "str":
        return f"{e}[0] == 0"
    return f"(__int128){e} == (__int128){cprobe.lit(int(v))}"


def run(case, r):
    if "scheme" in case:
        bundle = scheme(case)[0]
        mods = [(m["name"], [d for d in m["defs"] if d["k"] == "seq" and any(
            x.get("wc") for x in d["m"])]) for m in bundle]
    else:
        ss = [trees.message("Msg-" + common.name_of(i), s)
              for i, s in enumerate(case["msgs"])]
        bundle = trees.place("in-it", case["types"], ss, case.get("place"))
        mods = [("in-it", ss)]
    env = model.env_of(bundle)
    with runner.scratch() as wd:
        res = runner.generate("c", bundle, wd)
        r.n["cli_runs"] += 1
        if not res.ok:
            r.bad(f"generate-c failed: {res.why()}")
            return
        for mod, ss in mods:
            judge(model.cname(mod) + ".c", ss, env, wd, r)


def judge(mod, ss, env, wd, r):
    src = f'#include "{mod}"\n#include <stdio.h>\nint main(void){{\n'
    for s in ss:
        T = model.cname(s["name"])
        obj = model.lower1(T)
        src += (f'printf("{T} type %d\\n", _Generic({obj}, {T}: 1, '
                "default: 0));\n")
        for path, sh, v in expected(None, s, env):
            src += f'printf("{T} {path} %d\\n", {cond(obj, path, sh, v)});\n'
            r.n["values"] += 1
    ok, out = cprobe.compile_run(src + "return 0;}\n", wd, [wd + "/out"])
    if not ok:
        r.bad(out)
        return
    for line in out.splitlines():
        T, path, okay = line.split()
        if okay != "1":
            d = [s for s in ss if model.cname(s["name"]) == T][0]
            w = dict((p, v) for p, _, v in expected(None, d, env))
            r.bad(f"{T}.{path}: value differs from {w.get(path)!r}")
    r.n["validated"] += len(ss)
    for s in ss:
        r.outcome([(p, str(v)) for p, _, v in expected(None, s, env)])
