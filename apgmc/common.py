"""Pieces shared by the checks: alphabets, judges."""
from . import asn, cosmos, cprobe, model, runner
from .asn import (ARR, BOOL, CMT, INT, N, REAL, REF, STR, WC, F, alias, choice,
                  enum, imp, mem, module, seq)

HEADER = {"cfs": "{}_msg.h", "c": "{}.h", "binary": "{}.h"}

A_TRUST = ("gcc lays out packed structs and bitfields as on the flight "
           "target (x86-64 little endian here)")
A_NAMES = ("member, type and enum item names are distinct and no C keywords "
           "(APG does not check this)")


def header(kind, modname):
    return HEADER[kind].format(model.cname(modname))


def defs_of(bundle, kind):
    return [d for m in bundle for d in m["defs"] if d["k"] in kind]


def check_c(bundle, kind, r, wd, env=None, includes=None, endian="little",
            **kw):
    """generate with `kind`, compile, measure all sequences and enums"""
    env = env or model.env_of(bundle)
    if kind == "binary":
        kw["endian"] = endian
    res = runner.generate(kind, bundle, wd, sub="out-" + kind, **kw)
    r.n["cli_runs"] += 1
    if not res.ok:
        r.bad(f"generate-{kind} failed: {res.why()}")
        return None
    return measure_c(res, bundle, kind, r, wd, env, includes)


def measure_c(res, bundle, kind, r, wd, env, includes=None, sub=None):
    seqs, enums = defs_of(bundle, ("seq", "choice")), defs_of(
        bundle, ("enum",))
    incs = includes or [header(kind, m["name"]) for m in bundle]
    src = cprobe.probe_source(incs, seqs, enums, env)
    ok, out = cprobe.compile_run(src, wd, [wd + "/" + (sub or "out-" + kind)],
                                 name="probe-" + kind)
    if not ok:
        r.bad(f"generate-{kind}: {out}")
        return None
    for p in cprobe.judge(out, seqs, enums, env):
        r.bad(f"generate-{kind}: {p}")
    r.n["c_facts"] += out.count("\n")
    r.n["validated"] += len(seqs) or 1
    for line in out.splitlines():
        w = line.split(" ")
        if len(w) > 3:
            r.outcome(kind, w[2:])
    return res


def cosmos_diff(got, want, where, geometry=True, ids=True, notes=True):
    """compare one parsed packet's items with the reference"""
    bad = []
    if [i["name"] for i in got] != [i["name"] for i in want]:
        bad.append(f"{where}: items {[i['name'] for i in got]}, "
                   f"expected {[i['name'] for i in want]}")
        return bad
    for g, w in zip(got, want):
        p = f"{where}.{w['name']}"
        if geometry:
            for k, t in (("w", "bit size"), ("type", "type"),
                         ("arr", "array bits")):
                if g[k] != w[k]:
                    bad.append(f"{p}: {t} {g[k]}, expected {w[k]}")
        if ids and g["id"] != w["id"]:
            bad.append(f"{p}: ID value {g['id']}, expected {w['id']}")
        if notes:
            if g["desc"].strip() != w["desc"].strip():
                bad.append(f"{p}: description {g['desc']!r}, "
                           f"expected {w['desc']!r}")
            for k in ("unit", "le", "limits"):
                if g[k] != w[k]:
                    bad.append(f"{p}: {k} {g[k]}, expected {w[k]}")
            st = w["states"]
            if st is None:
                if g["states"] not in ([], [("False", 0), ("True", 1)]):
                    bad.append(f"{p}: states {g['states']}")
            elif g["states"] != st:
                bad.append(f"{p}: states {g['states']}, expected {st}")
    return bad


def run_cosmos(bundle, modname, messages, r, wd, sub="out-cosmos",
               target="tgt", **kw):
    """-> list of packets or None"""
    res = runner.generate("cosmos", bundle, wd, sub=sub, module=modname,
                          messages=messages, target=target, **kw)
    r.n["cli_runs"] += 1
    if not res.ok:
        r.bad(f"generate-cosmos failed: {res.why()}")
        return None
    if set(res.files) != {target + ".txt"}:
        r.bad(f"generate-cosmos wrote {sorted(res.files)}, "
              f"expected ['{target}.txt']")
        return None
    try:
        return cosmos.parse(res.files[target + ".txt"].decode("utf8"))
    except cosmos.Bad as x:
        r.bad(str(x))
        return None


def check_cosmos(bundle, modname, messages, r, wd, env=None, target="tgt",
                 geometry=True, ids=True, notes=True, **kw):
    env = env or model.env_of(bundle)
    pk = run_cosmos(bundle, modname, messages, r, wd, target=target, **kw)
    if pk is None:
        return None
    if [p["name"] for p in pk] != messages:
        r.bad(f"packets {[p['name'] for p in pk]}, expected {messages}")
        return None
    for p in pk:
        d = env[p["name"]][1]
        want = model.cosmos_items(d, env)
        for msg in cosmos_diff(p["items"], want, p["name"], geometry, ids,
                               notes):
            r.bad(msg)
        if p["target"] != target or p["endian"] != "BIG_ENDIAN":
            r.bad(f"{p['name']}: packet line {p['target']} {p['endian']}")
        if notes:
            dc = (d.get("c") or {}).get("x") or ""
            if p["desc"].strip() != dc.strip():
                r.bad(f"{p['name']}: packet description {p['desc']!r}, "
                      f"expected {dc!r}")
        r.n["cosmos_items"] += len(want)
        r.n["validated"] += 1
        r.outcome("cosmos", [(i["name"], i["w"], i["type"], i["id"], i["arr"], i["desc"],
                              i["unit"], i["le"], i["limits"], i["states"])
                             for i in p["items"]])
    return pk


# ---- alphabets --------------------------------------------------------------

POSIX = {
    "Int8-t": INT(-2**7, 2**7 - 1), "Int16-t": INT(-2**15, 2**15 - 1),
    "Int32-t": INT(-2**31, 2**31 - 1), "Int64-t": INT(-2**63, 2**63 - 1),
    "Uint8-t": INT(0, 2**8 - 1), "Uint16-t": INT(0, 2**16 - 1),
    "Uint32-t": INT(0, 2**32 - 1), "Uint64-t": INT(0, 2**64 - 1),
}


def name_of(i):
    """i -> short lower case letters-only name, injective"""
    s = ""
    i += 1
    while i:
        i, k = divmod(i - 1, 26)
        s = chr(97 + k) + s
    return s
