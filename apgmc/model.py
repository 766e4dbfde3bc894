"""Reference semantics: what each generated artefact has to mean.

Written from the documentation and ASN.1/CCSDS/COSMOS conventions, independent
of the implementation (it shares no code with /repo).
"""


def cname(n):
    return n.replace("-", "_")


def lower1(n):
    return n[:1].lower() + n[1:]


STDINT = (8, 16, 32, 64)


def env_of(bundle):
    """type name -> (module name, definition); names are unique per bundle"""
    e = {}
    for m in bundle:
        for d in m["defs"]:
            e[d["name"]] = (m["name"], d)
    return e


def int_shape(lo, hi):
    if lo >= 0:
        return {"s": "uint", "w": max(1, hi.bit_length()), "lo": lo, "hi": hi}
    for w in STDINT:
        if -(1 << (w - 1)) <= lo and hi <= (1 << (w - 1)) - 1:
            return {"s": "int", "w": w, "lo": lo, "hi": hi}
    raise ValueError("no stdint type")


FLT = 3.4e38


def real_shape(lo, hi):
    a, b = float(lo), float(hi)
    if a >= -FLT and b <= FLT:
        return {"s": "flt", "w": 32, "lo": a, "hi": b}
    return {"s": "flt", "w": 64, "lo": a, "hi": b}


def enum_states(d):
    """keys by value 0..n-1"""
    items = d["items"]
    if all(p is None for _, p, _ in items):
        return [k for k, _, _ in items]
    out = [None] * len(items)
    for k, p, _ in items:
        out[p] = k
    assert all(o is not None for o in out)
    return out


def shape(t, env, via_alias=False):
    k = t["t"]
    if k == "int":
        return dict(int_shape(t["lo"], t["hi"]), alias=via_alias)
    if k == "real":
        return dict(real_shape(t["lo"], t["hi"]), alias=via_alias)
    if k == "bool":
        return {"s": "bool", "w": 1, "alias": via_alias}
    if k == "str":
        return {"s": "str", "n": t["n"], "w": 8 * t["n"], "alias": via_alias}
    if k == "arr":
        return {"s": "arr", "n": t["n"], "e": shape(t["e"], env)}
    if k == "ref":
        d = env[t["r"]][1]
        if d["k"] == "alias":
            return shape(d["t"], env, True)
        if d["k"] == "enum":
            st = enum_states(d)
            return {"s": "enum", "name": d["name"], "states": st,
                    "w": max(1, (len(st) - 1).bit_length())}
        if d["k"] in ("seq", "choice"):
            return {"s": "seq", "name": d["name"], "d": d}
    raise AssertionError(t)


# ---- C ----------------------------------------------------------------------

def is_bitfield(s):
    return (s["s"] in ("bool", "enum")
            or (s["s"] == "uint" and s["w"] not in STDINT))


def storage(s):
    """width of an array element in C: the containing stdint type"""
    if s["s"] in ("uint", "bool"):
        return next(w for w in STDINT if w >= s["w"])
    if s["s"] == "enum":
        return 8 if len(s["states"]) <= 256 else 16
    return s["w"]


def csize(s, env):
    """size in bits of a non-bitfield member / array element of shape s"""
    if s["s"] == "arr":
        return s["n"] * csize(s["e"], env)
    if s["s"] == "seq":
        return layout(s["d"], env)[1]
    return storage(s)


def _up8(x):
    return (x + 7) // 8 * 8


def layout(d, env):
    """-> ([(member, shape, offset bits, width bits)], total bits)"""
    cur = most = 0
    out = []
    for m in d["m"]:
        if d["k"] == "choice":
            cur = 0
        s = shape(m["t"], env)
        if d["k"] == "choice":
            s = dict(s, pad=True)
        if is_bitfield(s):
            w = s["w"]
        else:
            cur = _up8(cur)
            w = csize(s, env)
        out.append((m, s, cur, w))
        cur += w
        most = max(most, cur)
    return out, _up8(most)


def c_leaves(d, env, maxel=3):
    """all scalar leaves: (c path, shape, offset, width, in_array);
    arrays are expanded to the first, second and last element"""
    out = []

    def walk(path, s, off, w, inarr):
        if s["s"] == "seq":
            for m, ms, mo, mw in layout(s["d"], env)[0]:
                walk(f"{path}.{cname(m['n'])}", ms, off + mo, mw, inarr)
        elif s["s"] == "arr":
            ew = csize(s["e"], env)
            idx = sorted({0, min(1, s["n"] - 1), s["n"] - 1})
            for i in idx:
                walk(f"{path}[{i}]", s["e"], off + i * ew, ew, True)
        else:
            out.append((path, s, off, w, inarr))

    for m, s, o, w in layout(d, env)[0]:
        walk(cname(m["n"]), s, o, w, False)
    return out


# ---- COSMOS -----------------------------------------------------------------

APID = "application-process-identifier"


def wc_get(wc, key):
    for k, v in wc or ():
        if k == key:
            return v
    return None


def cosmos_items(d, env, wc=None):
    """flat list of expected items of the packet of sequence d.  `wc` is the
    list of component lists in force for d's members (outermost first)."""
    out = []
    for m in d["m"]:
        s = shape(m["t"], env)
        vals = [v for v in (wc_get(w, m["n"]) for w in wc or ())
                if v is not None]
        if s["s"] == "seq":
            inner = [v["wc"] for v in vals]
            if m.get("wc"):
                inner.append(m["wc"])
            out += cosmos_items(s["d"], env, inner)
            continue
        arr = None
        if s["s"] == "arr":
            arr, s = s["n"], s["e"]
            while s["s"] == "arr":
                arr, s = arr * s["n"], s["e"]
            assert s["s"] != "seq"
        c = m.get("c") or {}
        it = {"name": m["n"], "w": s["w"], "arr": arr and arr * s["w"],
              "type": {"uint": "UINT", "bool": "UINT", "enum": "UINT",
                       "int": "INT", "flt": "FLOAT", "str": "STRING"}[s["s"]],
              "id": None, "desc": c.get("x") or "", "unit": c.get("u"),
              "le": bool(c.get("le")), "states": [], "limits": None}
        if vals:
            v = vals[0]
            if isinstance(v, dict):
                v = float(v["f"])
            it["id"] = int(v) if isinstance(v, bool) else v
        if s["s"] == "bool":
            it["states"] = (None if s.get("alias")
                            else [("False", 0), ("True", 1)])
        elif s["s"] == "enum":
            it["states"] = [(k, i) for i, k in enumerate(s["states"])]
        if s["s"] == "flt":
            import sys
            lim = FLT if s["w"] == 32 else sys.float_info.max
            if s["lo"] > -lim or s["hi"] < lim:
                it["limits"] = (s["lo"], s["lo"], s["hi"], s["hi"])
        out.append(it)
    return out


# ---- cFS --------------------------------------------------------------------

HDR = ("packet-version-number", "packet-type-is-cmd",
       "sec-hdr-flag-is-present", APID)


def mid(version, cmd, sec, apid):
    return (version * 8192) + (4096 if cmd else 0) + (2048 if sec else 0) + apid


def cfs_defines(d):
    """expected {macro: value} of sequence d; value: int|float|bool"""
    out = {}
    name = cname(d["name"]).upper()

    def walk(wc):
        for k, v in wc:
            if isinstance(v, dict) and "wc" in v:
                if k == "primary":
                    h = dict(v["wc"][0][1]["wc"])
                    out[name + "_MID"] = mid(h.get(HDR[0], 0),
                                             h.get(HDR[1], False),
                                             h.get(HDR[2], False),
                                             h.get(HDR[3], 0))
                else:
                    walk(v["wc"])
            else:
                if isinstance(v, dict):
                    v = float(v["f"])
                out[f"{name}_{cname(k).upper()}"] = v

    for m in d["m"]:
        if m.get("wc"):
            walk(m["wc"])
    return out
