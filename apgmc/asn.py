"""Abstract syntax of ASN.1 bundles (plain JSON-able data) and its renderer.

A *bundle* is a list of modules.  Everything is dict / list / str / int so
that any case of any exploration can be written to a replay file.
"""


# ---- constructors -----------------------------------------------------------

def INT(lo, hi):
    return {"t": "int", "lo": lo, "hi": hi}


def REAL(lo, hi):
    """lo/hi are decimal literals (str) so that rendering is exact."""
    return {"t": "real", "lo": lo, "hi": hi}


BOOL = {"t": "bool"}
NULL = {"t": "null"}


def STR(n, kind="IA5String"):
    return {"t": "str", "s": kind, "n": n}


def REF(name):
    return {"t": "ref", "r": name}


def ARR(n, elem):
    return {"t": "arr", "n": n, "e": elem}


def CMT(text=None, unit=None, le=False):
    return {"x": text, "u": unit, "le": le}


def mem(name, typ, c=None, wc=None):
    return {"n": name, "t": typ, "c": c, "wc": wc}


def seq(name, members, c=None):
    return {"k": "seq", "name": name, "m": members, "c": c}


def choice(name, members, c=None):
    return {"k": "choice", "name": name, "m": members, "c": c}


def enum(name, items, c=None):
    """items: list of key | [key, pos|None] | [key, pos|None, comment]"""
    out = []
    for i in items:
        if isinstance(i, str):
            i = [i]
        i = list(i) + [None] * (3 - len(i))
        out.append(i)
    return {"k": "enum", "name": name, "items": out, "c": c}


def alias(name, typ, c=None):
    return {"k": "alias", "name": name, "t": typ, "c": c}


def imp(names, module, c=None):
    return {"names": list(names), "from": module, "c": c}


def module(name, defs, imports=(), c=None, ic=None):
    return {"name": name, "defs": list(defs), "imports": list(imports),
            "c": c, "ic": ic}


def WC(*items):
    """components: (key, value); value = int | float literal {'f': '1.5'} |
    bool | {'wc': [...]}"""
    return [[k, v] for k, v in items]


def F(lit):
    return {"f": lit}


def N(*items):
    return {"wc": WC(*items)}


# ---- rendering --------------------------------------------------------------

def r_type(t):
    k = t["t"]
    if k == "int":
        if t["lo"] is None:
            return "INTEGER"
        return f"INTEGER({t['lo']}..{t['hi']})"
    if k == "real":
        if t["lo"] is None:
            return "REAL"
        return f"REAL({t['lo']} .. {t['hi']})"
    if k == "bool":
        return "BOOLEAN"
    if k == "null":
        return "NULL"
    if k == "str":
        return f"{t['s']} (SIZE ({t['n']}))"
    if k == "ref":
        return t["r"]
    if k == "arr":
        return f"SEQUENCE (SIZE ({t['n']})) OF {r_type(t['e'])}"
    raise AssertionError(k)


def r_comment(c):
    """' -- ...' or ''; a comment always ends its line."""
    if c is None:
        return ""
    s = " --"
    if c.get("le"):
        s += " ENDIANNESS(LITTLE)"
    if c.get("u"):
        s += f" [{c['u']}]"
    if c.get("x"):
        s += f" {c['x']}"
    return s


def r_value(v):
    if v is True:
        return "TRUE"
    if v is False:
        return "FALSE"
    if isinstance(v, dict):
        return v["f"]
    return str(v)


def r_wc(wc, ind, c=""):
    """c: rendered comment to put after the brace and every component"""
    lines = ["(WITH COMPONENTS {" + c]
    for i, (k, v) in enumerate(wc):
        comma = "," if i + 1 < len(wc) else ""
        if isinstance(v, dict) and "wc" in v:
            body = f"{k} {r_wc(v['wc'], ind + 2, c)}"
        else:
            body = f"{k} ({r_value(v)})"
        lines.append(" " * (ind + 2) + body + comma + c)
    lines.append(" " * ind + "})")
    return "\n".join(lines)


def r_members(ms, ind):
    out = []
    for i, m in enumerate(ms):
        comma = "," if i + 1 < len(ms) else ""
        head = " " * ind + f"{m['n']} {r_type(m['t'])}"
        if m.get("wc"):
            c = r_comment(m.get("c"))
            sep = "\n" + " " * ind if c else " "
            out.append(head + c + sep + r_wc(
                m["wc"], ind, r_comment(m.get("wcc"))) + comma)
        else:
            out.append(head + comma + r_comment(m.get("c")))
    return out


def r_def(d, ind=2):
    p = " " * ind
    k = d["k"]
    c = r_comment(d.get("c"))
    if k in ("seq", "choice"):
        kw = "SEQUENCE" if k == "seq" else "CHOICE"
        return "\n".join(
            [f"{p}{d['name']} ::= {kw} {{{c}"]
            + r_members(d["m"], ind + 2) + [p + "}"])
    if k == "enum":
        lines = [f"{p}{d['name']} ::= ENUMERATED {{{c}"]
        for i, (key, pos, ic) in enumerate(d["items"]):
            comma = "," if i + 1 < len(d["items"]) else ""
            ps = "" if pos is None else f" ({pos})"
            lines.append(f"{p}  {key}{ps}{comma}{r_comment(ic)}")
        return "\n".join(lines + [p + "}"])
    if k == "alias":
        return f"{p}{d['name']} ::= {r_type(d['t'])}{c}"
    raise AssertionError(k)


def r_imports(m):
    if not m["imports"]:
        return ""
    lines = []
    for i, im in enumerate(m["imports"]):
        last = i + 1 == len(m["imports"])
        s = f"{', '.join(im['names'])} FROM Module-{im['from']}"
        if last and im.get("c"):
            s += r_comment(im["c"]) + "\n   ;"
        elif last:
            s += ";"
        else:
            s += r_comment(im.get("c"))
        lines.append(("  IMPORTS " if i == 0 else "    ") + s)
    return "\n".join(lines) + r_comment(m.get("ic")) + "\n"


def render(m):
    return (f"Module-{m['name']} DEFINITIONS AUTOMATIC TAGS ::= BEGIN"
            f"{r_comment(m.get('c'))}\n\n{r_imports(m)}\n"
            + "\n\n".join(r_def(d) for d in m["defs"]) + "\n\nEND\n")
