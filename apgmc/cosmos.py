"""Reader of COSMOS telemetry definition files (the subset APG emits)."""
import re


class Bad(Exception):
    pass


_TOK = re.compile(r'"([^"]*)"|(\S+)')


def _tokens(line):
    out = []
    for m in _TOK.finditer(line):
        out.append(("q", m.group(1)) if m.group(1) is not None
                   else ("w", m.group(2)))
    return out


def num(s):
    try:
        return int(s, 0)
    except ValueError:
        return float(s)


def parse(text):
    """-> list of packets {target,name,endian,desc,items:[...]} in file order"""
    pkts = []
    for ln, line in enumerate(text.splitlines(), 1):
        st = line.strip()
        if not st or st.startswith("#"):
            continue
        tk = _tokens(st)
        kw = tk[0][1]
        w = [t for _, t in tk]
        try:
            if kw == "TELEMETRY":
                if tk[4][0] != "q" or len(tk) != 5:
                    raise Bad("packet line")
                pkts.append({"target": w[1], "name": w[2], "endian": w[3],
                             "desc": w[4], "items": []})
            elif kw in ("APPEND_ITEM", "APPEND_ID_ITEM", "APPEND_ARRAY_ITEM"):
                it = {"kind": kw, "name": w[1], "w": int(w[2]), "type": w[3],
                      "id": None, "arr": None, "states": [], "limits": None,
                      "unit": None, "le": False}
                i = 4
                if kw == "APPEND_ID_ITEM":
                    it["id"] = num(w[i])
                    i += 1
                elif kw == "APPEND_ARRAY_ITEM":
                    it["arr"] = int(w[i])
                    i += 1
                if tk[i][0] != "q":
                    raise Bad("description expected")
                it["desc"] = w[i]
                rest = w[i + 1:]
                if rest == ["LITTLE_ENDIAN"]:
                    it["le"] = True
                elif rest not in ([], ["BIG_ENDIAN"]):
                    raise Bad("trailing text")
                pkts[-1]["items"].append(it)
            elif kw == "STATE":
                if len(w) != 3:
                    raise Bad("state line")
                pkts[-1]["items"][-1]["states"].append((w[1], int(w[2], 0)))
            elif kw == "LIMITS":
                if len(w) != 8 or w[1] != "DEFAULT" or w[3] != "ENABLED":
                    raise Bad("limits line")
                if pkts[-1]["items"][-1]["limits"]:
                    raise Bad("second limits line")
                pkts[-1]["items"][-1]["limits"] = tuple(map(float, w[4:8]))
            elif kw == "UNITS":
                if len(w) != 3 or w[1] != w[2]:
                    raise Bad("units line")
                if pkts[-1]["items"][-1]["unit"]:
                    raise Bad("second units line")
                pkts[-1]["items"][-1]["unit"] = w[1]
            else:
                raise Bad("unknown keyword")
        except (IndexError, ValueError, Bad) as x:
            raise Bad(f"line {ln} not valid COSMOS ({x}): {line}")
    return pkts
