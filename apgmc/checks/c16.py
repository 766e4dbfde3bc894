import itertools
import os
import re
import subprocess

from .. import common, cosmos, runner

LEVEL = "model_checking"
_COMMON = ("units, ENDIANNESS(LITTLE) and C, ASN.1 and COSMOS lookalikes "
           "(//, /*, #define, ?" "?/, SEQUENCE {, END, STATE, ...); every "
           "layout position x 8 layouts alone and all together; whole file "
           "CRLF, tabs, indentation 0..9, blank lines; against the bare "
           "bundle: preprocessed C of generate-cfs, -c and -binary, bytes of "
           ".bin, COSMOS items")
BOUNDS = {
    "quick": "every comment position (61, all kinds the "
             "grammar has) x every printable "
             "character alone, and all 2-letter words over the 33 punctuation "
             "characters (each at 1 to 4 positions in turn), 50 "
             "lookalikes (also after and inside a unit and after an endianness) and 72 lengths up to 4097 at every position, " + _COMMON,
    "thorough": "every comment position (61, all kinds the "
             "grammar has) x every printable "
                "character alone, all 2-letter words over the 33 punctuation "
                "characters at every position and all 3-letter words, "
                + _COMMON,
}
ASSUMPTIONS = ["a comment may be refused if it contains [ ] -- */ \" \\ or a "
               "character outside the documented set"]

# @ comment position (ends a line), ~ layout position (default a space),
# ^ layout position (default nothing)
LIB = """\
Module-lib-x DEFINITIONS AUTOMATIC TAGS ::= BEGIN@
^
  Uint8-t~::= INTEGER(0..255)@
^
  Level ::= REAL(-2.5 .. 7.25)@

  Five ::= INTEGER(0..31)@

  Flag~::= BOOLEAN@
  Tag ::= IA5String (SIZE (3))^@
  Signed ::= INTEGER(-500..500)@

  Mode ::= ENUMERATED {@
    off^,@
    on^,^@
    aut^@
  }^

  Leaf ::= SEQUENCE {@
    x Uint8-t^,@
    y INTEGER(0..255),@
    z Level,@
    five Five,@
    flag Flag,@
    bit BOOLEAN^,@
    three INTEGER(0..7),@
    tag Tag,@
    sig Signed^@
  }

  Pick~::= CHOICE {@
    a INTEGER(0..9)^,@
    b Leaf,@
    c Five^@
  }
~END^
"""
TOP = """\
Module-top~DEFINITIONS AUTOMATIC TAGS ::= BEGIN@
~IMPORTS~Leaf^,~Mode~FROM Module-lib-x@
  ;@
^
  Order~::= ENUMERATED {@
    one~(^1^)^,@
    two (0)@
  }

  Own ::= SEQUENCE {@
    p INTEGER(0..255),@
    q INTEGER(-3..100)^,@
    r INTEGER(0..65535)@
  }^

  Fixed~::= SEQUENCE {@
    own-a Own@
      (WITH COMPONENTS {@
        p^(^3^)^,@
        r (500),@
        q~(-2)@
      })^,
    own-b Own@
      (WITH COMPONENTS {@
        q (4),
        p (5),@
        r (6)
      ^})
  }
END
"""
MSG = """\
Module-msg-s DEFINITIONS AUTOMATIC TAGS ::= BEGIN@
  IMPORTS Leaf, Mode, Uint8-t, Flag, Five FROM Module-lib-x@
  ~Order~FROM Module-top@
  ;@

  Msg ::= SEQUENCE {@
    head Leaf@
    ~(WITH COMPONENTS {
        x (7)@
      })~,
    mode Mode,@
    order Order^,@
    txt IA5String (SIZE (4)),@
    flag Flag,@
    five Five,@
    raw INTEGER(0..4095),@
    far REAL(-1.0 .. 1.0e30),@
    bit BOOLEAN,@
    many SEQUENCE (SIZE (2)) OF Flag,@
    list SEQUENCE (SIZE (3)) OF Uint8-t@
  }
END
"""
TEXTS = (LIB, TOP, MSG)
PRINT = [chr(c) for c in range(33, 127)]
PUNCT = [c for c in PRINT if not c.isalnum()] + [" "]
REFUSABLE = re.compile(r'\?\?/|\[|\]|--|\*/|"|\\|[^A-Za-z0-9 -_]')
LOOK = ["// x", "/* x", "/*", "/", "*", "a * /", "#define x y", "?" "?/",
        "SEQUENCE {", "END", "STATE a 1", "ENUMERATED { a, b", "::=", ",",
        "(1)", "x y,", "LIMITS DEFAULT 1 ENABLED", "#", "a;", "  two  spaces",
        "trailing ", "ENDIANNESS", "IMPORTS", "%d %s", "$x", "@@", "~", "0",
        "[m]", "[m/s^2] speed", "[%] part", "[]", "[ m]", "a [m]",
        "ENDIANNESS(LITTLE)", "ENDIANNESS(LITTLE) [m] both", "x" * 300,
        "ENDIANNESS(BIG)", "TODO: (see 3.1), 50% of A/B", "<x>", "a'b", "&",
        "*/", "*/ int x;", "\\", "end \\", '"', '"quoted"', "a\tb", "\u00e9"]
LENGTHS = sorted({n + d for n in (32, 50, 60, 64, 72, 80, 96, 100, 120, 128,
                                  160, 200, 250, 256, 300, 400, 500, 512, 600,
                                  800, 1000, 1024, 2000, 4096)
                  for d in (-1, 0, 1)})
LAYOUTS = [" ", "  ", "\n", "\n\n\n", "\t", " \n ", "\n\t ", " " * 40]


def texts(comments=None, layout=None, post=None):
    """comments: {position: text}, layout: {position or 'all': text}"""
    comments = comments or {}
    layout = layout or {}
    out = []
    cp = itertools.count()
    lp = itertools.count()

    def sub(m):
        if m.group() == "@":
            t = comments.get(next(cp))
            return "" if t is None else (" -- " + t if t else " --")
        k = next(lp)
        t = layout.get(k, layout.get("all"))
        if m.group() == "^":
            return t or ""
        return t or " "

    for t in TEXTS:
        t = re.sub("[@~^]", sub, t)
        if post == "crlf":
            t = t.replace("\n", "\r\n")
        elif post == "tabs":
            t = re.sub(r"(?m)^ +", "\t", t)
        elif post == "blank":
            t = t.replace("\n", "\n\n")
        elif post == "cr":
            t = t.replace("\n", "\r")
        elif post and post.startswith("indent"):
            t = re.sub(r"(?m)^ *", " " * int(post[6:]), t)
        elif post == "noeol":
            t = t.rstrip()
        out.append(t)
    return out


NC = sum(t.count("@") for t in TEXTS)
NL = sum(t.count("~") + t.count("^") for t in TEXTS)


def cases(tier):
    sp = lambda n: {"states": n, "transitions": n}  # noqa: E731
    # bundles whose positions all carry a comment that must be accepted
    good, odd = [], []
    for w in (PRINT + [a + b for a in PUNCT for b in PUNCT]
              + ["x" + a + "y" for a in PUNCT] + LOOK):
        (odd if REFUSABLE.search(w) else good).append(w)
    good = list(dict.fromkeys(good))
    # quick: every word at NC positions in turn; rotations give every
    # character at every position
    chars = [c for c in good if len(c) == 1]
    fills = []
    for rot in range(len(chars)):
        fills.append([chars[(rot + i) % len(chars)] for i in range(NC)])
    longer = [w for w in good if len(w) > 1]
    look = [w for w in LOOK if not REFUSABLE.search(w)]
    for rot in range(len(look)):
        fills.append([look[(rot + i) % len(look)] for i in range(NC)])
    for f in ("[m] ", "ENDIANNESS(LITTLE) ", "ENDIANNESS(LITTLE) [m/s^2] "):
        for rot in range(0, len(look), 3):
            fills.append([f + look[(rot + i) % len(look)]
                          if "[" not in look[(rot + i) % len(look)]
                          and "ENDIANNESS" not in look[(rot + i) % len(look)]
                          else f for i in range(NC)])
    for n in LENGTHS:
        fills.append([("x" * n if i % 3 else "word " * n)[:n - 1] + "."
                      for i in range(NC)])
    step = 1 if tier == "thorough" else NC // 4
    for s in range(0, len(longer), step):
        fills.append([longer[(s + i) % len(longer)] for i in range(NC)])
    if tier == "thorough":
        three = [a + b + c for a in PUNCT for b in PUNCT for c in PUNCT]
        (three_ok, three_odd) = ([], [])
        for w in three:
            (three_odd if REFUSABLE.search(w) else three_ok).append(w)
        for s in range(0, len(three_ok), NC):
            fills.append([three_ok[(s + i) % len(three_ok)]
                          for i in range(NC)])
        odd += [w for w in three_odd if "\\" in w or '"' in w or "*/" in w]
    for i in range(0, len(fills), 6):
        g = fills[i:i + 6]
        yield {"fills": g, "_space": sp(len(g) * NC)}
    # words that may be refused: in one position, the kinds of position in turn
    odd = list(dict.fromkeys(odd))
    spots = list(range(NC))
    jobs = []
    for k, w in enumerate(odd):
        for p in (spots if len(w) == 1 or w in LOOK else
                  [spots[(k * 7) % NC]]):
            jobs.append([p, w])
    # after a unit, after an endianness, and inside a unit
    for k, w in enumerate(w for w in odd if len(w) == 1 or w in LOOK):
        for q, f in enumerate(("[m] ", "[m/s^2]", "ENDIANNESS(LITTLE) ",
                               "ENDIANNESS(LITTLE) [%] text ")):
            for p in (range((k + q) % 7, NC, 7) if tier == "quick"
                      else spots):
                jobs.append([p, f + w])
        for p in range(k % 11, NC, 11):
            jobs.append([p, f"[{w}]"])
            jobs.append([p, f"[m{w}] text"])
            jobs.append([p, f"[{w}s] text"])
    for i in range(0, len(jobs), 25):
        yield {"odd": jobs[i:i + 25], "_space": sp(len(jobs[i:i + 25]))}
    # one comment alone at each position
    yield {"fills": [[("only" if i == p else None) for i in range(NC)]
                     for p in range(NC)], "_space": sp(NC)}
    lay = [{str(p): t} for p in range(NL) for t in LAYOUTS]
    lay += [{"all": t} for t in LAYOUTS]
    for i in range(0, len(lay), 12):
        yield {"layouts": lay[i:i + 12], "_space": sp(len(lay[i:i + 12]))}
    for post in (["crlf", "cr", "tabs", "blank", "noeol"]
                 + [f"indent{i}" for i in range(10)]):
        yield {"post": post, "_space": sp(1)}


FAKE = {"stdint.h": "int has_stdint;\n", "stdbool.h": "int has_stdbool;\n"}
_base = {}


def c_text(wd, out, names):
    """what remains of the C files after comment removal and preprocessing"""
    fake = os.path.join(wd, "fake")
    os.makedirs(fake, exist_ok=True)
    for n, t in FAKE.items():
        with open(os.path.join(fake, n), "w") as f:
            f.write(t)
    src = os.path.join(wd, "all.c")
    with open(src, "w") as f:
        for n in names:
            f.write(f'#include "{n}"\n')
    p = subprocess.run(["gcc", "-E", "-P", "-dD", "-nostdinc", "-undef",
                        "-std=c11", "-I" + fake, "-I" + out, src],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stdout.decode("utf8", "replace").split()


def observe(txt, gens, r):
    """-> {gen: (rc, meaning)}"""
    res = {}
    with runner.scratch() as wd:
        full = [{"name": "lib-x"}, {"name": "top"}, {"name": "msg-s"}]
        allp = runner.write_inputs(wd + "/in", full, texts=txt)
        for gen in gens:
            # generate-binary supports no members without a value
            b, paths = ((full[:2], allp[:2]) if gen == "binary"
                        else (full, allp))
            out = wd + "/" + gen
            kw = {}
            if gen == "cosmos":
                kw = {"module": "msg-s", "messages": ["Msg"]}
            if gen == "binary":
                kw["endian"] = "big"
            rc, text = runner.run_cli(runner.argv_for(
                gen, b, paths, out, **kw), wd)
            r.n["cli_runs"] += 1
            if rc != 0:
                res[gen] = (rc, text[-300:])
                continue
            files = runner.read_tree(out)
            if gen == "cosmos":
                try:
                    pk = cosmos.parse(files["tgt.txt"].decode("utf8"))
                except cosmos.Bad as x:
                    res[gen] = (0, "invalid: " + str(x))
                    continue
                for p in pk:
                    p["desc"] = ""
                    for i in p["items"]:
                        i["desc"] = i["unit"] = i["le"] = None
                res[gen] = (0, pk)
            else:
                cs = sorted(f for f in files if f[-2:] in (".h", ".c"))
                res[gen] = (0, (sorted(files), c_text(wd, out, cs),
                                {f: d for f, d in files.items()
                                 if f.endswith(".bin")}))
    return res


ALL = ("cfs", "c", "binary", "cosmos")


def base(r):
    if runner.FRESH not in _base:
        _base[runner.FRESH] = observe(texts(), ALL, r)
    return _base[runner.FRESH]


def compare(txt, gens, r, what, may_refuse=False):
    ref = base(r)
    got = observe(txt, gens, r)
    r.n["validated"] += 1
    for g in gens:
        if ref[g][0] != 0:
            r.bad(f"generate-{g} refuses the bare bundle: {ref[g][1]}")
        elif got[g][0] == "hang":
            r.bad(f"generate-{g} does not end: {what}")
        elif got[g][0] != 0:
            if not may_refuse:
                r.bad(f"generate-{g} refuses {what}: {got[g][1]}")
        elif got[g][1] != ref[g][1]:
            r.bad(f"generate-{g} means something else with {what}"
                  + (": " + got[g][1][:200] if isinstance(got[g][1], str)
                     else ""))
        r.outcome(g, what if may_refuse else "", got[g][0])


def run(case, r):
    if "fills" in case:
        for i, f in enumerate(case["fills"]):
            compare(texts({k: t for k, t in enumerate(f) if t is not None}),
                    ALL, r, f"comments {[t for t in f if t]}"[:300])
    elif "odd" in case:
        for k, (p, w) in enumerate(case["odd"]):
            compare(texts({p: w}), (ALL[k % 3], "cosmos"), r,
                    f"comment {w!r} at position {p}", True)
    elif "layouts" in case:
        for k, lay in enumerate(case["layouts"]):
            d = {(x if x == "all" else int(x)): t for x, t in lay.items()}
            compare(texts(layout=d), (ALL[k % 3], "cosmos"), r,
                    f"layout {lay}")
    else:
        compare(texts(post=case["post"]), ALL, r, f"layout {case['post']}")
        if case["post"] != "cr":
            compare(texts({i: "word" for i in range(NC)}, post=case["post"]),
                    ALL, r, f"comments and layout {case['post']}")
