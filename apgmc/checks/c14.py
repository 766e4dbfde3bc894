import contextlib
import os
import re
import tempfile

from .. import asn, common, runner
from ..asn import INT, REF, mem, module, seq
from . import c13

LEVEL = "model_checking"
BOUNDS = {
    "quick": "every refused run: all single consistency defects of C13 at all "
             "positions, every file of the bundle cut off after each token, "
             "a stray token at every position, all wrong command lines; each "
             "from four states of the output folder (absent, empty, holding "
             "the artefacts of a good run, holding foreign files): consistency "
             "defects with all commands, an absent folder and one other state "
             "in turn, syntax errors with one command and state in turn; all successful runs of C13's sub-bundles "
             "with input in, above or below the output folder, input with "
             "tabs, CRLF, no line end and other layouts, read-only "
             "input, default output folder: nothing else changes",
    "thorough": "as quick, every refused run with all four commands",
}
ASSUMPTIONS = ["effects are looked for in the working, input and output "
               "folders, HOME and TMPDIR of the run"]
STATES = ("absent", "empty", "good", "foreign")
GENS = ("cfs", "c", "cosmos", "binary")
STALE = {"core_msg.h": b"old\n", "core_msgids.h": b"old ids\n",
         "core.h": b"old\n", "core.c": b"old\n", "tgt.txt": b"old text\n",
         "msg.bin": b"\x00\x01", "notes.txt": b"mine", "sub/x": b"y"}


def tokens(text):
    return [m.span() for m in re.finditer(r"[A-Za-z0-9_.-]+|[^\sA-Za-z0-9]",
                                          text)]


def cases(tier):
    sp = lambda n: {"states": n, "transitions": n}  # noqa: E731
    n = len(c13.defects())
    for i in range(0, n, 15):
        yield {"defects": list(range(i, min(n, i + 15))),
               "all": tier == "thorough",
               "_space": sp(len(range(i, min(n, i + 15))))}
    for mi, m in enumerate(c13.base()):
        k = len(tokens(asn.render(m)))
        for kind in ("cut", "stray"):
            for i in range(0, k, 20):
                pos = list(range(i, min(k, i + 20)))
                yield {"text": kind, "mod": mi, "pos": pos,
                       "all": tier == "thorough", "_space": sp(len(pos))}
    for st in STATES:
        for gen in GENS:
            yield {"args": gen, "state": st, "_space": sp(len(BADARGS[gen]))}
    for sub in ([0], [0, 1], [0, 1, 2, 3], [3]):
        for gen in GENS:
            for place in ("apart", "same", "above", "below", "default",
                          "readonly"):
                yield {"good": sub, "gen": gen, "place": place,
                       "_space": sp(1)}
    for gen in GENS:
        for style in STYLES:
            for place in ("apart", "same"):
                yield {"good": [0, 1, 2, 3], "gen": gen, "place": place,
                       "style": style, "_space": sp(1)}
            yield {"styled": style, "gen": gen, "_space": sp(4)}


STYLES = {
    "tabs": lambda t: re.sub(r"(?m)^( +)", lambda m: "\t" * (
        len(m.group()) // 2), t),
    "inner tabs": lambda t: t.replace(", ", ",\t"),
    "crlf": lambda t: t.replace("\n", "\r\n"),
    "no end of line": lambda t: t.rstrip(),
    "blank lines": lambda t: "\n\n" + t.replace("\n", "\n\n") + "\n\n",
    "trailing blanks": lambda t: t.replace("\n", "  \n"),
    "comments": lambda t: t.replace("BEGIN\n", "BEGIN -- some comment \n"),
    "long": lambda t: t.replace("BEGIN\n", "BEGIN\n" + "\n" * 70000),
}


# wrong command lines: edits of a right one
BADARGS = {g: ["no-input", "no-such-file", "folder-as-file", "no-modules",
               "bad-command", "bad-option", "unknown-module"]
           for g in ("cfs", "c", "binary")}
BADARGS["binary"] = BADARGS["binary"] + ["bad-endian"]
BADARGS["cosmos"] = ["no-input", "no-such-file", "folder-as-file",
                     "no-modules", "no-messages", "no-name", "bad-command",
                     "bad-option", "unknown-module", "unknown-message",
                     "late-unknown-message", "foreign-message"]


def snap(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for x in dirs + files:
            p = os.path.join(d, x)
            st = os.lstat(p)
            data = None
            if x in files:
                with open(p, "rb") as f:
                    data = f.read()
            out[os.path.relpath(p, root)] = (
                st.st_mode, data, st.st_mtime_ns if x in files else None)
    return out


def diff(a, b, allow=()):
    """changed paths outside the allowed folders"""
    bad = []
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p) and not any(
                p == x or p.startswith(x + "/") for x in allow):
            bad.append(p + (" appeared" if p not in a else
                            " vanished" if p not in b else " changed"))
    return bad


def prepare(wd, state, gen, bundle_ok, fill=True):
    for d in ("cwd", "home", "tmp"):
        os.makedirs(os.path.join(wd, d))
    out = os.path.join(wd, "out")
    if state == "absent":
        return out
    os.makedirs(out)
    if state == "good":
        paths = runner.write_inputs(wd + "/good", bundle_ok)
        rc, text = runner.run_cli(runner.argv_for(
            gen, bundle_ok, paths, out, **c13.kwargs(gen)), wd + "/cwd")
        if rc != 0:
            raise RuntimeError("good run refused: " + text[-300:])
    elif state == "foreign":
        for n, data in STALE.items():
            p = os.path.join(out, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
    return out


@contextlib.contextmanager
def at_home(wd):
    """home and temporary folder below wd, where changes are seen"""
    old = {k: os.environ.get(k) for k in ("HOME", "TMPDIR")}
    tmp = tempfile.tempdir
    os.environ["HOME"] = wd + "/home"
    os.environ["TMPDIR"] = tempfile.tempdir = wd + "/tmp"
    try:
        yield
    finally:
        tempfile.tempdir = tmp
        for k, v in old.items():
            if v is None:
                os.environ.pop(k)
            else:
                os.environ[k] = v


def refused(r, wd, argv, what, must=True):
    before = snap(wd)
    with at_home(wd):
        rc, text = runner.run_cli(argv, wd + "/cwd")
    after = snap(wd)
    r.n["cli_runs"] += 1
    r.n["validated"] += 1
    r.outcome(argv[0], what[:40], rc)
    if rc == 0:
        if must:
            r.bad(f"accepted: {what}")
        return
    if rc == "hang":
        r.bad(f"does not end: {what}")
    for p in diff(before, after)[:3]:
        r.bad(f"{argv[0]} exits {rc} for {what}, but {p}")


def small():
    return c13.strip(c13.base())[:2]


def bundle_run(r, b, texts, gen, state, what, msgmod="core"):
    with runner.scratch() as wd:
        out = prepare(wd, state, gen, small())
        paths = runner.write_inputs(
            wd + "/in", b, names=[f"f{i}.asn" for i in range(len(b))],
            texts=texts)
        argv = runner.argv_for(
            gen, b, paths, out,
            mods=list(dict.fromkeys(m["name"] for m in b)),
            **c13.kwargs(gen, msgmod))
        refused(r, wd, argv, f"{what} (output {state})")


def run(case, r):
    if "defects" in case:
        ds = c13.defects()
        for i in case["defects"]:
            d = ds[i]
            b = c13.apply(c13.base(), d)
            k = i
            for g, gen in enumerate(GENS):
                if gen == "binary":
                    if d["kind"] == "component":
                        continue
                    b2 = c13.strip(b)
                else:
                    b2 = b
                for st in (STATES if case["all"] else
                           ["absent", STATES[1 + (k + g) % 3]]):
                    bundle_run(r, b2, None, gen, st,
                               f"{d['kind']}: {d['ops']}"[:200],
                               "iso" if d["mod"] != 3 else "core")
    elif "text" in case:
        b = c13.strip(c13.base())
        mi = case["mod"]
        full = asn.render(b[mi])
        spans = tokens(full)
        for i in case["pos"]:
            if i >= len(spans):
                continue
            if case["text"] == "cut":
                t = full[:spans[i][0]]
            else:
                t = full[:spans[i][0]] + " $ " + full[spans[i][0]:]
            texts = [asn.render(m) for m in b]
            texts[mi] = t
            for gen in GENS if case["all"] else [GENS[i % 4]]:
                bundle_run(r, b, texts, gen, STATES[i // 4 % 4],
                           f"{case['text']} at token {i} of {b[mi]['name']}",
                           "core")
    elif "styled" in case:
        # a defect of each module, and a file cut off
        for mi in range(4):
            d = [x for x in c13.defects() if x["mod"] == mi
                 and x["kind"] == "undefined"][mi]
            for what, b in (("undefined type", c13.apply(c13.base(), d)),
                            ("cut", c13.base())):
                b = c13.strip(b)
                texts = [STYLES[case["styled"]](asn.render(m)) for m in b]
                if what == "cut":
                    texts[mi] = texts[mi].rstrip()[:-3]
                bundle_run(r, b, texts, case["gen"], STATES[mi],
                           f"{what} with {case['styled']}", "core")
    elif "args" in case:
        gen = case["args"]
        for bad in BADARGS[gen]:
            with runner.scratch() as wd:
                out = prepare(wd, case["state"], gen, small())
                b = small()
                paths = runner.write_inputs(wd + "/in", b)
                argv = runner.argv_for(gen, b, paths, out, **c13.kwargs(gen))
                argv = spoil(argv, bad, paths, wd)
                refused(r, wd, argv, f"{bad} (output {case['state']})")
    else:
        good(case, r)


def spoil(argv, bad, paths, wd):
    def cut(opt):
        i = argv.index(opt)
        return argv[:i] + argv[i + 2:]

    def setopt(opt, v):
        i = argv.index(opt)
        return argv[:i + 1] + [v] + argv[i + 2:]

    mods = "--asn1-module" if argv[0] == "generate-cosmos" else \
        "--asn1-modules"
    if bad == "no-input":
        return argv[:-len(paths)]
    if bad == "no-such-file":
        return argv + [wd + "/in/none.asn"]
    if bad == "folder-as-file":
        return argv[:-1] + [wd + "/in"]
    if bad == "no-modules":
        return cut(mods)
    if bad == "no-messages":
        return cut("--asn1-messages")
    if bad == "no-name":
        return cut("--output-file-name")
    if bad == "bad-command":
        return ["generate-nothing"] + argv[1:]
    if bad == "bad-option":
        return argv + ["--no-such-option"]
    if bad == "unknown-module":
        return setopt(mods, "nowhere")
    if bad == "bad-endian":
        return setopt("--endianness", "middle-endian")
    if bad == "unknown-message":
        return setopt("--asn1-messages", "Ghost")
    if bad == "late-unknown-message":
        return setopt("--asn1-messages", "Leaf,Ghost")
    if bad == "foreign-message":
        return setopt("--asn1-messages", "Leaf,Node")
    raise AssertionError(bad)


def good(case, r):
    gen, place = case["gen"], case["place"]
    b = [c13.base()[i] for i in case["good"]]
    if gen == "binary":
        b = c13.strip(b)
    with runner.scratch() as wd:
        for d in ("cwd", "home", "tmp"):
            os.makedirs(os.path.join(wd, d))
        ind = "in"
        out = "out"
        if place == "same":
            out = "in"
        elif place == "above":
            ind, out = "out/in", "out"
        elif place == "below":
            out = "in/out"
        elif place == "default":
            out = "cwd/output/" + gen
        style = STYLES.get(case.get("style"), str)
        paths = runner.write_inputs(os.path.join(wd, ind), b, texts=[
            style(asn.render(m)) for m in b])
        if place == "readonly":
            for p in paths:
                os.chmod(p, 0o444)
        argv = runner.argv_for(gen, b, paths, os.path.join(wd, out),
                               **c13.kwargs(gen, b[0]["name"]))
        if place == "default":
            i = argv.index("--output-dir")
            argv = argv[:i] + argv[i + 2:]
        before = snap(wd)
        with at_home(wd):
            rc, text = runner.run_cli(argv, wd + "/cwd")
        after = snap(wd)
        r.n["validated"] += 1
        r.outcome(gen, place, len(b), rc)
        if rc != 0:
            r.bad(f"generate-{gen} fails with {place}: {text[-300:]}")
            return
        allow = [out]
        if place == "default":
            allow.append("cwd/output")
        bad = diff(before, after, allow)
        # the files written into a shared folder must not be the inputs
        for p in paths:
            q = os.path.relpath(p, wd)
            if before[q] != after.get(q):
                bad.append(q + " (an input)")
        for p in bad:
            r.bad(f"generate-{gen} ({place}): {p}")
