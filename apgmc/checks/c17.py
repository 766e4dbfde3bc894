import itertools
import json
import os
import subprocess
import sys

from .. import common, runner
from ..asn import (ARR, BOOL, CMT, INT, REAL, REF, STR, WC, N, alias, enum,
                   imp, mem, module, seq)

LEVEL = "model_checking"
_COMMON = ("; all combinations of 5 working folders, 5 ways to write input "
           "and output paths and 4 file name styles; 9 environments "
           "(locale, HOME, USER, time zone, terminal, optimised interpreter); "
           "3 dates; 3 sets of process and host data, file times and "
           "permissions; every environment variable that is read, with 5 "
           "values; hash seeds")
BOUNDS = {
    "quick": "set iteration orders under a controlled scheduler: all "
             "executions of all four commands on 4 bundles of 1..4 modules "
             "with up to one deviating choice (all permutations of sets of "
             "up to 3 elements, 5 of larger ones); all histories of up to 2 "
             "earlier runs (6 kinds) in the same process" + _COMMON
             + " 0..11",
    "thorough": "set iteration orders under a controlled scheduler: all "
                "executions with up to two deviating choices (at most 4000 "
                "per command and bundle); all histories of up to 3 earlier "
                "runs in the same process" + _COMMON + " 0..63",
}
ASSUMPTIONS = ["iteration orders explored are those Python leaves open; a "
               "difference seen for sets of strings is reported only if two "
               "hash seeds reproduce it"]
GENS = ("cfs", "c", "binary", "cosmos")


def bundles():
    lib = module("lib", [
        alias("Uint8-t", INT(0, 255)), alias("Uint16-t", INT(0, 65535)),
        alias("Five", INT(0, 31)), alias("Nine", INT(0, 511)),
        alias("Ratio", REAL("-1.0", "1.0")), alias("Tag", STR(4)),
        enum("Mode", [["on", 1], ["off", 0], ["un", 2]]),
        enum("Kind", ["ka", "kb"]),
        seq("Leaf", [mem("x", REF("Five")), mem("y", BOOL),
                     mem("m", REF("Mode")), mem("k", REF("Kind"))]),
        seq("Pair", [mem("a", REF("Uint8-t")), mem("b", REF("Uint16-t"))]),
    ], c=CMT("the library"))
    mid = module("mid", [
        seq("Node", [mem("l", REF("Leaf")), mem("p", REF("Pair")),
                     mem("n", REF("Nine")), mem("r", REF("Ratio"))]),
        seq("Both", [mem("p", REF("Pair")), mem("q", REF("Pair"))]),
    ], [imp(["Leaf", "Pair", "Nine", "Ratio"], "lib")])
    top = module("top", [
        seq("Fix-a", [mem("p", REF("Pair"), wc=WC(("a", 3), ("b", 700)))]),
        seq("Msg", [mem("n", REF("Node")), mem("t", REF("Tag")),
                    mem("f", REF("Five")), mem("u", REF("Uint8-t"))]),
        seq("Fix-b", [mem("p", REF("Pair"), wc=WC(("b", 9), ("a", 1))),
                      mem("v", REF("Nine"))]),
    ], [imp(["Pair", "Tag", "Five", "Uint8-t", "Nine"], "lib"),
        imp(["Node"], "mid")])
    iso = module("iso", [
        alias("Int16-t", INT(-2**15, 2**15 - 1)),
        alias("Three", INT(0, 7)),
        seq("Leaf-b", [mem("a", REF("Int16-t")), mem("b", REF("Three"))]),
        seq("Alone", [mem("one", REF("Leaf-b"), wc=WC(("a", 5),)),
                      mem("two", REF("Leaf-b"))]),
    ])
    binary = module("bins", [
        seq("Part", [mem("a", INT(0, 255)), mem("b", INT(0, 65535)),
                     mem("c", INT(-5, 5))]),
        seq("Fix-c", [mem("p", REF("Part"), wc=WC(
            ("c", -1), ("b", 2), ("a", 3)))]),
        seq("Fix-d", [mem("q", REF("Part"), wc=WC(
            ("a", 4), ("b", 5), ("c", 2)))]),
    ])
    return [([lib, mid, top, iso], "top", ["Msg", "Fix-a"]),
            ([iso, top, mid, lib], "mid", ["Both", "Node"]),
            ([lib, mid], "lib", ["Leaf", "Pair"]),
            ([binary], "bins", ["Fix-c", "Part"])]


def job(i, gen):
    b, mod, msgs = bundles()[i]
    if gen == "binary":
        b = json.loads(json.dumps(b))
        if i != 3:
            for m in b:
                for d in m["defs"]:
                    for x in d.get("m", []):
                        x["wc"] = None
    kw = {"endian": "little"} if gen == "binary" else {}
    if gen == "cosmos":
        kw = {"module": mod, "messages": msgs}
    return b, kw


CWDS = ("root", "in", "out-parent", "deep", "link")
STYLES = ("abs", "rel", "dot", "updown", "link")
NAMES = ("plain", "short", "odd", "order")
ENVS = [{}, {"LANG": "C", "LC_ALL": "C"},
        {"LANG": "de_DE.UTF-8", "LC_ALL": "C.UTF-8"},
        {"HOME": "/nonexistent", "USER": "nobody", "LOGNAME": "nobody"},
        {"TZ": "Asia/Tokyo"}, {"COLUMNS": "20", "TERM": "dumb"},
        {"PYTHONOPTIMIZE": "1"}, {"PYTHONUTF8": "0", "LC_ALL": "POSIX"},
        {"PYTHONMALLOC": "malloc", "PADDING": "x" * 3000}]
HIST = ["same", "other-gen", "other-bundle", "failing", "cosmos", "binary"]
DATES = [0, 946684799, 4102444800]


def cases(tier):
    quick = tier == "quick"
    for i in range(4):
        for gen in GENS:
            yield {"orders": gen, "bundle": i,
                   "depth": 1 if quick else 2,
                   "budget": 400 if quick else 4000,
                   "_space": {"states": 1, "transitions": 1}}
    for gen in GENS:
        hs = [list(h) for k in range(1, 3 if quick else 4)
              for h in itertools.product(HIST, repeat=k)]
        for i in range(0, len(hs), 14):
            yield {"hist": hs[i:i + 14], "gen": gen,
                   "_space": {"states": len(hs[i:i + 14]), "transitions":
                              sum(map(len, hs[i:i + 14]))}}
        for cwd in CWDS:
            yield {"paths": cwd, "gen": gen,
                   "_space": {"states": len(STYLES) * len(NAMES),
                              "transitions": len(STYLES) * len(NAMES)}}
        for i in range(0, len(ENVS), 3):
            yield {"envs": list(range(i, min(i + 3, len(ENVS)))), "gen": gen,
                   "_space": {"states": 3, "transitions": 3}}
        seeds = range(12 if quick else 64)
        for i in range(0, len(seeds), 6):
            yield {"seeds": list(seeds[i:i + 6]), "gen": gen, "bundle": 0,
                   "_space": {"states": 6, "transitions": 6}}
        yield {"dates": 1, "gen": gen,
               "_space": {"states": 3, "transitions": 3}}
        yield {"ambient": 1, "gen": gen,
               "_space": {"states": 4, "transitions": 4}}
        yield {"read": 1, "gen": gen,
               "_space": {"states": 1, "transitions": 1}}


def plain(i, gen, wd, sub, env=None, seed=None):
    """a run of its own"""
    b, kw = job(i, gen)
    e = dict(env or {})
    if seed is not None:
        e["PYTHONHASHSEED"] = str(seed)
    paths = runner.write_inputs(os.path.join(wd, "in"), b)
    out = os.path.join(wd, sub)
    rc, text = runner.run_cli(runner.argv_for(gen, b, paths, out, **kw), wd,
                              env=e or {"APGMC_FRESH": "1"})
    return rc, (runner.read_tree(out) if os.path.isdir(out) else None), text


def differ(a, b):
    if a is None or b is None:
        return [] if a == b else ["<output folder>"]
    return [f for f in sorted(set(a) | set(b)) if a.get(f) != b.get(f)]


def judge(r, gen, what, ref, got):
    r.n["validated"] += 1
    if got[0] != ref[0]:
        r.bad(f"generate-{gen}: exit {got[0]} with {what}, {ref[0]} without: "
              + got[2][-200:])
        return
    d = differ(ref[1], got[1])
    if d:
        r.bad(f"generate-{gen}: {d} differ with {what}")
    r.outcome(gen, what, got[0], sorted(got[1] or ()))


def run(case, r):
    gen = case.get("gen") or case["orders"]
    with runner.scratch() as wd:
        if "orders" in case:
            return orders(case, r, wd, gen)
        if "seeds" in case:
            ref = plain(case["bundle"], gen, wd, "ref", seed=0)
            for s in case["seeds"]:
                judge(r, gen, f"hash seed {s}", ref,
                      plain(case["bundle"], gen, wd, f"o{s}", seed=s))
            if ref[0] != 0:
                r.bad(f"generate-{gen} fails: {ref[2][-300:]}")
            return
        if "envs" in case:
            ref = plain(0, gen, wd, "ref")
            for k in case["envs"]:
                judge(r, gen, f"environment {ENVS[k]}"[:80], ref,
                      plain(0, gen, wd, f"o{k}", env=ENVS[k]))
            return
        if "dates" in case:
            ref = plain(0, gen, wd, "ref")
            for k, t in enumerate(DATES):
                judge(r, gen, f"clock {t}", ref, dated(gen, wd, f"o{k}", t))
            return
        if "ambient" in case:
            return ambient(r, wd, gen)
        if "read" in case:
            return read(r, wd, gen)
        if "hist" in case:
            return history(case, r, wd, gen)
        return paths(case, r, wd, gen)


# ---- set orders -------------------------------------------------------------

def orders(case, r, wd, gen):
    i = case["bundle"]
    b, kw = job(i, gen)
    ref = plain(i, gen, wd, "ref")
    if ref[0] != 0:
        r.bad(f"generate-{gen} fails: {ref[2][-300:]}")
        return
    ps = runner.write_inputs(wd + "/in", b)
    out = wd + "/out"
    spec = {"main": runner.MAIN, "cwd": wd, "out": out,
            "argv": runner.argv_for(gen, b, ps, out, **kw),
            "depth": case["depth"], "budget": case["budget"]}
    with open(wd + "/job.json", "w") as f:
        json.dump(spec, f)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONHASHSEED="0")
    try:
        p = subprocess.run(
            [runner.PY, "-B", "-W", "ignore", here + "/orders.py",
             wd + "/job.json", wd + "/res.json"], env=env, timeout=3000,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        r.n["orders_not_explored"] += 1
        return
    try:
        with open(wd + "/res.json") as f:
            res = json.load(f)
    except (OSError, ValueError):
        res = {"error": p.stdout.decode("utf8", "replace")[-300:]}
    if "error" in res or res["rc"] != 0:
        # the instrumented copy does not run: nothing is concluded from it
        r.n["orders_not_explored"] += 1
        return
    r.n["order_executions"] += res["runs"]
    r.n["order_points"] += res["points"]
    r.n["validated"] += 1
    r.outcome("orders", gen, i, res["points"])
    if not res["different"]:
        return
    d = res["different"][0]
    what = (f"generate-{gen} on bundle {i}: files {d['files']} / exit "
            f"{d['rc']} depend on the iteration order of a set "
            f"({d['kind']}), choices {d['script']}")
    if any(x["kind"] == "id" and x["rc"] == 0 for x in res["different"]):
        r.bad(what)
        return
    for s in range(1, 96):
        got = plain(i, gen, wd, f"s{s}", seed=s)
        if got[0] != ref[0] or differ(ref[1], got[1]):
            r.bad(what + f"; seen with PYTHONHASHSEED={s}")
            return
    r.n["orders_not_reproduced"] += 1


# ---- clock ------------------------------------------------------------------

CLOCK = r'''
import sys, time, datetime, runpy
T = float(sys.argv[1]); sys.argv = sys.argv[2:]
_gm, _lo, _st, _ct, _as = (time.gmtime, time.localtime, time.strftime,
                           time.ctime, time.asctime)
time.time = lambda: T
time.time_ns = lambda: int(T * 1e9)
time.gmtime = lambda s=None: _gm(T if s is None else s)
time.localtime = lambda s=None: _lo(T if s is None else s)
time.strftime = lambda f, t=None: _st(f, _lo(T) if t is None else t)
time.ctime = lambda s=None: _ct(T if s is None else s)
time.asctime = lambda t=None: _as(_lo(T) if t is None else t)
_dt, _d = datetime.datetime, datetime.date
class FDT(_dt):
    @classmethod
    def now(cls, tz=None): return _dt.fromtimestamp(T, tz)
    @classmethod
    def utcnow(cls): return _dt.utcfromtimestamp(T)
    @classmethod
    def today(cls): return _dt.fromtimestamp(T)
class FD(_d):
    @classmethod
    def today(cls): return _d.fromtimestamp(T)
datetime.datetime, datetime.date = FDT, FD
import os
sys.path.insert(0, os.path.dirname(sys.argv[0]))
runpy.run_path(sys.argv[0], run_name="__main__")
'''


def dated(gen, wd, sub, t):
    b, kw = job(0, gen)
    ps = runner.write_inputs(wd + "/in", b)
    out = os.path.join(wd, sub)
    with open(wd + "/clock.py", "w") as f:
        f.write(CLOCK)
    p = subprocess.run([runner.PY, "-B", "-W", "ignore", wd + "/clock.py",
                        str(t), runner.MAIN]
                       + runner.argv_for(gen, b, ps, out, **kw), cwd=wd,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=120)
    return (p.returncode, runner.read_tree(out) if os.path.isdir(out)
            else None, p.stdout.decode("utf8", "replace"))


# ---- everything else a process can ask for ----------------------------------

AMBIENT = r'''
import sys, os, runpy, random, uuid, socket, platform, getpass, tempfile
K = int(sys.argv[1]); LOG = sys.argv[2]; sys.argv = sys.argv[3:]
PKG = os.path.dirname(os.path.abspath(sys.argv[0])) + os.sep
if K:
    os.umask([0o022, 0o077, 0, 0o027][K])
    for mod, name in ((os, "getpid"), (os, "getppid"), (os, "getuid"),
                      (os, "getgid"), (os, "geteuid"), (os, "cpu_count"),
                      (os, "getpgrp"), (random, "random"),
                      (uuid, "getnode")):
        setattr(mod, name, lambda *a, v=K: v)
    for mod, name in ((os, "getlogin"), (socket, "gethostname"),
                      (socket, "getfqdn"), (platform, "node"),
                      (platform, "platform"), (platform, "release"),
                      (platform, "python_version"), (getpass, "getuser")):
        setattr(mod, name, lambda *a, v=K: "name%d" % v)
    for name in ("uuid1", "uuid4"):
        setattr(uuid, name, lambda *a, v=K: uuid.UUID(int=v))
    random.seed = lambda *a: None
    sys.stdout.isatty = lambda: K % 2 == 1
    sys.stderr.isatty = lambda: K % 2 == 1
seen = set()
real = os.environ
class Rec(type(real)):
    def __init__(self): self.__dict__.update(real.__dict__)
    def note(self, key):
        f = sys._getframe(2)
        while f is not None and os.path.basename(f.f_code.co_filename) in (
                "os.py", "_collections_abc.py", "posixpath.py", "shutil.py",
                "tempfile.py", "<frozen os>", "<frozen posixpath>",
                "<frozen _collections_abc>"):
            f = f.f_back
        if f is not None and f.f_code.co_filename.startswith(PKG):
            seen.add(str(key))
    def __getitem__(self, key):
        self.note(key)
        return real[key]
    def __contains__(self, key):
        self.note(key)
        return key in real
    def get(self, key, default=None):
        self.note(key)
        return real.get(key, default)
os.environ = Rec()
sys.path.insert(0, os.path.dirname(sys.argv[0]))
try:
    runpy.run_path(sys.argv[0], run_name="__main__")
finally:
    with open(LOG, "w") as f:
        f.write("\n".join(sorted(seen)))
'''


def wrapped(gen, wd, sub, k, env=None):
    b, kw = job(3 if gen == "binary" else 0, gen)
    ps = runner.write_inputs(wd + "/in", b)
    out = os.path.join(wd, sub)
    with open(wd + "/ambient.py", "w") as f:
        f.write(AMBIENT)
    log = f"{wd}/{sub}.env"
    p = subprocess.run([runner.PY, "-B", "-W", "ignore", wd + "/ambient.py",
                        str(k), log, runner.MAIN]
                       + runner.argv_for(gen, b, ps, out, **kw), cwd=wd,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, **(env or {})), timeout=120)
    keys = []
    if os.path.exists(log):
        with open(log) as f:
            keys = f.read().split()
    return (p.returncode, runner.read_tree(out) if os.path.isdir(out)
            else None, p.stdout.decode("utf8", "replace")), keys


def ambient(r, wd, gen):
    """other process and host data, other file times and permissions"""
    i = 3 if gen == "binary" else 0
    ref = plain(i, gen, wd, "ref")
    for k in range(1, 4):
        judge(r, gen, f"other process and host data {k}", ref,
              wrapped(gen, wd, f"a{k}", k)[0])
    b, kw = job(i, gen)
    ps = runner.write_inputs(wd + "/in", b)
    for k, (t, mode) in enumerate(((1, 0o444), (4000000000, 0o755),
                                   (946684800, 0o600))):
        for n, p in enumerate(ps):
            os.chmod(p, mode)
            os.utime(p, (t + n, t - n))
        out = f"{wd}/t{k}"
        rc, text = runner.run_cli(runner.argv_for(gen, b, ps, out, **kw), wd,
                                  env={"APGMC_FRESH": "1"})
        judge(r, gen, f"file times {t} and permissions {mode:o}", ref,
              (rc, runner.read_tree(out) if os.path.isdir(out) else None,
               text))


def read(r, wd, gen):
    """every environment variable the command looks at, unset or with
    several values"""
    ref = plain(3 if gen == "binary" else 0, gen, wd, "ref")
    got, keys = wrapped(gen, wd, "e", 0)
    judge(r, gen, "the environment watched", ref, got)
    r.n["variables_read"] += len(keys)
    for k in keys[:40]:
        if k.startswith("PYTHON") or "=" in k:
            continue
        for j, v in enumerate(("", "0", "1", "x", "/nonexistent")):
            r.n["dyn_states"] += 1
            judge(r, gen, f"{k}={v}", ref,
                  wrapped(gen, wd, f"e-{j}-{len(k)}-{keys.index(k)}", 0,
                          {k: v})[0])


# ---- earlier runs in the same process ---------------------------------------

def script_history(wd, runs):
    """one interpreter that runs several command lines"""
    code = ("import sys, runpy, os\nsys.path.insert(0, %r)\n"
            "rc = None\nfor argv in %r:\n"
            "    sys.argv = [%r] + argv\n"
            "    try:\n        runpy.run_path(%r, run_name='__main__')\n"
            "        rc = 0\n"
            "    except SystemExit as x:\n"
            "        rc = x.code if isinstance(x.code, int) else 1\n"
            "    except Exception as x:\n"
            "        rc = 1\n"
            "        print(repr(x))\n"
            "sys.exit(rc)\n" % (os.path.dirname(runner.MAIN), runs,
                                runner.MAIN, runner.MAIN))
    p = subprocess.run([runner.PY, "-B", "-W", "ignore", "-c", code], cwd=wd,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=240)
    return p.returncode, p.stdout.decode("utf8", "replace")


def history(case, r, wd, gen):
    main = 3 if gen == "binary" else 0
    b, kw = job(main, gen)
    ps = runner.write_inputs(wd + "/in", b)
    ref = plain(main, gen, wd, "ref")
    other = GENS[(GENS.index(gen) + 1) % 4]
    ib, ikw = job(3 - main, gen)
    ips = runner.write_inputs(wd + "/in3", ib)
    bad = module("lib", [seq("Msg", [mem("x", REF("Nope"))])])
    bps = runner.write_inputs(wd + "/inbad", [bad])

    big = [job(3, "binary")[0]]
    big.append(runner.write_inputs(wd + "/in-big", big[0]))

    def argv(kind, k):
        out = f"{wd}/h{k}"
        if kind == "same":
            return runner.argv_for(gen, b, ps, out, **kw)
        if kind == "binary":
            return runner.argv_for("binary", *big, out, endian="big")
        if kind == "other-bundle":
            return runner.argv_for(gen, ib, ips, out, **ikw)
        if kind == "failing":
            kws = ({"module": "lib", "messages": ["Msg"]}
                   if gen == "cosmos" else {})
            return runner.argv_for(gen, [bad], bps, out, **kws)
        g = {"other-gen": other}.get(kind, kind)
        ob, okw = job(3 if g == "binary" else 0, g)
        ops = runner.write_inputs(f"{wd}/in-{g}", ob)
        return runner.argv_for(g, ob, ops, out, **okw)

    for n, h in enumerate(case["hist"]):
        out = f"{wd}/final{n}"
        runs = [argv(x, f"{n}-{k}") for k, x in enumerate(h)]
        runs.append(runner.argv_for(gen, b, ps, out, **kw))
        rc, text = script_history(wd, runs)
        got = (rc, runner.read_tree(out) if os.path.isdir(out) else None,
               text)
        judge(r, gen, f"earlier runs {h}", ref, got)


# ---- paths ------------------------------------------------------------------

def paths(case, r, wd, gen):
    b, kw = job(0, gen)
    ref = plain(0, gen, wd, "ref")
    for d in ("w/in", "w/res", "w/deep/er/x"):
        os.makedirs(os.path.join(wd, d))
    os.symlink(os.path.join(wd, "w"), os.path.join(wd, "lnk"))
    cwd = os.path.join(wd, {"root": "w", "in": "w/in", "out-parent": "w/res",
                            "deep": "w/deep/er/x", "link": "lnk"}
                       [case["paths"]])
    for k, (style, nm) in enumerate(itertools.product(STYLES, NAMES)):
        names = {"plain": [m["name"] + ".asn" for m in b],
                 "short": [f"{i}.asn1" for i in range(len(b))],
                 "odd": [f"a b {m['name']}.v1.2 \u00e9" for m in b],
                 "order": [f"{9 - i}{m['name']}" for i, m in enumerate(b)]}[nm]
        ps = runner.write_inputs(os.path.join(wd, "w/in", nm), b, names)
        out = os.path.join(wd, "w/res", f"o{k}")

        def style_of(p):
            if style == "abs":
                return p
            if style == "link":
                return p.replace(os.path.join(wd, "w"),
                                 os.path.join(wd, "lnk"), 1)
            rel = os.path.relpath(p, os.path.realpath(cwd))
            if style == "rel":
                return rel
            if style == "dot":
                return "./" + rel
            return os.path.join(os.path.dirname(p), "..",
                                os.path.basename(os.path.dirname(p)),
                                os.path.basename(p))
        o = style_of(out) + ("/" if k % 2 else "")
        if style == "updown":
            o = out
        rc, text = runner.run_cli(
            runner.argv_for(gen, b, [style_of(p) for p in ps], o, **kw), cwd)
        judge(r, gen, f"cwd {case['paths']}, paths {style}, names {nm}", ref,
              (rc, runner.read_tree(out) if os.path.isdir(out) else None,
               text))
