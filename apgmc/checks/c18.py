import errno
import json
import os
import shutil
import subprocess

from .. import faultdrv, runner
from ..asn import (BOOL, CMT, INT, REF, WC, alias, enum, imp, mem, module,
                   seq)

LEVEL = "fault_enumeration"
BOUNDS = {
    "quick": "all file operations (open, read, write, close, mkdir, and "
             "rename, unlink, truncate, sync if used) on anything below the "
             "scratch folder, as counted by an injector between interpreter "
             "and libc, of all four commands on 3 bundles (one module; three "
             "modules with imports; artefacts of several write calls), from "
             "2 states of the output folder (absent two levels deep, holding "
             "longer stale artefacts): each operation fails with each of its "
             "errors (open and mkdir: 11..13, read: 5, write: 8 plus ENOSPC "
             "after 1 byte, half, all but one byte, close: 5; every kind of "
             "OSError), moves fewer bytes, "
             "or the process is killed before, within or after it; file size "
             "limits 0..size in steps of 32 bytes; a folder in the place of "
             "each artefact, a file in the place of each output folder; "
             "every state left behind followed by an undisturbed run",
    "thorough": "as quick, from 4 states of the output folder, all file size "
                "limits byte by byte, 12 more errors per operation",
}
ASSUMPTIONS = ["one fault per run", "a killed process needs no exit code, "
               "only the following run is judged"]
GENS = ("cfs", "c", "binary", "cosmos")


def big(n):
    lib = [seq(f"Big-{'abcdefghijklmnopqrstuvwxyz'[i]}",
               [mem(f"m-{'abcdefghijklmnopqrstuvwxyz'[k]}", INT(0, 2**16 - 1),
                    c=CMT("value " * 120)) for k in range(5)])
           for i in range(n)]
    return module("big", lib)


def bundles():
    lib = module("lib", [
        alias("Five", INT(0, 31)), enum("Mode", ["on", "off"]),
        seq("Leaf", [mem("x", REF("Five")), mem("m", REF("Mode")),
                     mem("b", BOOL)]),
        seq("Part", [mem("a", INT(0, 255)), mem("c", INT(-5, 5))])])
    one = module("one", [
        seq("Part", [mem("a", INT(0, 255)), mem("c", INT(-5, 5))]),
        seq("Msg", [mem("p", REF("Part"), wc=WC(("a", 3), ("c", -2)))]),
        seq("Nxt", [mem("p", REF("Part"), wc=WC(("a", 4), ("c", 1)))])])
    mid = module("mid", [seq("Node", [mem("l", REF("Leaf")),
                                      mem("k", REF("Part"))])],
                 [imp(["Leaf", "Part"], "lib")])
    top = module("top", [
        seq("Fix", [mem("p", REF("Part"), wc=WC(("a", 3), ("c", 1)))]),
        seq("Msg", [mem("n", REF("Node")), mem("z", INT(0, 255))])],
        [imp(["Node"], "mid"), imp(["Part"], "lib")])
    return {"one": ([one], "one", ["Msg", "Part", "Nxt"]),
            "three": ([lib, mid, top], "top", ["Msg", "Fix"]),
            "big": ([big(5)], "big", ["Big-a", "Big-c", "Big-b", "Big-d"])}


def bundle_for(name, gen):
    b, mod, msgs = bundles()[name]
    b = json.loads(json.dumps(b))
    kw = {}
    if gen == "binary":
        kw = {"endian": "big"}
        if name == "three":
            b = [m for m in b if m["name"] == "lib"]
    if gen == "cosmos":
        kw = {"module": mod, "messages": msgs}
    return b, kw


def e(*names):
    return ["e%d" % getattr(errno, n) for n in names]


MORE = e("EIO", "EINVAL", "ENOMEM", "EBUSY", "ETXTBSY", "EFBIG", "EPIPE",
         "ESTALE", "ENODEV", "EOVERFLOW", "EAGAIN", "ELOOP")
KINDS = {
    "openr": e("EACCES", "ENOENT", "EMFILE", "EIO", "ELOOP", "EPERM",
               "EISDIR", "ENOTDIR", "EEXIST", "EAGAIN", "ETIMEDOUT"),
    "openw": e("EACCES", "ENOSPC", "EMFILE", "EROFS", "EDQUOT", "EPERM",
               "EISDIR", "ENOTDIR", "EEXIST", "ENOENT", "EAGAIN", "ETXTBSY",
               "ETIMEDOUT"),
    "read": e("EIO", "EISDIR", "EACCES", "EAGAIN", "ETIMEDOUT") + ["s1"],
    "write": e("ENOSPC", "EIO", "EDQUOT", "EFBIG", "EAGAIN", "EPIPE",
               "EACCES", "ETIMEDOUT") + ["p1", "ph", "pl", "s1", "sh", "sl"],
    "close": e("EIO", "ENOSPC", "EDQUOT", "EACCES", "ETIMEDOUT"),
    "mkdir": e("EACCES", "ENOSPC", "EROFS", "ENAMETOOLONG", "EDQUOT",
               "EPERM", "ENOENT", "EEXIST", "ENOTDIR", "EAGAIN",
               "ETIMEDOUT"),
    "rename": e("EACCES", "EXDEV", "ENOSPC", "EIO"),
    "unlink": e("EACCES", "EPERM", "EIO"),
    "truncate": e("EIO", "EFBIG"),
    "fsync": e("EIO", "ENOSPC"),
}
KILLS = {"write": ["x", "y", "z"], "fsync": ["x"], "truncate": ["x"]}


def cases(tier):
    states = (("deep", "stale") if tier == "quick"
              else ("deep", "stale", "empty", "good"))
    for gen in GENS:
        for b in ("one", "three", "big"):
            for st in states:
                for what in ("error", "kill", "limit", "obstacle"):
                    if what == "obstacle" and st != "deep":
                        continue
                    yield {"gen": gen, "b": b, "state": st, "what": what,
                           "more": tier == "thorough",
                           "step": (1 if tier == "thorough" else
                                    512 if b == "big" else 32)}




def shim(wd):
    so = os.path.join(wd, "fault.so")
    src = os.path.join(os.path.dirname(__file__), "..", "c", "fault.c")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, src,
                    "-ldl"], check=True)
    return so


def drive(wd, so, job):
    """-> results, in order of the plan"""
    if runner.FRESH:
        return fresh(wd, so, job)
    jp, rp = wd + "/job.json", wd + "/res.json"
    with open(jp, "w") as f:
        json.dump(job, f)
    env = dict(os.environ, LD_PRELOAD=so)
    p = subprocess.run([runner.PY, "-B", "-W", "ignore", faultdrv.__file__,
                        so, jp, rp], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=1800)
    if not os.path.exists(rp):
        raise RuntimeError("driver: " + p.stdout.decode()[-400:])
    with open(rp) as f:
        res = json.load(f)
    os.unlink(rp)
    return res


def fresh(wd, so, job):
    """one new interpreter per run"""
    def one(j, n, kind):
        faultdrv.prepare(j)
        if os.path.exists(j["log"]):
            os.unlink(j["log"])
        cmd = [runner.PY, "-B", "-W", "ignore", j["main"]] + j["argv"]
        env = dict(os.environ)
        lim = None
        if kind.startswith("limit"):
            import resource
            lim = lambda: resource.setrlimit(  # noqa: E731
                resource.RLIMIT_FSIZE, (n, n))
        else:
            env.update(LD_PRELOAD=so, FAULT_ROOT=j["root"],
                       FAULT_LOG=j["log"], FAULT_N=str(n), FAULT_KIND=kind)
        p = subprocess.run(cmd, env=env, cwd=j["cwd"], preexec_fn=lim,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=120)
        item = {"n": n, "kind": kind, "rc": p.returncode,
                "tree": faultdrv.tree(j["out"]),
                "text": p.stdout.decode("utf8", "replace")[-300:]}
        if kind == "" and os.path.exists(j["log"]):
            with open(j["log"]) as f:
                item["ops"] = f.read().splitlines()
            if j["rule"] and not res:
                faultdrv.extend(j, item["ops"])
        if j["again"]:
            if j["drop"] and os.path.exists(j["drop"]):
                os.unlink(j["drop"])
            p = subprocess.run(cmd, cwd=j["cwd"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=120)
            item["rc2"] = p.returncode
            item["tree2"] = faultdrv.tree(j["out"])
        return item
    res = []
    for n, kind in job["plan"]:
        res.append(one(job, n, kind))
    return res


def stale(d, files):
    """longer, different content under the names of the artefacts"""
    os.makedirs(d)
    for n in files:
        with open(os.path.join(d, n), "wb") as f:
            f.write(b"stale content of an older run\n" * 700)


def run(case, r):
    with runner.scratch() as wd:
        gen = case["gen"]
        b, kw = bundle_for(case["b"], gen)
        so = shim(wd)
        root = wd + "/root"
        paths = runner.write_inputs(root + "/in", b)
        os.makedirs(wd + "/cwd")
        out = root + "/o/deep/out"
        argv = runner.argv_for(gen, b, paths, out, **kw)
        job = {"main": runner.MAIN, "argv": argv, "cwd": wd + "/cwd",
               "root": root, "out": out, "prep": None, "wipe": root + "/o",
               "log": wd + "/ops.log", "warm": [
                   wd + "/warm" if x == out else x for x in argv], "text": wd + "/text", "again": False,
               "drop": out + "/tgt.txt" if gen == "cosmos" else None}
        rc, text = runner.run_cli(argv, wd + "/cwd")
        good = faultdrv.tree(out)
        if rc != 0 or not good:
            r.bad(f"undisturbed generate-{gen} fails: {text[-300:]}")
            return
        keep = wd + "/good"
        shutil.copytree(out, keep)
        if case["state"] == "stale":
            # generate-cosmos appends: only a foreign file for it
            names = [n for n in good if not n.endswith("/")]
            stale(wd + "/prep", ["other.txt"] if gen == "cosmos" else names)
            job["prep"] = wd + "/prep"
        elif case["state"] == "empty":
            os.makedirs(wd + "/prep")
            job["prep"] = wd + "/prep"
        elif case["state"] == "good" and gen != "cosmos":
            job["prep"] = keep
        extra = {n: h for n, h in (faultdrv.tree(job["prep"]) or {}).items()
                 if n not in good} if job["prep"] else {}
        job["again"] = True
        if case["what"] == "obstacle":
            return obstacles(case, r, wd, so, job, good)
        job["plan"] = [[0, ""]]
        job["rule"] = None
        if case["what"] == "error":
            job["rule"] = {o: ks + [k for k in MORE if case["more"]
                                    and k not in ks
                                    and not (k in e("EAGAIN")
                                             and o == "write")]
                           for o, ks in dict(KINDS, **{"*": e("EIO")}).items()}
        elif case["what"] == "kill":
            job["rule"] = dict(KILLS, **{"*": ["x", "z"]})
        else:
            size = max(os.path.getsize(os.path.join(keep, n))
                       for n in good if not n.endswith("/"))
            job["plan"] += [[n, "limit"]
                            for n in range(0, size + 1, case["step"])]
        base, *rest = drive(wd, so, job)
        ops = base["ops"]
        r.n["operations"] += len(ops)
        want = dict(good, **extra)
        if (base["rc"], base["tree"]) != (0, want):
            r.bad(f"generate-{gen} over a {case['state']} folder gives "
                  f"{delta(want, base['tree'])}")
            return
        if (base["rc2"], base["tree2"]) != (0, want):
            r.bad(f"second generate-{gen} gives "
                  f"{delta(want, base['tree2'])}")
        r.n["dyn_states"] += len(ops)
        r.n["dyn_transitions"] += len(rest)
        for item in rest:
            judge(r, case, item, ops, want)


def delta(want, got):
    if got is None:
        return "no output folder"
    return ", ".join(sorted(
        n + (" missing" if n not in got else
             " unexpected" if n not in want else " differs")
        for n in set(want) | set(got) if want.get(n) != got.get(n))) or "all"


def judge(r, case, item, ops, want):
    n, kind, rc = item["n"], item["kind"], item["rc"]
    op = (f"size limit {n}" if kind == "limit" else
          f"operation {n} ({ops[n - 1]}) disturbed by {kind}")
    r.n["validated"] += 1
    r.outcome(case["gen"], case["b"], case["state"], kind, rc,
              sorted((item["tree"] or {}).items()))
    complete = item["tree"] is not None and all(
        item["tree"].get(f) == h for f, h in want.items())
    gen = "generate-" + case["gen"]
    if kind in ("x", "y", "z"):
        if rc != -9:
            r.bad(f"{gen}: {op}: rc {rc}")
    elif rc == 0 and not complete:
        r.bad(f"{gen} exits 0 although {op}: {delta(want, item['tree'])}")
    elif kind[0] == "s" and rc != 0:
        r.bad(f"{gen} fails although no {op} failed")
    if item["rc2"] != 0:
        r.bad(f"{gen} after {op}: next run exits {item['rc2']}")
    elif item["tree2"] != want:
        r.bad(f"{gen} after {op}: next run gives "
              f"{delta(want, item['tree2'])}")


def obstacles(case, r, wd, so, job, good):
    gen = case["gen"]
    out = job["out"]
    spots = [(n, "folder") for n in good if not n.endswith("/")]
    spots += [("", "file"), ("..", "file"), ("../..", "file")]
    for n, what in spots:
        faultdrv.prepare(job)
        p = os.path.normpath(os.path.join(out, n))
        if what == "folder":
            os.makedirs(p)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("in the way")
        rc, text = runner.run_cli(job["argv"], job["cwd"])
        r.n["validated"] += 1
        r.n["dyn_states"] += 1
        r.n["dyn_transitions"] += 1
        r.outcome(gen, n, what, rc)
        if rc == 0:
            r.bad(f"generate-{gen} exits 0 with a {what} at {n or 'out'!r}")
        if rc == "hang":
            r.bad(f"generate-{gen} does not end with a {what} at {n!r}")
        shutil.rmtree(p) if what == "folder" else os.unlink(p)
        if gen == "cosmos" and os.path.exists(job["drop"]):
            os.unlink(job["drop"])
        rc, text = runner.run_cli(job["argv"], job["cwd"])
        got = faultdrv.tree(out)
        if rc != 0 or got != good:
            r.bad(f"generate-{gen} after removal of a {what} at {n!r}: "
                  f"rc {rc}, {delta(good, got)}")
