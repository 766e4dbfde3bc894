"""Runs one command line under many faults: forks one child per fault from an
interpreter that has the package loaded.  Started under LD_PRELOAD=fault.so:

    faultdrv.py SO JOB.json RESULT.json

JOB: {"main", "argv", "cwd", "root", "out", "prep": folder to copy to out or
None, "plan": [[n, kind], ...], "rule": {operation: [kind, ...]} or None}.
The first run of the plan has no fault; with a rule, it extends the plan by
every operation of that run with all its kinds.  The final state of each run
(exit code, output tree) is appended to the result."""
import ctypes
import gc
import hashlib
import json
import os
import resource
import runpy
import shutil
import sys


def tree(d):
    if not os.path.lexists(d):
        return None
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), d) + "/"] = ""
        for n in files:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = hashlib.sha1(f.read()).hexdigest()
    return out


def prepare(job):
    shutil.rmtree(job["wipe"], ignore_errors=True)
    if job["prep"]:
        os.makedirs(os.path.dirname(job["out"]), exist_ok=True)
        shutil.copytree(job["prep"], job["out"])


def extend(job, ops):
    """all faults of the operations seen"""
    for i, o in enumerate(ops):
        o = o.split(" ")[0]
        job["plan"] += [[i + 1, k] for k in
                        job["rule"].get(o, job["rule"]["*"])]


def child(job, so, n, kind):
    fd = os.open(job["text"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)
    os.chdir(job["cwd"])
    sys.argv = [job["main"]] + job["argv"]
    if kind.startswith("limit"):
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    else:
        so.fault_arm(job["root"].encode(), job["log"].encode(), n,
                     kind.encode())
    runpy.run_path(job["main"], run_name="__main__")


def main():
    so = ctypes.CDLL(sys.argv[1])
    so.fault_arm.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long,
                             ctypes.c_char_p]
    with open(sys.argv[2]) as f:
        job = json.load(f)
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.dirname(os.path.dirname(job["main"])))
    sys.path.insert(0, os.path.dirname(job["main"]))
    import asn1_parser.main  # noqa: F401  pylint: disable=unused-import
    # the grammar is parsed once for all children (as in runner.py)
    sys.path.append(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    from apgmc import runner
    runner._speed_up()  # pylint: disable=protected-access
    runner.run_cli(job["warm"], job["cwd"])
    gc.collect()
    gc.freeze()
    res = []
    seen = {}
    for n, kind in job["plan"]:
        prepare(job)
        if os.path.exists(job["log"]):
            os.unlink(job["log"])
        pid = os.fork()
        if pid == 0:
            child(job, so, n, kind)
            return True         # ends like the program would
        _, st = os.waitpid(pid, 0)
        rc = os.waitstatus_to_exitcode(st)
        item = {"n": n, "kind": kind, "rc": rc, "tree": tree(job["out"])}
        if rc != 0 and kind == "":
            with open(job["text"]) as f:
                item["text"] = f.read()[-300:]
        if kind == "" and os.path.exists(job["log"]):
            with open(job["log"]) as f:
                item["ops"] = f.read().splitlines()
            if job["rule"] and not res:
                extend(job, item["ops"])
        # a second run over what is left, without the fault
        # (once per state left behind)
        left = json.dumps(item["tree"], sort_keys=True)
        if job["again"] and left in seen:
            item["rc2"], item["tree2"] = seen[left]
        elif job["again"]:
            if job["drop"] and os.path.exists(job["drop"]):
                os.unlink(job["drop"])
            pid = os.fork()
            if pid == 0:
                child(job, so, 0, "")
                return True
            _, st = os.waitpid(pid, 0)
            item["rc2"] = os.waitstatus_to_exitcode(st)
            item["tree2"] = tree(job["out"])
            seen[left] = item["rc2"], item["tree2"]
        res.append(item)
    with open(sys.argv[3], "w") as f:
        json.dump(res, f)
    return False


if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    main()
