"""Controlled nondeterminism: explores the iteration orders of all sets.

Run as a program:  orders.py JOB.json RESULT.json
The package under test is loaded with every set (display, comprehension or
call) replaced by a subclass whose iteration order is a choice of this
explorer.  Executions of one command line are enumerated: the default order,
then every execution with one, then two deviating choices (like a preemption
bound).  The order of directory listings is such a choice, too."""
import ast
import contextlib
import hashlib
import importlib.abc
import importlib.machinery
import io
import itertools
import json
import os
import runpy
import shutil
import sys
import traceback

FULL = 3        # all permutations of sets up to this size


class Chooser:
    def __init__(self):
        self.reset({})

    def reset(self, script):
        self.script = script        # {index of the choice point: option}
        self.points = []            # (number of options, kind)

    def order(self, items, kind):
        n = len(items)
        if n < 2:
            return items
        if n <= FULL:
            opts = list(itertools.permutations(range(n)))
        else:
            idx = list(range(n))
            opts = [idx, idx[::-1], idx[1:] + idx[:1], idx[-1:] + idx[:-1],
                    [1, 0] + idx[2:], idx[:-2] + [n - 1, n - 2]]
        i = len(self.points)
        self.points.append((len(opts), kind))
        return [items[k] for k in opts[self.script.get(i, 0)]]


CH = Chooser()


def stable(x):
    """hash does not depend on the process"""
    return (x is None or isinstance(x, (int, float, complex))
            or isinstance(x, tuple) and all(map(stable, x)))


def choose(it):
    items = list(it)
    if all(map(stable, items)):
        return items
    if all(isinstance(x, str) for x in items):
        return CH.order(sorted(items), "str")
    # by identity: in the order of creation of this explorer's view
    names = all(isinstance(x, (str, bytes, tuple)) for x in items)
    key = repr if names else (lambda x: (type(x).__name__,
                                         str(getattr(x, "__dict__", ""))[:80]))
    try:
        items.sort(key=key)
    except Exception:
        pass
    return CH.order(items, "id")


def _wrap(name):
    base = getattr(set, name)

    def f(self, *a):
        x = base(self, *a)
        return ChoiceSet(x) if isinstance(x, set) else x
    f.__name__ = name
    return f


class ChoiceSet(set):
    def __iter__(self):
        return iter(choose(set.__iter__(self)))

    def pop(self):
        x = next(iter(self))
        self.remove(x)
        return x

    def __reduce__(self):
        return (ChoiceSet, (list(set.__iter__(self)),))


for _n in ("union", "intersection", "difference", "symmetric_difference",
           "copy", "__or__", "__and__", "__sub__", "__xor__", "__ror__",
           "__rand__", "__rsub__", "__rxor__"):
    setattr(ChoiceSet, _n, _wrap(_n))


class Rewrite(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call(ast.List(node.elts, ast.Load()), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.call(ast.ListComp(node.elt, node.generators), node)

    def visit_Name(self, node):
        if node.id in ("set", "frozenset") and isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                ast.Name("__apgmc_set__", ast.Load()), node)
        return node

    @staticmethod
    def call(arg, node):
        return ast.copy_location(
            ast.Call(ast.Name("__apgmc_set__", ast.Load()), [arg], []), node)


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = Rewrite().visit(ast.parse(data, path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__apgmc_set__"] = ChoiceSet
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != "asn1_parser":
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec and spec.origin and spec.origin.endswith(".py"):
            spec.loader = Loader(name, spec.origin)
        return spec


def digest(out):
    if not os.path.isdir(out):
        return None
    h = {}
    for root, _, files in os.walk(out):
        for n in files:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                h[os.path.relpath(p, out)] = hashlib.sha1(
                    f.read()).hexdigest()
    return h


def execute(job, script):
    CH.reset(script)
    shutil.rmtree(job["out"], ignore_errors=True)
    sys.argv = [job["main"]] + job["argv"]
    os.chdir(job["cwd"])
    buf = io.StringIO()
    rc = 0
    real = os.listdir, os.scandir
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        os.listdir, os.scandir = wrap_listing(job["cwd"])
        try:
            runpy.run_path(job["main"], run_name="__main__")
        except SystemExit as x:
            rc = x.code if isinstance(x.code, int) else (1 if x.code else 0)
        except Exception:
            buf.write(traceback.format_exc())
            rc = 1
        finally:
            os.listdir, os.scandir = real
    return rc, digest(job["out"]), list(CH.points), buf.getvalue()[-300:]


def wrap_listing(root):
    """listings below root (the input, output and working folders)"""
    real_listdir, real_scandir = os.listdir, os.scandir

    def mine(p):
        return isinstance(p, (str, os.PathLike)) and os.path.realpath(
            p).startswith(os.path.realpath(root))

    def listdir(p="."):
        if not mine(p):
            return real_listdir(p)
        return CH.order(sorted(real_listdir(p)), "dir")

    class Scan(list):
        def __enter__(self):
            return self

        def __exit__(self, *_):
            return False

        def close(self):
            pass

    def scandir(p="."):
        if not mine(p):
            return real_scandir(p)
        with real_scandir(p) as it:
            items = sorted(it, key=lambda e: e.name)
        return Scan(CH.order(items, "dir"))

    return listdir, scandir


def explore(job):
    sys.path.insert(0, os.path.dirname(os.path.dirname(job["main"])))
    sys.path.insert(0, os.path.dirname(job["main"]))
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
    rc0, d0, pts, text = execute(job, {})
    res = {"rc": rc0, "digest": d0, "text": text, "runs": 1,
           "points": len(pts), "options": sum(n for n, _ in pts),
           "different": []}
    frontier = [({}, pts)]
    budget = job["budget"]
    for depth in range(job["depth"]):
        nxt = []
        for script, points in frontier:
            last = max(script) if script else -1
            for i in range(last + 1, len(points)):
                for o in range(1, points[i][0]):
                    if res["runs"] >= budget:
                        res["cut"] = True
                        return res
                    s = dict(script)
                    s[i] = o
                    rc, d, p, text = execute(job, s)
                    res["runs"] += 1
                    if (rc, d) != (rc0, d0):
                        res["different"].append({
                            "script": {str(k): v for k, v in s.items()},
                            "kind": points[i][1], "rc": rc,
                            "files": sorted(
                                f for f in set(d or ()) | set(d0 or ())
                                if (d or {}).get(f) != (d0 or {}).get(f)),
                            "text": text})
                        if len(res["different"]) >= 3:
                            return res
                    nxt.append((s, p))
        frontier = nxt
    return res


if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    with open(sys.argv[1]) as f:
        JOB = json.load(f)
    RES = sys.argv[2]
    try:
        out = explore(JOB)
    except Exception:
        out = {"error": traceback.format_exc()[-600:]}
    with open(RES, "w") as f:
        json.dump(out, f)
