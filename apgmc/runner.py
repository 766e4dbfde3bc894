"""Runs the real command line of /repo on concrete files in scratch folders."""
import contextlib
import importlib.abc
import importlib.machinery
import io
import os
import runpy
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

from . import asn

REPO = os.environ.get("APGMC_REPO", "/repo")
MAIN = os.path.join(REPO, "asn1_parser", "main.py")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable

TIMEOUT = 60
FRESH_TIMEOUT = 120

# False: in this process (fast); True: one fresh interpreter per run, as a
# user would (used to confirm every violation before it is reported)
FRESH = False


def _speed_up():
    """textX (third party) parses the unchanged grammar text anew for every
    input file: remember that parse tree.  Only for runs in this process;
    violations are confirmed without it."""
    try:
        from arpeggio import ParserPython
        from textx import lang
    except ImportError:
        return
    if False in lang.textX_parsers:
        return

    class Caching(ParserPython):
        trees = {}

        def parse(self, text, file_name=None):
            key = (text, file_name)
            if self.trees.get("last") != key:
                self.trees.clear()
                self.trees["tree"] = ParserPython.parse(self, text, file_name)
                self.trees["last"] = key
            return self.trees["tree"]

    lang.textX_parsers[False] = Caching(
        lang.textx_model, comment_def=lang.comment, ignore_case=False,
        reduce_tree=False, memoization=False, debug=False)


class _Loader(importlib.machinery.SourceFileLoader):
    """keeps the compiled code of the package under test"""
    codes = {}

    def get_code(self, fullname):
        if fullname not in self.codes:
            self.codes[fullname] = super().get_code(fullname)
        return self.codes[fullname]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != "asn1_parser":
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec and spec.origin and spec.origin.endswith(".py"):
            spec.loader = _Loader(name, spec.origin)
        return spec


def _forget():
    """Every run loads the package anew: nothing is left of earlier runs
    (C17 looks at earlier runs in the same process)."""
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    for k in [k for k in sys.modules if k.split(".")[0] == "asn1_parser"]:
        del sys.modules[k]


class Hang(BaseException):
    """a run did not end: the case ends with it"""


class Res:
    """Outcome of one run: exit code, text, files"""

    def __init__(self, rc, text, files, outdir_existed=False):
        self.rc = rc
        self.text = text
        self.files = files

    @property
    def ok(self):
        return self.rc == 0

    def why(self):
        return f"rc={self.rc}: " + self.text.strip()[-300:].replace("\n", " | ")


def _alarm(*_):
    raise Hang()


def run_cli(argv, cwd, env=None):
    """-> (rc, text)"""
    if FRESH or env is not None:
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run([PY, "-B", "-W", "ignore", MAIN] + argv,
                               cwd=cwd, env=e, timeout=FRESH_TIMEOUT,
                               stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            raise Hang(f"{argv[0]} does not end within {FRESH_TIMEOUT} s: "
                       + " ".join(argv[1:]))
        return r.returncode, r.stdout.decode("utf8", "replace")
    _speed_up()
    _forget()
    buf = io.StringIO()
    old_argv, old_path, old_cwd = sys.argv, list(sys.path), os.getcwd()
    rc = 0
    signal.signal(signal.SIGALRM, _alarm)
    try:
        sys.argv = [MAIN] + argv
        os.chdir(cwd)
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            signal.setitimer(signal.ITIMER_REAL, TIMEOUT)
            try:
                runpy.run_path(MAIN, run_name="__main__")
            except SystemExit as x:
                if x.code is None:
                    rc = 0
                elif isinstance(x.code, int):
                    rc = x.code & 255
                else:
                    rc = 1
                    buf.write(str(x.code))
            except Hang:
                raise Hang(f"{argv[0]} does not end within {TIMEOUT} s: "
                           + " ".join(argv[1:]))
            except BaseException:  # what the interpreter would print
                rc = 1
                buf.write(traceback.format_exc())
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
    finally:
        sys.argv = old_argv
        sys.path[:] = old_path
        os.chdir(old_cwd)
    return rc, buf.getvalue()


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="apgmc-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read_tree(d):
    """{relative path: bytes}; directories appear as 'name/' -> None"""
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), d) + "/"] = None
        for n in files:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def write_inputs(d, bundle, names=None, texts=None):
    os.makedirs(d, exist_ok=True)
    paths = []
    for i, m in enumerate(bundle):
        fn = names[i] if names else m["name"] + ".asn"
        p = os.path.join(d, fn)
        with open(p, "w", encoding="utf8") as f:
            f.write(texts[i] if texts else asn.render(m))
        paths.append(p)
    return paths


def argv_for(kind, bundle, paths, out, mods=None, endian=None, module=None,
             messages=None, target="tgt"):
    a = ["generate-" + kind]
    if kind == "cosmos":
        a += ["--asn1-module", module, "--asn1-messages", ",".join(messages),
              "--output-file-name", target]
    else:
        a += ["--asn1-modules",
              ",".join(mods if mods is not None
                       else [m["name"] for m in bundle])]
    if kind == "binary" and endian:
        a += ["--endianness", endian + "-endian"]
    a += ["--output-dir", out]
    return a + list(paths)


def generate(kind, bundle, wd, sub="out", env=None, **kw):
    """Renders bundle below wd, runs one generator, returns Res"""
    texts = kw.pop("texts", None)
    order = kw.pop("order", None)
    paths = write_inputs(os.path.join(wd, "in"), bundle, texts=texts)
    if order:
        paths = [paths[i] for i in order]
    out = os.path.join(wd, sub)
    rc, text = run_cli(argv_for(kind, bundle, paths, out, **kw), wd, env=env)
    files = read_tree(out) if os.path.isdir(out) else None
    return Res(rc, text, files)
