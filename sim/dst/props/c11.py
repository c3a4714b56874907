"""C11: process-wide settings survive every call, load, save, command and output redirection, however they end."""
import copy
import decimal
import gc
import io
import locale
import logging
import os
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

from .. import cubes, simlib
from .. import workload as W
from ..core import REPO, Violation, unsupported, where
from ..disk import Disk

RUNS = {"quick": 880, "thorough": 200000}
BATCH = 40
TECHNIQUE = "simulated session histories from seeded process-wide settings, with failures injected into the calls that IMPROVER makes and into file operations"
RULE = ("Each run sets seeded process-wide settings (standard output, floating-point error handling, warning filters, number formatting, environment, directory, ...) and performs a history of plugin and function calls, "
        "commands, loads, saves and nested output redirections, each returning, rejected or failing at a seeded call made by IMPROVER or at a seeded file operation; the settings are compared around each of them, and what redirections captured with a model.")
STATE_MEASURE = "hash of (kind of step, point of failure, nesting)"
REAL = ["all improver plugins and functions that run without the missing optional packages", "improver.utilities.redirect_stdout", "improver.cli", "improver.utilities.load and save"]
STUB = ["iris/cartopy (stand-in)", "failing calls (raised by a call tracer)", "file system errors"]
EXC = {"MemoryError": MemoryError, "ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError, "FloatingPointError": FloatingPointError}


def prepare():
    W.load_all()
    simlib.load_cli()


# ------------------------------------------------------------------ what is process-wide
def settings():
    s = {}
    for n in ("stdin", "stdout", "stderr"):
        s["sys." + n] = id(getattr(sys, n))
    for n in ("excepthook", "displayhook"):
        s["sys." + n] = id(getattr(sys, n))
    s["sys.path"] = list(sys.path)
    s["recursion limit"] = sys.getrecursionlimit()
    s["numpy error handling"] = np.geterr()
    s["numpy error call"] = id(np.geterrcall())
    s["numpy print options"] = {k: (v if not callable(v) else id(v)) for k, v in np.get_printoptions().items()}
    s["numpy buffer size"] = np.getbufsize()
    s["warning filters"] = [str(f) for f in warnings.filters]
    s["warning display"] = (id(warnings.showwarning), id(warnings.formatwarning))
    s["environment"] = dict(os.environ)
    s["working directory"] = os.getcwd()
    u = os.umask(0o022)
    os.umask(u)
    s["umask"] = u
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["time zone"] = (time.tzname, time.timezone)
    s["signal handlers"] = [str(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGPIPE)]
    c = decimal.getcontext()
    s["decimal context"] = (c.prec, c.rounding)
    s["logging"] = (logging.root.level, [id(h) for h in logging.root.handlers], logging.root.manager.disable)
    s["garbage collector"] = gc.isenabled()
    s["socket timeout"] = socket.getdefaulttimeout()
    s["thread hooks"] = (id(getattr(threading, "excepthook", None)), len(threading.enumerate()))
    d = sys.modules.get("dask.config")
    if d is not None:
        s["dask configuration"] = repr(sorted((k, repr(v)) for k, v in d.config.items()))
    iris = sys.modules.get("iris")
    fut = getattr(iris, "FUTURE", None)
    if fut is not None:
        s["iris switches"] = repr(sorted((k, repr(v)) for k, v in vars(fut).items()))
    return s


def changed(a, b):
    return ["%s: %s -> %s" % (k, brief(a[k]), brief(b[k])) for k in a if k in b and a[k] != b[k]]


def brief(x):
    s = repr(x)
    return s if len(s) < 160 else s[:150] + "..."


class Settings:
    """Seeded settings for the length of a run; everything is put back afterwards."""

    def __init__(self, plan, root):
        self.p, self.root = plan["settings"], root

    def __enter__(self):
        self.std = sys.stdin, sys.stdout, sys.stderr
        self.err = np.geterr(), np.geterrcall(), np.getbufsize()
        self.print = np.get_printoptions()
        self.warn = warnings.filters[:], warnings.showwarning, warnings.formatwarning
        self.env = dict(os.environ)
        self.cwd = os.getcwd()
        self.umask = os.umask(0o022)
        self.rec = sys.getrecursionlimit()
        self.hooks = sys.excepthook, sys.displayhook
        self.path = sys.path[:]
        c = decimal.getcontext()
        self.dec = c.prec, c.rounding
        self.log = logging.root.level, logging.root.handlers[:], logging.root.manager.disable
        self.sig = {k: signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGPIPE)} if threading.current_thread() is threading.main_thread() else {}
        self.locale = locale.setlocale(locale.LC_ALL)
        self.dask = copy.deepcopy(sys.modules["dask.config"].config) if "dask.config" in sys.modules else None
        self.gc = gc.isenabled()
        p = self.p
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        if "err" in p:
            np.seterr(**p["err"])
        if "print" in p:
            np.set_printoptions(**p["print"])
        if "warn" in p:
            warnings.simplefilter(p["warn"])
        else:
            warnings.simplefilter("ignore")
        if "env" in p:
            os.environ.update(p["env"])
        if p.get("cwd"):
            os.chdir(self.root)
        if "umask" in p:
            os.umask(p["umask"])
        if "rec" in p:
            sys.setrecursionlimit(p["rec"])
        if "prec" in p:
            decimal.getcontext().prec = p["prec"]
        return self

    def __exit__(self, *a):
        sys.stdin, sys.stdout, sys.stderr = self.std
        np.seterr(**self.err[0])
        np.seterrcall(self.err[1])
        np.setbufsize(self.err[2])
        np.set_printoptions(**self.print)
        warnings.filters[:] = self.warn[0]
        warnings.showwarning, warnings.formatwarning = self.warn[1:]
        getattr(warnings, "_filters_mutated", lambda: None)()
        for k in set(os.environ) - set(self.env):
            del os.environ[k]
        os.environ.update(self.env)
        os.chdir(self.cwd)
        os.umask(self.umask)
        sys.setrecursionlimit(self.rec)
        sys.excepthook, sys.displayhook = self.hooks
        sys.path[:] = self.path
        c = decimal.getcontext()
        c.prec, c.rounding = self.dec
        logging.root.setLevel(self.log[0])
        logging.root.handlers[:] = self.log[1]
        logging.disable(self.log[2])
        for k, v in self.sig.items():
            signal.signal(k, v)
        locale.setlocale(locale.LC_ALL, self.locale)
        if self.dask is not None:
            sys.modules["dask.config"].config.clear()
            sys.modules["dask.config"].config.update(self.dask)
        (gc.enable if self.gc else gc.disable)()


# ------------------------------------------------------------------ failing calls
RESTORERS = ("_ufunc_config", "contextlib", "warnings", "arrayprint", "threading", "decimal", "_bootlocale", "os", "posixpath", "locale", "traceback", "linecache", "abc", "typing", "re", "functools", "enum", "importlib")


class CallFailer:
    """Counts the calls that improver code makes into Python code, or makes the n-th fail on entry."""

    def __init__(self, at=None, exc=None):
        self.n, self.at, self.exc, self.where = 0, at, exc, None

    def _trace(self, frame, event, arg):
        if event != "call":
            return None
        back = frame.f_back
        if back is None or not back.f_code.co_filename.startswith(REPO + "/improver"):
            return None
        code = frame.f_code
        base = os.path.basename(code.co_filename)[:-3]
        dispatched = code.co_filename.startswith("<__array_function__")  # numpy functions such as around
        if base in RESTORERS or "importlib" in code.co_filename or code.co_filename.startswith("<") and not dispatched or code.co_flags & 0x20 or code.co_name in ("<genexpr>", "<listcomp>", "<dictcomp>", "<setcomp>", "__exit__", "__enter__", "__del__"):
            return None
        if not dispatched and not (code.co_filename.startswith(REPO + "/improver") or "numpy" in code.co_filename or "iris" in code.co_filename or "scipy" in code.co_filename):
            return None
        self.n += 1
        if self.n == self.at:
            self.where = "%s called at %s:%d" % (code.co_name, back.f_code.co_filename.replace(REPO + "/", ""), back.f_lineno)
            sys.settrace(None)
            raise self.exc
        return None

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


# ------------------------------------------------------------------ plans
LINES = [["sim-make", "--tag=a", "--value=2"], ["sim-apply", "--tag=b", "[", "sim-make", "--tag=a", "]", "[", "sim-make", "--tag=c", "--value=3", "]"], ["sim-make", "--tag=a", "--nonsense"],
         ["sim-apply", "--tag=b", "["], ["no-such-command"], ["sim-make"], ["help"], ["sim-make", "--tag=fails"], ["sim-apply", "--tag=fails", "[", "sim-make", "--tag=a", "]"],
         ["sim-make", "--tag=a", "--output=OUT"], ["sim-apply", "--tag=b", "[", "sim-make", "--tag=a", "]", "--output=OUT"]]
FLAGS = [[], [], ["--verbose"], ["--dry-run"], ["--memprofile", "MEM"]]


def generate(rng, idx, tier):
    g, gb = W.grouped(True), W.grouped(False)
    kind, path = W.turn(idx, "PFPFGPPG")
    p = {}
    if rng.random() < 0.5:
        p["err"] = {k: rng.choice(["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")}
    if rng.random() < 0.4:
        p["print"] = rng.choice([{"precision": 3}, {"suppress": False, "threshold": 7}, {"linewidth": 44, "nanstr": "missing"}])
    if rng.random() < 0.5:
        p["warn"] = rng.choice(["ignore", "always", "once"])
    if rng.random() < 0.3:
        p["env"] = {"DST_MARK": "1", "OMP_NUM_THREADS": "1"}
    if rng.random() < 0.3:
        p["cwd"] = True
    if rng.random() < 0.3:
        p["umask"] = rng.choice([0o002, 0o027])
    if rng.random() < 0.2:
        p["rec"] = 1700
    if rng.random() < 0.2:
        p["prec"] = 19

    def call(focus):
        k = rng.random()
        rid = rng.choice(g[kind][path]) if focus else W.pick(rng)
        if focus and path in gb[kind] and k < 0.2:
            rid = rng.choice(gb[kind][path])
        return {"op": "call", "rid": rid, "vary": W.random_vary(rng), "fail": [[rng.random(), rng.choice(sorted(EXC))] for _ in range(rng.choice([0, 1, 3, 6]))]}

    def other():
        k = rng.random()
        if k < 0.45:
            return {"op": "redirect", "target": rng.randrange(4), "body": [body() for _ in range(rng.choice([0, 1, 2, 3]))], "end": rng.choice(["ok", "ok", "ValueError", "KeyboardInterrupt", "SystemExit", "return"])}
        if k < 0.75:
            return {"op": "cmd", "line": [rng.choice(FLAGS), rng.choice(LINES)], "via": rng.choice(["main", "run_main"])}
        return {"op": rng.choice(["save", "load"]), "spec": cubes.spec_random(rng), "damage": rng.random() < 0.3, "faults": {str(rng.randrange(1, 25)): ["error", rng.choice(["ENOSPC", "EIO"])]} if rng.random() < 0.6 else {}}

    def body():
        k = rng.random()
        if k < 0.45:
            return {"op": "print", "text": "t%d" % rng.randrange(1000)}
        if k < 0.6:
            return dict(call(rng.random() < 0.3), fail=[])
        return other()

    steps = [call(True)]
    if kind == "G":  # short calls
        steps += [dict(call(True), fail=[[(i + rng.random()) / 8, rng.choice(sorted(EXC))] for i in range(8)]) for _ in range(2)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        steps.append(other() if rng.random() < 0.6 else call(rng.random() < 0.5))
    return {"settings": p, "steps": steps}


def shrink(p):
    s = p["steps"]
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(p, steps=s[:i] + s[i + 1:])
    for k in p["settings"]:
        yield dict(p, settings={a: b for a, b in p["settings"].items() if a != k})
    for i, x in enumerate(s):
        def put(y):
            return dict(p, steps=s[:i] + [y] + s[i + 1:])
        for j in range(len(x.get("body", ()))):
            yield put(dict(x, body=x["body"][:j] + x["body"][j + 1:]))
        for j in range(len(x.get("fail", ()))):
            yield put(dict(x, fail=x["fail"][:j] + x["fail"][j + 1:]))
        if x.get("vary"):
            yield put(dict(x, vary=None))


class Leave(Exception):
    pass


def execute(plan, st):
    root = tempfile.mkdtemp(prefix="dst-c11-")
    try:
        with Settings(plan, root):
            S = Session(plan, st, root)
            for i, s in enumerate(plan["steps"]):
                S.step(s, 0, "step %d" % i)
            S.check_output("at the end")
    finally:
        shutil.rmtree(root, ignore_errors=True)


class Session:
    def __init__(self, plan, st, root):
        self.st, self.root = st, root
        self.targets = [io.StringIO(), io.StringIO(), io.StringIO(), None]
        self.model = [[], [], []]
        self.stack = [None]  # index of the target of each redirection in force
        self.loose = set()  # targets that got output from something other than our own prints

    def step(self, s, depth, what):
        getattr(self, "do_" + s["op"])(s, depth, what)

    def around(self, what, fn, expected=()):
        """Run fn, which may fail in any way, and compare the settings."""
        mods = len(sys.modules)
        a = settings()
        err = None
        try:
            out = fn()
        except BaseException as e:
            if isinstance(e, Violation) or type(e).__name__ in ("SimAbort", "RunTimeout") or (unsupported(e) and not isinstance(e, tuple(EXC.values()))):
                raise
            err, out = e, None
        b = settings()
        d = changed(a, b)
        if len(sys.modules) != mods:
            # something imported for the first time may extend the warning filters
            d = [x for x in d if not x.startswith(("warning filters", "sys.path", "dask conf", "thread hooks"))]
        if d:
            raise Violation("settings-changed", "%s, which ended with %s: %s" % (what, "a result" if err is None else "%s (%s)" % (type(err).__name__, where(err)), "; ".join(d)))
        self.st.op(what.split(" ")[0])
        return out, err

    def touch(self):
        t = self.stack[-1]
        if t is not None:
            self.loose.add(t)

    def do_call(self, s, depth, what):
        rid, vary = s["rid"], s["vary"]
        if W.table().get(rid) is None:
            return
        c = W.build(rid, vary)
        fn = c.target()
        self.touch()
        n = CallFailer()

        def one(failer, c, fn):
            with failer:
                return W.outcome(fn, c.args, c.kwargs)

        out, err = self.around("call %s %s" % (rid, vary), lambda: one(n, c, fn))
        self.st.log("call", rid, vary, out and out[0])
        self.st.state("call", rid, depth)
        if s["fail"]:
            # counted when caches that are filled on first use have been filled
            n, c = CallFailer(), W.build(rid, vary)
            fn = c.target()
            self.around("call %s %s again" % (rid, vary), lambda: one(n, c, fn))
            self.st.log("calls", n.n)
        for at, exc in s["fail"] if n.n else ():
            c = W.build(rid, vary)
            fn = c.target()
            f = CallFailer(1 + int(at * n.n), EXC[exc]("injected"))
            self.around("call %s %s with %s at call %d" % (rid, vary, exc, f.at), lambda: one(f, c, fn))
            if f.where:
                self.st.fault(exc)
                self.st.state("fail", rid, f.where, exc)
                self.st.log("failed", f.where)

    def do_print(self, s, depth, what):
        print(s["text"])
        t = self.stack[-1]
        if t is not None:
            self.model[t].append(s["text"])

    def do_redirect(self, s, depth, what):
        from improver.utilities.redirect_stdout import redirect_stdout

        k = s["target"]
        target = self.targets[k]
        inner = []
        exc = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}.get(s["end"])
        token = exc("from the body") if exc else None

        def run():
            with redirect_stdout(target):
                inner.append(sys.stdout is target)
                self.stack.append(k if target is not None else None)
                try:
                    for b in s["body"]:
                        self.step(b, depth + 1, what + " in redirection")
                        inner.append(sys.stdout is target)
                finally:
                    self.stack.pop()
                if token is not None:
                    raise token
                if s["end"] == "return":
                    return "left"
            return "ended"

        out, err = self.around("redirect to %d at depth %d, body %s" % (k, depth, s["end"]), run)
        self.st.state("redirect", k, depth, s["end"], len(s["body"]))
        if token is not None:
            self.st.fault("body-" + s["end"])
        if not all(inner):
            raise Violation("not-redirected", "%s: inside the redirection standard output was not its target" % what)
        if err is not token:
            raise Violation("redirect-outcome", "%s: body ended with %r but the redirection with %r" % (what, token, err))
        self.check_output("after " + what)

    def check_output(self, when):
        for k in range(3):
            if k in self.loose:
                got = [x for x in self.targets[k].getvalue().splitlines() if x in set(self.model[k])]
            else:
                got = self.targets[k].getvalue().splitlines()
            if got != self.model[k]:
                raise Violation("wrong-output", "%s: target %d holds %s, printed inside its redirections: %s" % (when, k, got[:6], self.model[k][:6]))

    def do_cmd(self, s, depth, what):
        cli = simlib.load_cli()
        flags, line = s["line"]
        self.touch()
        simlib.reset()
        simlib.FAIL["fails"] = ValueError("the command fails")
        args = [os.path.join(self.root, a) if a == "MEM" else a.replace("OUT", os.path.join(self.root, "out.nc")) for a in list(flags) + line]

        def run():
            if s["via"] == "main":
                return cli.main.cli("improver", *args)
            return cli.run_main(["improver"] + args)

        out, err = self.around("cmd %s via %s" % (" ".join(list(flags) + line), s["via"]), run)
        self.st.log("cmd", s["line"], type(err).__name__)
        self.st.state("cmd", tuple(flags), tuple(line), depth)

    def do_save(self, s, depth, what):
        from improver.utilities.save import save_netcdf

        c = cubes.make(s["spec"])
        with Disk(self.st, {int(k): v for k, v in s["faults"].items()}) as d:
            self.around("save with faults %s" % s["faults"], lambda: save_netcdf(c, os.path.join(d.root, "x.nc")))
        self.st.state("save", str(s["faults"]))

    def do_load(self, s, depth, what):
        from improver.utilities.load import load_cube, load_cubelist
        from improver.utilities.save import save_netcdf

        c = cubes.make(s["spec"])
        with Disk(self.st, {}) as d:
            p = os.path.join(d.root, "x.nc")
            save_netcdf(c, p)
            if s["damage"]:
                with d.pause():
                    raw = open(p, "rb").read()
                    with open(p, "wb") as f:
                        f.write(raw[:len(raw) // 2])
                self.st.fault("truncated-file")
            for f in (load_cube, load_cubelist):
                self.around("load damaged=%s" % s["damage"], lambda: [x.data for x in W.cubes_in([f(p)])])
        self.st.state("load", s["damage"])
