"""C10: profiling is reported exactly once per request, at exit, with the right content."""
import builtins
import errno
import io
import os
import pstats
import re
import shutil
import sys
import tempfile

from .. import simlib
from ..core import SimAbort, Violation, unsupported, where
from ..sched import Patcher

RUNS = {"quick": 1200, "thorough": 100000}
BATCH = 40
TECHNIQUE = "histories of profiled and unprofiled command lines ended by a simulated exit, with failing commands and failing report files"
RULE = ("Each run is a process history of 1-6 command lines, each profiled to a file, to standard error or not at all, succeeding or failing in seeded ways, with direct "
        "uses of the profiling calls between, then a simulated process exit at which report files may refuse to be written.")
STATE_MEASURE = "hash of the sequence of (kind of line, outcome, target)"
REAL = ["improver.profile", "improver.cli.main", "cProfile, pstats"]
STUB = ["process exit (recorded atexit handlers run last in first out)", "the commands (synthetic)", "failing report files"]
EXC = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "MemoryError": MemoryError, "OSError": OSError}


def prepare():
    simlib.load_cli()
    import improver.profile  # noqa: F401


def generate(rng, idx, tier):
    L = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        L.append({"profile": rng.choice([None, None, "file", "file", "-"]), "file": rng.randrange(3), "fail": rng.choice([None, None, None] + sorted(EXC)),
                  "via": rng.choice(["cli", "cli", "main", "direct"]), "work": rng.choice([1, 3, 20]), "deep": rng.choice([0, 0, 5]),
                  "dry": rng.random() < 0.08, "bad": rng.random() < 0.08})
    return {"lines": L, "fault": rng.choice([None, None, None, None, {"file": rng.randrange(3), "errno": rng.choice(["ENOSPC", "EACCES"])}])}


def shrink(p):
    L = p["lines"]
    for i in range(len(L)):
        if len(L) > 1:
            yield dict(p, lines=L[:i] + L[i + 1:])
    if p["fault"]:
        yield dict(p, fault=None)
    for i, ln in enumerate(L):
        for k, v in (("fail", None), ("deep", 0), ("work", 1), ("dry", False), ("bad", False), ("via", "main")):
            if ln[k] != v:
                yield dict(p, lines=L[:i] + [dict(ln, **{k: v})] + L[i + 1:])


def marker(i):
    """A function with a name of its own, so that its presence in a report can be told."""
    ns = {}
    exec("def marker_%d(n, d):\n    if d:\n        return marker_%d(n, d - 1)\n    return sum(len(str(x)) for x in range(n))\n" % (i, i), ns)
    return ns["marker_%d" % i]


def execute(plan, st):
    import atexit

    simlib.load_cli()
    root = tempfile.mkdtemp(prefix="dst-c10-")
    P = Patcher()
    hooks = []
    so, se = sys.stdout, sys.stderr
    try:
        def register(f, *a, **k):
            hooks.append((f, a, k))
            return f

        def unregister(f):
            hooks[:] = [h for h in hooks if h[0] != f]

        P.set(atexit, "register", register)
        P.set(atexit, "unregister", unregister)
        judge(plan, st, root, hooks)
    finally:
        sys.setprofile(None)
        sys.stdout, sys.stderr = so, se
        P.undo()
        simlib.reset()
        shutil.rmtree(root, ignore_errors=True)


def judge(plan, st, root, hooks):
    from improver import profile

    cli = simlib.load_cli()
    requests = []  # (index of line, target or "-")
    ran = []
    errbuf, outbuf = io.StringIO(), io.StringIO()
    files = [os.path.join(root, "report %d.prof" % i) for i in range(3)]
    for i, ln in enumerate(plan["lines"]):
        m = marker(i)
        token = object()
        exc = EXC[ln["fail"]]("line %d" % i) if ln["fail"] else None

        def command(*a, **k):
            m(ln["work"], ln["deep"])
            ran.append(i)
            if exc is not None:
                raise exc
            return token

        simlib.HOOK = command
        target = files[ln["file"]] if ln["profile"] == "file" else ln["profile"]
        got = err = None
        st.op("line:%s" % ln["via"])
        sys.stdout, sys.stderr = outbuf, errbuf
        e0 = errbuf.tell()
        try:
            if ln["via"] == "direct":
                if target:
                    profile.profile_hook_enable(dump_filename=None if target == "-" else target)
                got = command()
            else:
                words = ["sim-hook", "x"] + (["]"] if ln["bad"] else [])
                if ln["via"] == "cli":
                    flags = ["--profile=" + target] if target else []
                    got = cli.main.cli("improver", *flags, *(["--dry-run"] if ln["dry"] else []), *words)
                else:
                    got = cli.main("improver", *words, profile=target, **({"dry_run": True} if ln["dry"] else {}))
        except SimAbort:
            raise
        except BaseException as e:
            err = e
        finally:
            sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
        if err is not None and unsupported(err):
            raise err
        desc = "line %d (%s, profile %s%s)" % (i, ln["via"], ln["profile"], ", fails with " + ln["fail"] if ln["fail"] else "")
        plainline = ln["via"] == "direct" or not (ln["dry"] or ln["bad"])
        if ln["bad"] and ln["via"] != "direct":
            if not isinstance(err, Exception):
                raise Violation("command-affected", "%s: mismatched brackets gave %r" % (desc, err or got))
            if target is not None and hooks_targets(hooks) > len(requests):
                requests.append((i, target))  # the request was seen before the line was rejected
            continue
        if target:
            requests.append((i, target))
        if plainline:
            if exc is not None and not (err is exc):
                raise Violation("command-affected", "%s: caller saw %r" % (desc, err if err is not None else got))
            if exc is None and (err is not None or getattr(got, "original_object", got) is not token):
                raise Violation("command-affected", "%s: %s" % (desc, "%s: %s (%s)" % (type(err).__name__, err, where(err)) if err else got))
        elif err is not None:
            raise Violation("command-affected", "%s: dry run raised %r" % (desc, err))
        if len(errbuf.getvalue()) > e0 and re.search(r"function calls|cumtime", errbuf.getvalue()[e0:]):
            raise Violation("reported-early", "%s: a report was printed before exit" % desc)
        early = [os.path.basename(f) for f in files if os.path.exists(f)]
        if early:
            raise Violation("reported-early", "%s: %s written before exit" % (desc, early))
        st.log("line", i, ln["profile"], ln["fail"], ln["via"])
    # ---- exit
    fault = plan["fault"]
    P = Patcher()
    real_open = builtins.open
    fired = []

    def sim_open(file, mode="r", *a, **k):
        if fault and isinstance(file, str) and file == files[fault["file"]] and "w" in mode:
            fired.append(1)
            st.fault("report-" + fault["errno"])
            raise OSError(getattr(errno, fault["errno"]), os.strerror(getattr(errno, fault["errno"])), file)
        return real_open(file, mode, *a, **k)

    P.set(builtins, "open", sim_open)
    P.set(io, "open", sim_open)
    sys.stdout, sys.stderr = outbuf, errbuf
    e0 = len(errbuf.getvalue())
    failures = []
    wrote = {}
    try:
        while hooks:
            f, a, k = hooks.pop()
            had = {x: os.stat(x).st_mtime_ns for x in files if os.path.exists(x)}
            try:
                f(*a, **k)
            except Exception as e:
                failures.append(e)
            for x in files:
                if os.path.exists(x) and had.get(x) != os.stat(x).st_mtime_ns:
                    wrote[x] = wrote.get(x, 0) + 1
    finally:
        sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
        P.undo()
    if sys.getprofile() is not None:
        raise Violation("still-profiling", "the profiler is still on after the reports")
    text = errbuf.getvalue()[e0:]
    st.state(tuple((ln["profile"], ln["fail"], ln["via"]) for ln in plan["lines"]), bool(fired))
    if failures and not fired:
        raise Violation("report-failed", "at exit: %s" % ["%s: %s (%s)" % (type(e).__name__, e, where(e)) for e in failures])
    n_err = len(re.findall(r"^\s*\d+ function calls", text, re.M))
    want_err = sum(t == "-" for _, t in requests)
    if n_err != want_err:
        raise Violation("report-count", "%d reports on standard error for %d requests; requests %s" % (n_err, want_err, [(i, os.path.basename(t)) for i, t in requests]))
    if re.search(r"function calls", outbuf.getvalue()):
        raise Violation("report-misplaced", "a report went to standard output")
    ends = [requests[k + 1][0] if k + 1 < len(requests) else len(plan["lines"]) for k in range(len(requests))]
    for f in files:
        reqs = [(i, ends[k]) for k, (i, t) in enumerate(requests) if t == f]
        blocked = fault and files[fault["file"]] == f
        if blocked:
            continue
        if bool(reqs) != os.path.exists(f):
            raise Violation("report-count", "%s %s; it was requested by lines %s" % (os.path.basename(f), "exists" if os.path.exists(f) else "is missing", [i for i, _ in reqs]))
        if not reqs:
            continue
        names = {fn[2] for fn in pstats.Stats(f).stats}
        # handlers run last in first out: the earliest request of a file is the last to write it
        cover(names, reqs[0], ran, plan, os.path.basename(f), reqs)
        st.probe("reports-checked")
    if want_err and want_err == len(requests) == 1:
        shown = set(re.findall(r"\((\w+)\)", text))
        if "due to restriction" not in text:
            cover(shown, (requests[0][0], len(plan["lines"])), ran, plan, "standard error", requests)
            st.probe("printed-reports-checked")
    st.probe("requests", len(requests))


def hooks_targets(hooks):
    return len(hooks)


def cover(names, span, ran, plan, what, reqs):
    for i in sorted(set(ran)):
        n = "marker_%d" % i
        if span[0] <= i < span[1] and n not in names:
            raise Violation("report-incomplete", "%s lacks the work of line %d, done after the request of line %d" % (what, i, span[0]))
        if i < span[0] and n in names:
            raise Violation("report-wrong", "%s includes work of line %d, done before the request of line %d" % (what, i, span[0]))
