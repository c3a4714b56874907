"""C09: memory monitoring - interleavings of command and monitor under a virtual clock."""
import builtins
import datetime as _dt
import errno
import importlib
import io
import os
import re
import shutil
import sys
import tempfile

from .. import simlib
from ..core import REPO, Violation, where
from ..sched import Patcher, Sched, SimThread, patch_threading

RUNS = {"quick": 2500, "thorough": 120000}
BATCH = 60
RULE = ("Each run draws command programs (work phases, memory growth, nested/failed/instant commands, 1-3 uses in one process), "
        "scheduling hand-overs between command and monitor at source-line granularity, and file faults on the monitor's outputs.")
STATE_MEASURE = "hash of the sequence of hand-overs (step, from, to)"
REAL = ["improver.memprofile", "improver.cli (main --memprofile on part of the runs)", "file output of the monitor"]
STUB = ["thread start/join, queue, sleep and clock (virtual)", "tracemalloc and getrusage (simulated memory)"]
FILES = (REPO + "/improver/memprofile.py",)
_real_open = builtins.open
MAX_GAP = 0.55  # the documented interval is 0.1 s


def prepare():
    simlib.load_cli()


def generate(rng, idx, tier):
    uses = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        phases = []
        for _ in range(rng.choice([0, 0, 1, 2, 3, 6])):
            phases.append([rng.choice([0.0, 0.01, 0.05, 0.1, 0.1, 0.15, 0.3, 1.0]), rng.choice([0, 0, 1, 5, 100]) * 1024])
        uses.append({"phases": phases, "fail": rng.choice([None, None, None, "ValueError", "KeyboardInterrupt", "SystemExit", "MemoryError"]),
                     "via": rng.choice(["decorator", "decorator", "startend", "cli"]), "cpu": rng.choice([0, 0, 3, 30]),
                     "args": rng.randrange(3)})
    n = rng.choice([0, 0, 1, 2, 3, 5, 8, 12])
    top = rng.choice([12, 40, 90, 200])
    switches = sorted([rng.randrange(1, top), rng.randrange(4)] for _ in range(n))
    fault = None
    if rng.random() < 0.2:
        fault = {"file": rng.choice(["_MAX_TRACKER", "_SNAPSHOT"]), "op": rng.choice(["open", "write"]), "nth": rng.choice([0, 0, 1, 2]),
                 "errno": rng.choice(["ENOSPC", "EIO", "EACCES"])}
    return {"uses": uses, "switches": switches, "fault": fault, "base": rng.choice([0, 10, 50]) * 1024 + 1024}


def shrink(p):
    for i in range(len(p["uses"])):
        if len(p["uses"]) > 1:
            yield dict(p, uses=p["uses"][:i] + p["uses"][i + 1:])
    if p["fault"]:
        yield dict(p, fault=None)
    for i in range(len(p["switches"])):
        yield dict(p, switches=p["switches"][:i] + p["switches"][i + 1:])
    for i, u in enumerate(p["uses"]):
        for j in range(len(u["phases"])):
            yield dict(p, uses=p["uses"][:i] + [dict(u, phases=u["phases"][:j] + u["phases"][j + 1:])] + p["uses"][i + 1:])
        if u["cpu"]:
            yield dict(p, uses=p["uses"][:i] + [dict(u, cpu=0)] + p["uses"][i + 1:])
        if u["via"] != "decorator":
            yield dict(p, uses=p["uses"][:i] + [dict(u, via="decorator")] + p["uses"][i + 1:])


class World:
    def __init__(self, plan, st, root):
        self.plan, self.st, self.root = plan, st, root
        self.rss = plan["base"]
        self.samples = []  # (prefix-agnostic) rss values seen by the monitor of the current use
        self.times = []
        self.clock = lambda: 0.0
        self.tracing = 0
        self.starts = 0
        self.fault_fired = False
        self.nth = 0

    def getrusage(self, who):
        self.samples.append(self.rss)
        self.times.append(self.clock())
        self.st.log("sample", self.rss)
        return type("ru", (), {"ru_maxrss": self.rss})()

    # tracemalloc
    def start(self, nframe=1):
        self.tracing += 1
        self.starts += 1

    def stop(self):
        self.tracing = 0

    def is_tracing(self):
        return self.tracing > 0

    def take_snapshot(self):
        if not self.tracing:
            raise RuntimeError("the tracemalloc module must be tracing memory allocations to take a snapshot")
        return Snap(self, len(self.samples))

    def maybe_fail(self, path, op):
        f = self.plan["fault"]
        if f and path.endswith(f["file"]) and f["op"] == op:
            self.nth += 1
            if self.nth - 1 == f["nth"]:
                self.fault_fired = True
                self.st.fault("%s-%s" % (op, f["errno"]))
                raise OSError(getattr(errno, f["errno"]), os.strerror(getattr(errno, f["errno"])), path)


class Snap:
    def __init__(self, world, after):
        self.world, self.after = world, after
        self.traces = []

    def dump(self, filename):
        self.world.maybe_fail(str(filename), "open")
        with _real_open(filename, "w") as f:
            self.world.maybe_fail(str(filename), "write")
            f.write("snapshot after sample %d\n" % self.after)

    def statistics(self, *a, **k):
        return []

    def filter_traces(self, *a):
        return self


class FaultyText(io.TextIOWrapper):
    world = None
    simpath = None

    def write(self, s):
        self.world.maybe_fail(self.simpath, "write")
        return super().write(s)


def execute(plan, st):
    root = tempfile.mkdtemp(prefix="dst-c09-")
    P = Patcher()
    world = World(plan, st, root)
    opened = []

    def sim_open(file, mode="r", *a, **k):
        path = os.fspath(file) if not isinstance(file, int) else file
        if not isinstance(path, str) or not path.startswith(root):
            return _real_open(file, mode, *a, **k)
        if any(c in mode for c in "wax+"):
            world.maybe_fail(path, "open")
        f = _real_open(file, mode, *a, **k)
        if any(c in mode for c in "wax+") and "b" not in mode:
            f.detach()
            raw = _real_open(file, mode.replace("t", "") + "b")
            f = FaultyText(raw, encoding="utf-8")
            f.world, f.simpath = world, path
        opened.append((path, f))
        return f

    sched = Sched(plan["switches"], max_steps=20000, st=st, trace_filter=lambda fn: fn in FILES)
    threads_before = SimThread._n
    try:
        patch_threading(P)
        import resource
        import tracemalloc

        P.set(resource, "getrusage", world.getrusage)
        for n in ("start", "stop", "is_tracing", "take_snapshot"):
            P.set(tracemalloc, n, getattr(world, n))

        class SimDatetime(_dt.datetime):
            @classmethod
            def now(cls, tz=None):
                return _dt.datetime.fromtimestamp(sched.now, tz or _dt.timezone.utc).replace(tzinfo=tz)

        P.set(_dt, "datetime", SimDatetime)
        P.set(builtins, "open", sim_open)
        P.set(io, "open", sim_open)
        old = sys.modules.pop("improver.memprofile", None)
        mod = importlib.import_module("improver.memprofile")
        try:
            judge(plan, st, world, sched, mod, root, opened)
        finally:
            if old is not None:
                sys.modules["improver.memprofile"] = old
            else:
                sys.modules.pop("improver.memprofile", None)
    finally:
        P.undo()
        shutil.rmtree(root, ignore_errors=True)


class Boom(Exception):
    pass


EXC = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "MemoryError": MemoryError}


def judge(plan, st, world, sched, mod, root, opened):
    outcomes = []

    def command_for(u):
        exc = EXC[u["fail"]]("from the command") if u["fail"] else None
        token = object()
        seen = []

        def command(*args, **kwargs):
            seen.append((args, kwargs))
            for _ in range(u["cpu"]):
                sched.point("work")
            for dt, grow in u["phases"]:
                sched.sleep(dt)
                world.rss += grow
                sched.point("work")
            if exc is not None:
                raise exc
            return token

        return command, exc, token, seen

    def client():
        for i, u in enumerate(plan["uses"]):
            prefix = os.path.join(root, "mem%d" % i)
            command, exc, token, seen = command_for(u)
            world.samples = []
            world.times = []
            world.clock = lambda: sched.now
            begun = sched.now
            del opened[:]
            world.fault_fired = False
            tasks0 = len(sched.tasks)
            st.op(u["via"])
            args, kwargs = ((), {}) if u["args"] == 0 else ((1, [2, "x"]), {}) if u["args"] == 1 else (("a",), {"verbose": True})
            got = err = None
            try:
                if u["via"] == "decorator":
                    got = mod.memory_profile_decorator(command, prefix)(*args, **kwargs)
                elif u["via"] == "startend":
                    thread, queue = mod.memory_profile_start(prefix)
                    try:
                        got = command(*args, **kwargs)
                    finally:
                        mod.memory_profile_end(queue, thread)
                else:
                    cli = simlib.load_cli()
                    simlib.HOOK = command
                    args, kwargs = tuple(str(x) for x in range(u["args"])), {"flag": u["args"] == 1}
                    line = ["sim-hook"] + list(args) + (["--flag"] if kwargs["flag"] else [])
                    got = cli.main.cli("improver", "--memprofile", prefix, *line)
            except BaseException as e:
                if type(e).__name__ == "SimAbort":
                    raise
                err = e
            outcomes.append(u["via"])
            after(u, i, prefix, exc, token, seen, args, kwargs, got, err, tasks0, begun)

    def after(u, i, prefix, exc, token, seen, args, kwargs, got, err, tasks0, begun):
        who = "use %d (%s, command %s)" % (i, u["via"], "raises " + u["fail"] if u["fail"] else "returns")
        if len(seen) != 1 or seen[0] != (args, kwargs):
            raise Violation("command-calls", "%s: command called with %r instead of once with %r" % (who, seen, (args, kwargs)))
        if exc is None:
            if err is not None:
                raise Violation("command-affected", "%s: %s: %s raised instead of the result (%s)" % (who, type(err).__name__, err, where(err)))
            if got is not token:
                raise Violation("command-affected", "%s: result replaced by %r" % (who, got))
        elif err is not exc:
            raise Violation("command-affected", "%s: caller saw %r instead of the command's exception" % (who, err))
        mon = sched.tasks[tasks0:]
        alive = [t.name for t in mon if t.alive]
        if alive:
            raise Violation("monitor-running", "%s: still running afterwards: %s" % (who, alive))
        if world.tracing:
            raise Violation("tracing-left-on", "%s: memory tracing still on" % who)
        openf = [p for p, f in opened if not f.closed]
        if openf and not world.fault_fired:
            raise Violation("file-left-open", "%s: not closed: %s" % (who, [os.path.basename(p) for p in openf]))
        if world.fault_fired:
            return
        dead = [t.uncaught for t in mon if t.uncaught is not None]
        if dead:
            raise Violation("monitor-died", "%s: monitor ended by %s: %s (%s)" % (who, type(dead[0]).__name__, dead[0], where(dead[0])))
        marks = [begun] + world.times + [sched.now]
        gap, since = max((b - a, a) for a, b in zip(marks, marks[1:]))
        # (a monitor that was not given the processor cannot look)
        if gap > MAX_GAP and not any(since <= t <= since + gap for t in sched.forced):
            raise Violation("not-monitored", "%s: memory not looked at for %.2f s from %.2f s after the start; the command took %.2f s" % (who, gap, since - begun, sched.now - begun))
        maxima, at = [], []
        for n, v in enumerate(world.samples):
            if not maxima or v > maxima[-1]:
                maxima.append(v)
                at.append(n)
        try:
            with _real_open(prefix + "_MAX_TRACKER") as f:
                text = f.read()
        except OSError as e:
            raise Violation("tracker-missing", "%s: %s" % (who, e))
        if text and not text.endswith("\n"):
            raise Violation("tracker-wrong", "%s: incomplete last line %r" % (who, text[-60:]))
        vals = [re.search(r"max RSS ([\d.]+) MiB", ln) for ln in text.splitlines()]
        if any(m is None for m in vals):
            raise Violation("tracker-wrong", "%s: unexpected line in %r" % (who, text))
        vals = [float(m.group(1)) for m in vals]
        want = [round(v / 1024, 2) for v in maxima]
        if vals != want or not vals:
            raise Violation("tracker-wrong", "%s: tracker lists %s, running maxima of the %d samples were %s" % (who, vals, len(world.samples), want))
        try:
            with _real_open(prefix + "_SNAPSHOT") as f:
                snap = f.read()
        except OSError as e:
            raise Violation("snapshot-missing", "%s: %s" % (who, e))
        m = re.match(r"snapshot after sample (\d+)\n$", snap)
        if not m:
            raise Violation("snapshot-wrong", "%s: %r" % (who, snap))
        k = int(m.group(1))
        if not at[-1] <= k <= at[-1] + 1:
            raise Violation("snapshot-wrong", "%s: snapshot taken after sample %d, highest maximum was sample %d of %d" % (who, k, at[-1] + 1, len(world.samples)))
        st.probe("maxima>1", int(len(maxima) > 1))
        st.probe("instant-command", int(not u["phases"]))

    t = sched.spawn(client, "client")
    sched.run()
    st.state(tuple(sched.schedule[:500]))
    if t.exc is not None:
        raise t.exc
    st.probe("handovers", len(sched.schedule))
