"""C12: suites of real commands linked by files, disturbed and rerun, end as if nothing had happened."""
import json
import os
import random
import shutil

from .. import cubes, simlib, suite
from .. import workload as W
from ..core import Violation, unsupported, where
from ..disk import Disk
from ..sched import Sched
from . import c02

RUNS = {"quick": 140, "thorough": 40000}
BATCH = 12
TECHNIQUE = "simulated runs of suites of real command lines by 1-3 workers interleaved at disk steps, with disk errors, crashes of one or all, retries, reruns and early starts, compared with an undisturbed sequential run"
RULE = ("Each run builds a suite of 3-9 real commands linked by files (or inlined as nested commands) from a catalogue of 85, optionally over the outputs of an earlier cycle, and runs it in 1-4 lifetimes by 1-3 workers taking ready steps in seeded order, "
        "switching at disk steps, with seeded disk errors, crashes of one worker or of all, reruns of finished steps, and starts before the inputs are there; a last lifetime has no faults.")
STATE_MEASURE = "hash of (suite step states, event)"
REAL = ["improver.cli (main, converters, with_output) and its commands", "improver.utilities.load and save", "netCDF4/HDF5 files"]
STUB = ["iris/cartopy (stand-in)", "workers (tasks under a simulated scheduler)", "disk faults and crashes"]
ASSUMES = ["a crash is the death of a process: completed file-system calls survive"]


def prepare():
    W.load_all()
    simlib.load_cli()


# ------------------------------------------------------------------ plans
def generate(rng, idx, tier):
    n = rng.choice([3, 4, 5, 6, 7, 9])
    steps, have = [], {}
    usable = [j for j in range(len(suite.LINES))]
    tries = 0
    while len(steps) < n and tries < 400:
        tries += 1
        j = rng.choice(usable)
        name, kinds, out, text = suite.LINES[j]
        linked = [k for k in kinds if k in have]
        if len(steps) > 0 and not linked and rng.random() < 0.8 and out not in ("prob", "ens", "det"):
            continue
        if any(k not in suite.SOURCES and k not in have for k in kinds):
            continue
        ins, used = [], {}
        for k in kinds:
            u = used[k] = used.get(k, -1) + 1
            if k in have and (k not in suite.SOURCES or rng.random() < 0.75):
                ins.append(["inline" if rng.random() < 0.12 else "step", rng.choice(have[k])])
            else:
                ins.append(["src", k, (u + rng.randrange(2)) % 3])
        steps.append({"line": j, "ins": ins})
        if out:
            have.setdefault(out, []).append(len(steps) - 1)
    phases = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        span = rng.choice([40, 100, 200])
        faults = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            faults[str(rng.randrange(1, span))] = ["crash"] if rng.random() < 0.4 else ["error", rng.choice(["ENOSPC", "EIO", "EACCES"])]
        phases.append({"faults": faults, "scope": rng.choice(["task", "all"]), "workers": rng.choice([1, 2, 2, 3]), "switches": sw(rng, span)})
    return {"seed": rng.randrange(3), "steps": steps, "order": rng.randrange(10 ** 6), "eager": rng.random() < 0.5, "stale": rng.random() < 0.35, "phases": phases,
            "rerun": [[rng.randrange(1, n + 1), rng.randrange(n)] for _ in range(rng.choice([0, 0, 1, 2, 3]))], "last": {"faults": {}, "scope": "all", "workers": rng.choice([1, 2, 3]), "switches": sw(rng, 200)}}


def sw(rng, span):
    k = rng.choice([0, 3, 10, 30])
    return sorted([rng.randrange(1, 3 * span), rng.randrange(4)] for _ in range(k))


def shrink(p):
    for i in range(len(p["phases"])):
        yield dict(p, phases=p["phases"][:i] + p["phases"][i + 1:])
    used = {x[1] for s in p["steps"] for x in s["ins"] if x[0] != "src"}
    for i in range(len(p["steps"]) - 1, -1, -1):
        if i not in used and len(p["steps"]) > 1:
            st = [dict(s, ins=[[x[0], x[1] - (x[1] > i)] if x[0] != "src" else x for x in s["ins"]]) for k, s in enumerate(p["steps"]) if k != i]
            yield dict(p, steps=st, rerun=[[a, b - (b > i)] for a, b in p["rerun"] if b != i])
    for k, v in (("eager", False), ("stale", False), ("rerun", []), ("seed", 0)):
        if p[k] != v:
            yield dict(p, **{k: v})
    for i, ph in enumerate(p["phases"] + [p["last"]]):
        def put(q):
            return dict(p, last=q) if i == len(p["phases"]) else dict(p, phases=p["phases"][:i] + [q] + p["phases"][i + 1:])
        for f in ph["faults"]:
            yield put(dict(ph, faults={a: b for a, b in ph["faults"].items() if a != f}))
        if ph["switches"]:
            yield put(dict(ph, switches=[]))
            for j in range(len(ph["switches"])):
                yield put(dict(ph, switches=ph["switches"][:j] + ph["switches"][j + 1:]))
        if ph["workers"] > 1:
            yield put(dict(ph, workers=1))


# ------------------------------------------------------------------ a suite
class Suite:
    def __init__(self, plan):
        self.plan, self.steps = plan, plan["steps"]
        self.needs = [sorted(self.direct(i)) for i in range(len(self.steps))]

    def direct(self, i):
        out = set()
        for x in self.steps[i]["ins"]:
            if x[0] == "step":
                out.add(x[1])
            elif x[0] == "inline":
                out |= self.direct(x[1])
        return out

    def args(self, i, root, output=True):
        s = self.steps[i]
        ins = []
        for x in s["ins"]:
            if x[0] == "src":
                ins.append(os.path.join(root, "in", "%s%d.nc" % (x[1], x[2])))
            elif x[0] == "step":
                ins.append(self.path(x[1], root))
            else:
                ins.append(self.args(x[1], root, False))
        a = suite.argv(s["line"], ins, os.path.join(root, "in"))
        return c02.flat(a) + (["--output", self.path(i, root)] if output else [])

    def path(self, i, root):
        return os.path.join(root, "out", "s%d.nc" % i)

    def files(self, seed):
        out = {}
        for s in self.steps:
            for x in s["ins"]:
                if x[0] == "src":
                    out["in/%s%d.nc" % (x[1], x[2])] = c02.source_bytes(x[1], (seed + x[2]) % 3)
            for k in suite.configs_of(s["line"]):
                out["in/%s.json" % k] = json.dumps(suite.CONFIGS[k]).encode()
        return out

    def undisturbed(self, root):
        """-> per step its output (None: it failed; "none": it makes no file)."""
        out = []
        for i in range(len(self.steps)):
            if any(out[j] is None or out[j] == "none" for j in self.needs[i]):
                out.append(None)
                continue
            try:
                c02.call("main.cli", self.args(i, root))
            except Exception as e:
                if unsupported(e):
                    raise
                out.append(None)
                continue
            p = self.path(i, root)
            out.append(cubes.nc_dump(p) if os.path.exists(p) else "none")
        return out

    def name(self, i):
        return "step %d (%s)" % (i, " ".join(os.path.basename(x) if "/" in x else x for x in self.args(i, "")))


def execute(plan, st):
    su = Suite(plan)
    if not su.steps:
        return
    disk = Disk(st, prefix="dst-c12-")
    with disk:
        with disk.pause():
            if plan["stale"]:
                # the previous cycle has left its inputs and outputs
                c02.put(disk.root, su.files(plan["seed"] + 1))
                su.undisturbed(disk.root)
                st.probe("over-older-outputs")
            c02.put(disk.root, su.files(plan["seed"]))
            ref = Disk(st, prefix="dst-ref-")
            try:
                c02.put(ref.root, su.files(plan["seed"]))
                want = su.undisturbed(ref.root)
            finally:
                shutil.rmtree(ref.root)
            st.probe("steps", len(want))
            st.probe("steps-that-fail-anyway", sum(w is None for w in want))
            disk.rng = random.Random(0)
        disk.stable = tuple("out/s%d.nc" % i for i in range(len(su.steps))) + tuple(su.files(plan["seed"]))
        w = World(plan, su, disk, st, want)
        for k, ph in enumerate(plan["phases"] + [plan["last"]]):
            w.lifetime(k, ph, k == len(plan["phases"]))
            with disk.pause():
                disk.restart()
        w.end()


class World:
    def __init__(self, plan, su, disk, st, want):
        self.plan, self.su, self.disk, self.st, self.want = plan, su, disk, st, want
        n = len(su.steps)
        self.ok = [False] * n  # has succeeded, and the suite knows
        self.prio = list(range(n))
        random.Random(plan["order"]).shuffle(self.prio)
        self.eager = plan["eager"] and not plan["stale"]
        self.reruns = sorted(plan["rerun"])
        self.finished = 0
        self.rng = random.Random(plan["order"] + 1)
        self.dirty = False  # something may have died or failed to clean up

    def ready(self, i):
        return all(self.ok[j] for j in self.su.needs[i])

    def appeared(self, i):
        """All the files it reads are there (which real suites take as a trigger)."""
        with self.disk.pause():
            return all(os.path.exists(self.su.path(j, self.disk.root)) for j in self.su.needs[i])

    def next(self):
        """A step to start now, or None."""
        for i in list(self.again):
            if i not in self.running and self.ok[i]:
                self.again.remove(i)
                self.st.probe("reruns")
                return i
        for i in self.prio:
            if self.ok[i] or i in self.running or self.tries[i] >= 5 or self.want[i] is None and self.tries[i]:
                continue
            if self.ready(i):
                return i
            if self.eager and self.early[i] < 3 and (self.appeared(i) or self.rng.random() < 0.1):
                self.early[i] += 1
                return i
        return None

    def lifetime(self, k, ph, last):
        n = len(self.su.steps)
        self.running, self.again, self.tries, self.early = set(), [], [0] * n, [0] * n
        self.hurt = set()
        disk, st = self.disk, self.st
        disk.step, disk.fired = 0, []
        disk.faults = {int(a): b for a, b in ph["faults"].items()}
        sched = Sched(ph["switches"], max_steps=200000, st=st)
        self.sched = sched
        if any(f[0] == "crash" for f in disk.faults.values()):
            self.dirty = True
        real_hit = type(disk).hit

        def hit(op, path, after=False):
            try:
                real_hit(disk, op, path)
            except OSError:
                self.hurt.add(sched.current.tid)
                if op in ("remove", "unlink"):
                    self.dirty = True
                raise

        disk.hit = hit
        disk.crash_hook = sched.kill_current if ph["scope"] == "task" else sched.kill_all
        self.holder = {}
        bad = []
        for w in range(ph["workers"]):
            sched.spawn(lambda: self.worker(k, bad), "worker%d" % w)
        try:
            sched.run()
        finally:
            disk.faults = {}
            disk.__dict__.pop("hit", None)
        for t in sched.tasks:
            if isinstance(t.exc, Violation):
                raise t.exc
        for t in sched.tasks:
            if t.exc is not None and not t.killed:
                raise t.exc
        st.fault("lifetime-end-" + ("crash" if any(t.killed for t in sched.tasks) else "clean"))
        self.look(k)

    def worker(self, k, bad):
        sched, st = self.sched, self.st
        tid = sched.current.tid
        while True:
            # a step of a worker that died is free again
            for i in list(self.running):
                if sched.tasks[self.holder[i]].killed:
                    self.running.discard(i)
            i = self.next()
            if i is None:
                if not any(not sched.tasks[self.holder[j]].killed for j in self.running):
                    return
                mark = self.finished
                sched.wait(lambda: self.finished != mark or not any(not sched.tasks[self.holder[j]].killed for j in self.running) or self.eager and any(
                    not self.ok[j] and not self.ready(j) and j not in self.running and self.early[j] < 3 and self.appeared(j) for j in range(len(self.ok))), label="idle")
                continue
            self.running.add(i)
            self.holder[i] = tid
            self.tries[i] += self.ready(i)
            was_ready = self.ready(i)
            self.hurt.discard(tid)
            err = None
            try:
                c02_call(self.su.args(i, self.disk.root))
            except Violation:
                raise
            except Exception as e:
                err = e
            self.finished += 1
            self.running.discard(i)
            desc = "lifetime %d, %s" % (k, self.su.name(i))
            if err is not None:
                if unsupported(err) and tid not in self.hurt:
                    raise err
                st.probe("failed-attempts")
                if tid not in self.hurt and was_ready and self.want[i] is not None:
                    raise Violation("fails-in-company", "%s: %s: %s (%s)" % (desc, type(err).__name__, err, where(err)))
            else:
                st.probe("successes")
                if not was_ready:
                    st.probe("early-successes")
                self.compare(i, desc)
                # an early start that got through is as good as any other
                self.ok[i] = self.ok[i] or self.ready(i) or not self.plan["stale"]
                while self.reruns and self.reruns[0][0] <= sum(self.ok):
                    j = self.reruns.pop(0)[1]
                    if j < len(self.ok):
                        self.again.append(j)
            st.state(tuple(self.ok), tuple(sorted(self.running)), i, err is None)

    def compare(self, i, desc):
        with self.disk.pause():
            want = self.want[i]
            p = self.su.path(i, self.disk.root)
            if want is None:
                raise Violation("wrong-output", "%s: succeeded, though it fails in an undisturbed run" % desc)
            if want == "none":
                return
            if not os.path.exists(p):
                raise Violation("wrong-output", "%s: succeeded without output" % desc)
            try:
                got = cubes.nc_dump(p)
            except Exception as e:
                raise Violation("wrong-output", "%s: unreadable output: %s" % (desc, e))
            if got != want:
                raise Violation("wrong-output", "%s: %s" % (desc, c02.first_difference(want, got)))

    def look(self, k):
        """Whatever outputs there are at the end of a lifetime are complete files."""
        with self.disk.pause():
            for i in range(len(self.su.steps)):
                p = self.su.path(i, self.disk.root)
                if self.ok[i]:
                    self.compare(i, "after lifetime %d, %s" % (k, self.su.name(i)))
                elif os.path.exists(p):
                    try:
                        cubes.nc_dump(p)
                    except Exception as e:
                        raise Violation("partial-output", "after lifetime %d: %s left an unreadable output: %s" % (k, self.su.name(i), e))

    def end(self):
        for i, w in enumerate(self.want):
            if w is not None and not self.ok[i]:
                raise Violation("no-progress", "%s never succeeded though faults had stopped" % self.su.name(i))
        with self.disk.pause():
            names = {f for f in c02.state(self.disk.root) if not f.endswith("/")}
        extra = names - set(self.su.files(self.plan["seed"])) - {"out/s%d.nc" % i for i in range(len(self.want))} - set(self.su.files(self.plan["seed"] + 1))
        if self.dirty:
            extra = {f for f in extra if not f.endswith(".tmp")}
        if extra:
            raise Violation("left-behind", "files %s are left" % sorted(extra))
        self.st.probe("completed-suites")


def c02_call(args):
    simlib.load_cli().main.cli("improver", *args)
