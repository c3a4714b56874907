"""S03: independent calls in concurrent threads give their serial results."""
import importlib.util
import inspect
import os
import random
import sys

import numpy as np

from .. import workload as W
from ..core import REPO, SimAbort, Stats, Unsupported, Violation, unsupported
from ..sched import Sched

RUNS = {"quick": 400, "thorough": 200000}
BATCH = 5
TECHNIQUE = "seeded preemption of real threads at executed source lines by a cooperative scheduler, every thread's result compared with a process that makes only its call"
RULE = ("Each run starts 2-4 threads that each make 1-2 calls of plugins or functions of one family on their own instances and data, with seeded switches at lines executed inside improver "
        "(first or last execution of a line, ends of transient module state, or any step), either in a process that never made a call or in a warm one; or threads that look up names in a freshly loaded improver.api.")
STATE_MEASURE = "hash of (calls, lines at which threads were switched)"
REAL = ["all improver plugins and functions that run without the missing optional packages", "threads", "improver.api"]
STUB = ["iris/cartopy (stand-in)", "thread scheduling (cooperative, at source lines of improver)", "locks created by improver modules", "process restart (fork of a process that made no call)"]
Z = None


def answer(q):
    if q[0] == "lines":
        return W.pristine_lines(q[1])
    if q[0] == "call":
        return W.pristine(q[1:])
    st = Stats()
    try:
        simulate(q[1], q[2], st)
    except Violation as v:
        return (v.kind, v.detail), summary(st)
    return None, summary(st)


def summary(st):
    return {"faults": st.faults, "ops": st.ops, "probes": st.probes, "states": sorted(st.states), "trace": st.trace, "sim": st.sim_time}


def prepare():
    global Z
    W.load_all()
    Z = W.Zygote(answer)


def generate(rng, idx, tier):
    if rng.random() < 0.06:
        return {"api": [[rng.random() for _ in range(rng.choice([1, 2, 4]))] for _ in range(rng.choice([2, 3]))], "switches": sorted({rng.randrange(1, 60): rng.randrange(3) for _ in range(12)}.items())}
    g, gb = W.grouped(True), W.grouped(False)
    kind, path = W.turn(idx, "PGPFPGPF")
    paths = sorted(g[kind])
    fam = [p for p in paths if p.rsplit(".", 1)[0] == path.rsplit(".", 1)[0]]
    tasks = []
    pool = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        k = rng.random()
        p = path if k < 0.75 else rng.choice(fam)
        pool.append(rng.choice((gb if k < 0.08 and p in gb[kind] else g)[kind][p]))
    for i in range(rng.choice([2, 2, 3, 4])):
        calls = []
        for _ in range(rng.choice([1, 1, 2]) if kind != "G" else rng.choice([2, 3, 4])):
            calls.append({"rid": rng.choice(pool),
                          "vary": rng.choice([None, None, None, ["flip", 1]]),
                          "sw": [[rng.random(), rng.choice(["first", "last", "any", "state"]), rng.randrange(3)] for _ in range(rng.choice([0, 1, 2, 3, 6]))]})
        tasks.append(calls)
    if rng.random() < 0.6:
        # the same call with different values: whatever is shared by shape or by options is shared here
        for i, t in enumerate(tasks):
            tasks[i] = [dict(c, vary=[None, ["flip", 1]][i % 2], sw=[[rng.random(), rng.choice(["first", "last", "any", "state"]), rng.randrange(3)] for _ in range(rng.choice([1, 1, 2, 4]))])
                        for c in tasks[0]]
    more = [[[[[rng.random(), rng.choice(["any", "first", "last"]), rng.randrange(3)] for _ in range(rng.choice([1, 1, 2, 3]))] for c in t] for t in tasks] for _ in range(15)]
    return {"tasks": tasks, "pristine": rng.random() < 0.3, "more": more}


def shrink(p):
    if "api" in p:
        for i in range(len(p["switches"])):
            yield dict(p, switches=p["switches"][:i] + p["switches"][i + 1:])
        return
    t = p["tasks"]
    for k, m in enumerate(p["more"]):
        yield dict(p, more=[], tasks=[[dict(c, sw=sw) for c, sw in zip(a, b)] for a, b in zip(t, m)])
    if p["more"]:
        yield dict(p, more=[])
        return
    for i in range(len(t)):
        if len(t) > 2:
            yield dict(p, tasks=t[:i] + t[i + 1:])
        for j, c in enumerate(t[i]):
            def put(x):
                return dict(p, tasks=t[:i] + [x] + t[i + 1:])
            if len(t[i]) > 1:
                yield put(t[i][:j] + t[i][j + 1:])
            for k in range(len(c["sw"])):
                yield put(t[i][:j] + [dict(c, sw=c["sw"][:k] + c["sw"][k + 1:])] + t[i][j + 1:])
            if c["vary"]:
                yield put(t[i][:j] + [dict(c, vary=None)] + t[i][j + 1:])
    if p["pristine"]:
        yield dict(p, pristine=False)


def execute(plan, st):
    if "api" in plan:
        return api(plan, st)
    base = {}
    for c in [c for t in plan["tasks"] for c in t]:
        base["lines", c["rid"]] = Z.ask(("lines", c["rid"]))[1:]
        base[c["rid"], str(c["vary"])] = Z.ask(("call", c["rid"], c["vary"])) if c["vary"] else Z.ask(("lines", c["rid"]))[0]
    if plan["pristine"]:
        bad, s = Z.ask(("exec", plan, base))
        for k in ("faults", "ops", "probes"):
            getattr(st, k).update(s[k])
        st.states.update(s["states"])
        st.sim_time += s["sim"]
        for t in s["trace"]:
            st.log(t)
        if bad:
            raise Violation(*bad)
    else:
        simulate(plan, base, st)


class Steps:
    """Line counter of one call in one thread, handing over at chosen steps."""

    def __init__(self, sched, at, note):
        self.n, self.at, self.s, self.note = 0, at, sched, note

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(REPO + "/improver") else None

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            k = self.at.get(self.n)
            if k is not None:
                self.note("%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                self.s.switch(k)
        return self.line


class Streams:
    """Each thread sees its own process-wide random stream, as if it were alone."""

    def __init__(self, sched):
        self.sched, self.kept, self.fresh = sched, {}, {}
        self.real = np.random.RandomState, np.random.default_rng
        sched.on_switch = self.switch

    def switch(self, old, new):
        if old is not None:
            self.kept[old.tid] = (np.random.get_state(), random.getstate())
        if new.tid in self.kept:
            a, b = self.kept[new.tid]
            np.random.set_state(a)
            random.setstate(b)

    def begin(self, seed=12345):
        np.random.seed(seed)
        random.seed(seed)
        self.fresh[self.sched.current.tid] = random.Random(seed)

    def draw(self, s):
        return self.fresh[self.sched.current.tid].randrange(2 ** 31) if s is None else s

    def __enter__(self):
        np.random.RandomState = lambda s=None: self.real[0](self.draw(s))
        np.random.default_rng = lambda s=None: self.real[1](self.draw(s))

    def __exit__(self, *a):
        np.random.RandomState, np.random.default_rng = self.real


def simulate(plan, base, st):
    """One schedule; calls of few steps are run under many."""
    lines = sum(base["lines", c["rid"]][1] for t in plan["tasks"] for c in t)
    schedule(plan, base, st)
    for m in plan["more"][:12 if lines < 500 else 4 if lines < 1500 else 1 if lines < 4000 else 0]:
        schedule(dict(plan, pristine=False, tasks=[[dict(c, sw=sw) for c, sw in zip(a, b)] for a, b in zip(plan["tasks"], m)]), base, st, True)


def schedule(plan, base, st, warm=False):
    sched = Sched(st=st)
    streams = Streams(sched)
    spots_hit = []
    jobs = []
    for t in plan["tasks"]:
        job = []
        for c in t:
            b = W.build(c["rid"], c["vary"])
            cold, ncold, warm, nwarm, unsteady = base["lines", c["rid"]]
            first = plan["pristine"]
            spots, lines = (cold, ncold) if first else (warm, nwarm)
            at = {W.step_at(spots, lines, f, occ, () if first else unsteady): k for f, occ, k in c["sw"]}
            job.append((c, b, b.target(), at))
        jobs.append(job)
    if not plan["pristine"] and not warm:
        for c, b, fn, at in jobs[0][:1]:
            b2 = W.build(c["rid"], c["vary"])
            W.outcome(b2.target(), b2.args, b2.kwargs)
    results = {}

    def body(i):
        def note(where):
            spots_hit.append((i, where))

        def go():
            for j, (c, b, fn, at) in enumerate(jobs[i]):
                streams.begin()
                steps = Steps(sched, at, note)

                def traced(*a, **k):
                    sys.settrace(steps.call)
                    try:
                        r = fn(*a, **k)
                        return list(r) if inspect.isgenerator(r) else r
                    finally:
                        sys.settrace(None)
                try:
                    results[i, j] = W.plain_outcome(traced, b.args, b.kwargs)
                except Unsupported as e:
                    results[i, j] = ("unsupported", str(e))
                sched.point("call done")
        return go

    for i in range(len(jobs)):
        sched.spawn(body(i), "thread %d" % i)
    with streams:
        sched.run()
    for t in sched.tasks:
        if t.exc is not None:
            raise t.exc
    st.fault("preemptions", len(spots_hit))
    st.state(tuple((c["rid"], str(c["vary"])) for t in plan["tasks"] for c in t), tuple(spots_hit))
    for i, job in enumerate(jobs):
        for j, (c, b, fn, at) in enumerate(job):
            got = results.get((i, j))
            if got is None or got[0] == "unsupported":
                raise Unsupported(got and got[1])
            st.op("calls")
            st.log("got", i, j, got[0])
            d = W.diff(base[c["rid"], str(c["vary"])], got)
            if d:
                raise Violation("not-serial", "thread %d, %s varied %s: %s; threads: %s; switched at %s" % (
                    i, c["rid"], c["vary"], d, [[x["rid"] for x in t] for t in plan["tasks"]], spots_hit[:6]))


# ------------------------------------------------------------------ first use of lazily loaded parts
def fresh_api():
    import improver.api

    spec = importlib.util.spec_from_file_location("improver.api", improver.api.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def lookup(m, name):
    try:
        return ("ok", getattr(m, name))
    except SimAbort:
        raise
    except BaseException as e:
        return ("exc", type(e).__name__)


def api(plan, st):
    ref, m = fresh_api(), fresh_api()
    names = sorted(getattr(ref, "PROCESSING_MODULES", ())) or sorted(getattr(ref, "__all__", ()))
    if not names:
        raise Unsupported("improver.api lists no names")
    names += ["__wrapped__", "no_such_name"]
    sched = Sched(st=st, switches=plan["switches"], trace_filter=lambda f: f == m.__file__)
    got = {}

    def body(i):
        def go():
            for f in plan["api"][i]:
                n = names[int(f * len(names))]
                for _ in (0, 1):
                    got.setdefault((i, n), []).append(lookup(m, n))
                    sched.point("looked up")
        return go

    for i in range(len(plan["api"])):
        sched.spawn(body(i), "thread %d" % i)
    real = sys.modules.get("improver.api")
    try:
        sys.modules["improver.api"] = m
        sched.run()
    finally:
        sys.modules["improver.api"] = real
    for t in sched.tasks:
        if t.exc is not None:
            raise t.exc
    st.op("lookups", len(got))
    st.state("api", tuple(sorted((i, n) for i, n in got)), tuple(sched.schedule))
    for (i, n), v in sorted(got.items()):
        want = lookup(ref, n)
        for x in v:
            if x[0] != want[0] or x[1] is not want[1] and x[1] != want[1]:
                raise Violation("lookup-differs", "thread %d: improver.api.%s gave %s, alone %s" % (i, n, x, want))
