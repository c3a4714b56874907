"""D01: seeded operations are reproducible and isolated from every other use of randomness."""
import random
import sys
import uuid

import numpy as np

from .. import canon, ecc
from .. import workload as W
from ..core import REPO, Unsupported, Violation, unsupported
from ..sched import Patcher, Sched

RUNS = {"quick": 250, "thorough": 200000}
BATCH = 20
TECHNIQUE = "seeded interleavings of calls, at executed source lines, with threads that seed and draw from the process-wide random streams, against a model of those streams and calls made alone"
RULE = ("Each run interleaves 1-3 threads of calls (seeded reorderings of generated ensembles of several times, seeded EMOS, the generate-realizations command, any other call of the corpus) with threads that seed and draw from the process-wide streams; "
        "every draw must be the one a model of the stream gives, seeded and non-random results must be those of the call alone, and repeats with equal seeds must agree, while unseeded generators get fresh entropy.")
STATE_MEASURE = "hash of (calls, lines of the switches, draws)"
REAL = ["EnsembleReordering, ApplyEMOS, generate-realizations", "all improver plugins and functions that run without the missing optional packages", "numpy and Python random generators", "threads"]
STUB = ["iris/cartopy (stand-in)", "thread scheduling (cooperative, at source lines of improver)", "entropy of the operating system (drawn from the seed)", "identifiers drawn by dask (kept off the streams)"]
Z = None
STREAM_SEEDS = (0, 1, 2, 12345)


def answer(q):
    if q[0] == "count":
        return count(q[1])
    c = build(q[1])
    return run(c, 424242)


def prepare():
    global Z
    import improver.cli.generate_realizations  # noqa: F401

    W.load_all()
    Z = W.Zygote(answer)


# ------------------------------------------------------------------ calls: JSON-able specifications
def emos_ids():
    return sorted(r for r in W.table() if ":calibration.ensemble_calibration.ApplyEMOS:ok" in r)


def call_spec(rng, idx):
    k = rng.random()
    seed = rng.choice([0, 0, 1, 7, 2 ** 31, rng.randrange(10 ** 6)])
    if k < 0.4:
        s = ecc.spec(rng)
        if rng.random() < 0.6:
            s.update(ties=rng.choice([1, 2]), mask=None)
        return {"op": "reorder", "spec": s, "seed": seed, "random": rng.random() < 0.4, "cli": False}
    if k < 0.5:
        s = ecc.spec(rng)
        s.update(ties=rng.choice([1, 2, None]), mask=None, calties=None)
        return {"op": "reorder", "spec": s, "seed": seed, "random": False, "cli": True}
    if k < 0.62:
        ids = emos_ids()
        if ids:
            return {"op": "rid", "rid": rng.choice(ids), "extra": {"random_seed": seed, "randomise": rng.random() < 0.8}}
    return {"op": "rid", "rid": rng.choice(turn_ids(idx * 3 + rng.randrange(3))), "extra": {}}


def turn_ids(idx):
    kind, path = W.turn(idx, "PPF")
    g = W.grouped(True)[kind][path]
    b = W.grouped(False)[kind].get(path, [])
    return g + b[:1]


def is_random(c):
    """May this recorded call use unseeded randomness at all?"""
    extra = c["extra"]
    if extra.get("random_seed") is not None:
        return False
    p = W.table()[c["rid"]].path
    if p.endswith(("EnsembleReordering", "ApplyEMOS", "rank_ecc")):
        return True
    if ".synthetic_data." in p:
        return False
    b = W.build(c["rid"])
    return "random" in repr((b.args, b.kwargs, getattr(b, "init", "")))


class Job:
    pass


def build(c):
    j = Job()
    if c["op"] == "rid":
        b = W.build(c["rid"])
        j.fn = b.target()
        j.args, j.kwargs = b.args, dict(b.kwargs, **c["extra"])
        return j
    raw, cal = ecc.build(c["spec"])
    if c["cli"]:
        from improver.cli import generate_realizations

        j.fn, j.args = generate_realizations.process, (cal, raw)
        j.kwargs = {"random_seed": c["seed"], "skip_ecc_bounds": True}
    else:
        from improver.ensemble_copula_coupling.ensemble_copula_coupling import EnsembleReordering

        j.fn, j.args, j.kwargs = EnsembleReordering(), (cal, raw), {"random_seed": c["seed"], "random_ordering": c["random"]}
    return j


def run(j, seed):
    """Alone, from a given state of the global streams."""
    np.random.seed(seed)
    random.seed(seed)
    with Entropy(seed):
        return W.plain_outcome(j.fn, j.args, j.kwargs)


class Entropy:
    """Unseeded generators: each gets a fresh seed, as from the operating system, but repeatable."""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.drawn = 0

    def seed(self, s):
        if s is None:
            self.drawn += 1
            return self.r.randrange(2 ** 31)
        return s

    def __enter__(self):
        self.P = Patcher()
        state, rng, pyr = np.random.RandomState, np.random.default_rng, random.Random
        self.P.set(np.random, "RandomState", lambda s=None: state(self.seed(s)))
        self.P.set(np.random, "default_rng", lambda s=None: rng(self.seed(s)))
        # dask names its arrays with uuids that draw from Python's stream: not the operations' own doing
        one = uuid.uuid1

        def uuid1(*a, **k):
            s = random.getstate()
            try:
                return one(*a, **k)
            finally:
                random.setstate(s)
        self.P.set(uuid, "uuid1", uuid1)
        self.P.set(random, "Random", lambda s=None: pyr(self.seed(s)))
        return self

    def __exit__(self, *a):
        self.P.undo()


# ------------------------------------------------------------------ plans
def generate(rng, idx, tier):
    def sw(n):
        return [[rng.random(), rng.randrange(3)] for _ in range(rng.choice(n))]
    tasks = []
    base = [call_spec(rng, idx) for _ in range(rng.choice([1, 2]))]
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = []
        for _ in range(rng.choice([1, 2, 3])):
            c = rng.choice(base) if rng.random() < 0.7 else call_spec(rng, idx)
            t.append({"call": c, "sw": sw([0, 1, 2, 4])})
        tasks.append(t)
    acts = []
    for _ in range(rng.choice([1, 2])):
        acts.append([[rng.choice(["rand", "uniform", "randint", "normal", "py", "seed", "pyseed", "shuffle"]), rng.randrange(1, 4), rng.choice(STREAM_SEEDS)] for _ in range(rng.choice([2, 6, 12]))])
    return {"tasks": tasks, "acts": acts, "start": rng.choice([0, 1, 99, rng.randrange(10 ** 6)]), "entropy": rng.randrange(10 ** 6), "switches": sorted({rng.randrange(1, 40): rng.randrange(3) for _ in range(12)}.items())}


def shrink(p):
    for key in ("acts", "tasks"):
        x = p[key]
        for i in range(len(x)):
            if key == "acts" or len(x) > 1:
                yield dict(p, **{key: x[:i] + x[i + 1:]})
            for j in range(len(x[i])):
                if len(x[i]) > 1:
                    yield dict(p, **{key: x[:i] + [x[i][:j] + x[i][j + 1:]] + x[i + 1:]})
    t = p["tasks"]
    for i in range(len(t)):
        for j, c in enumerate(t[i]):
            def put(v):
                return dict(p, tasks=t[:i] + [t[i][:j] + [v] + t[i][j + 1:]] + t[i + 1:])
            for k in range(len(c["sw"])):
                yield put(dict(c, sw=c["sw"][:k] + c["sw"][k + 1:]))
            s = c["call"].get("spec")
            if s:
                for k, v in (("times", 0), ("mask", None), ("order", 0), ("timefirst", False), ("ny", 1), ("nx", 2), ("p", 0), ("calties", None), ("first", 0), ("m", 2)):
                    if s[k] != v:
                        yield put(dict(c, call=dict(c["call"], spec=dict(s, **{k: v}))))
    if p["switches"]:
        yield dict(p, switches=[])


class Steps:
    def __init__(self, sched, at, note):
        self.n, self.at, self.s, self.note = 0, at, sched, note

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(REPO + "/improver") else None

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            k = self.at.get(self.n)
            if k is not None:
                self.note("%s:%d" % (frame.f_code.co_filename.replace(REPO + "/", ""), frame.f_lineno))
                self.s.switch(k)
        return self.line


class Model:
    """The process-wide streams as they must be: touched only by those who use them on purpose."""

    def __init__(self, seed):
        np.random.seed(seed)
        random.seed(seed)
        self.np, self.py = np.random.RandomState(seed), random.Random(seed)

    def act(self, kind, n, seed):
        if kind == "seed":
            np.random.seed(seed)
            self.np.seed(seed)
            return None
        if kind == "pyseed":
            random.seed(seed)
            self.py.seed(seed)
            return None
        if kind == "py":
            return [random.random() for _ in range(n)], [self.py.random() for _ in range(n)]
        if kind == "rand":
            return np.random.rand(n).tolist(), self.np.rand(n).tolist()
        if kind == "uniform":
            return np.random.uniform(2, 5, n).tolist(), self.np.uniform(2, 5, n).tolist()
        if kind == "randint":
            return np.random.randint(0, 1000, n).tolist(), self.np.randint(0, 1000, n).tolist()
        if kind == "normal":
            return np.random.normal(0, 1, n).tolist(), self.np.normal(0, 1, n).tolist()
        a, b = np.arange(5 * n), np.arange(5 * n)
        np.random.shuffle(a)
        self.np.shuffle(b)
        return a.tolist(), b.tolist()

    def follow(self):
        """After a call that may use the process-wide streams."""
        self.np.set_state(np.random.get_state())
        self.py.setstate(random.getstate())

    def moved(self):
        a, b = np.random.get_state(), self.np.get_state()
        if a[0] != b[0] or a[2:] != b[2:] or (a[1] != b[1]).any():
            return "numpy.random"
        if random.getstate() != self.py.getstate():
            return "random"


def execute(plan, st):
    want, loose = {}, {}
    for t in plan["tasks"]:
        for x in t:
            k = repr(x["call"])
            if k not in want:
                want[k] = Z.ask(("call", x["call"]))
                loose[k] = x["call"]["op"] == "rid" and is_random(x["call"])
    if any(loose.values()):
        # calls that use the streams on purpose: only in a sequence of their own
        plan = dict(plan, tasks=[t for t in plan["tasks"]][:1], acts=[], switches=[])
    sched = Sched(switches=plan["switches"], st=st)
    got, spots, bad = {}, [], []
    built = []
    for t in plan["tasks"]:
        row = []
        for x in t:
            j = build(x["call"])
            n = Z.ask(("count", x["call"])) if x["sw"] else 1
            row.append((x, j, {1 + int(f * n): k for f, k in x["sw"]}))
        built.append(row)
    model = Model(plan["start"])
    ent = Entropy(plan["entropy"])

    def caller(i):
        def go():
            for k, (x, j, at) in enumerate(built[i]):
                s = Steps(sched, at, lambda where: spots.append((i, where)))

                def traced(*a, **kw):
                    sys.settrace(s.call)
                    try:
                        r = j.fn(*a, **kw)
                        return list(r) if hasattr(r, "gi_frame") else r
                    finally:
                        sys.settrace(None)
                try:
                    got[i, k] = W.plain_outcome(traced if at else j.fn, j.args, j.kwargs)
                except Unsupported as e:
                    got[i, k] = ("unsupported", str(e))
                if loose[repr(x["call"])]:
                    model.follow()
                m = model.moved()
                if m and not bad:
                    bad.append(("stream-used", "after %s: %s is not where its own users left it" % (short(x["call"]), m)))
                sched.point("call done")
        return go

    def actor(i):
        def go():
            for kind, n, seed in plan["acts"][i]:
                r = model.act(kind, n, seed)
                st.op("draw" if r else "seed")
                if r and r[0] != r[1] and not bad:
                    bad.append(("draw-differs", "%s gave %s instead of %s; switched at %s" % (kind, r[0], r[1], spots[-4:])))
                sched.point("drawn")
                sched.switch(0)
        return go

    for i in range(len(built)):
        sched.spawn(caller(i), "caller %d" % i)
    for i in range(len(plan["acts"])):
        sched.spawn(actor(i), "user of the streams %d" % i)
    with ent:
        sched.run()
    for t in sched.tasks:
        if t.exc is not None:
            raise t.exc
    st.fault("preemptions", len(spots))
    st.fault("unseeded-generators", ent.drawn)
    st.state(tuple(repr(x["call"]) for t in plan["tasks"] for x in t), tuple(spots), repr(plan["acts"]))
    for i, row in enumerate(built):
        for k, (x, j, at) in enumerate(row):
            g = got.get((i, k))
            if g is None or g[0] == "unsupported":
                raise Unsupported(g and g[1])
            st.op("calls")
            c = x["call"]
            st.log("got", i, k, g[0])
            if loose[repr(c)]:
                continue
            st.probe("seeded-calls" if c["op"] != "rid" or c["extra"] else "calls-without-randomness")
            if c["op"] == "reorder" and g[0] == "exc" and not c["cli"]:
                raise Violation("seeded-call-fails", "%s: %s" % (short(c), g[1]))
            d = W.diff(want[repr(c)], g)
            if d:
                raise Violation("not-reproducible", "thread %d: %s: %s; switched at %s, draws %s" % (i, short(c), d, spots[:5], plan["acts"]))
            if c["op"] == "reorder" and g[0] == "exc":
                st.probe("command-rejected")
    if bad:
        raise Violation(*bad[0])


def count(c):
    j = build(c)
    s = Steps(None, {}, None)
    sys.settrace(s.call)
    try:
        with Entropy(5):
            W.plain_outcome(j.fn, j.args, j.kwargs)
    finally:
        sys.settrace(None)
    return max(1, s.n)


def short(c):
    return "%s %s" % (c.get("rid") or ("generate-realizations" if c["cli"] else "EnsembleReordering"), {k: v for k, v in c.items() if k not in ("op", "rid", "cli")})
