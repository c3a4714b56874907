"""C06: input data that are read only when needed, or fail to be read, never change a result."""
import random

import numpy as np

from .. import workload as W
from ..core import Unsupported, Violation, unsupported

RUNS = {"quick": 1200, "thorough": 100000}
BATCH = 30
TECHNIQUE = "plugin and function calls whose input data are deferred (seeded subset and chunking) behind simulated readers that count reads and fail at seeded ones, compared with the same calls on data in memory"
RULE = ("Each run takes 1-3 calls of plugins or functions (also calls that are rejected), defers the data of a seeded subset of their input cubes in seeded chunks, compares with data in memory, then makes 1-4 seeded reads fail (I/O error, memory, "
        "library error), each time repeating the call with working reads on the same or a new instance.")
STATE_MEASURE = "hash of (call, cubes deferred, chunking, read that failed)"
REAL = ["all improver plugins and functions that run without the missing optional packages", "dask"]
STUB = ["iris/cartopy (stand-in)", "readers of deferred data", "dask scheduling (one thread)"]
EXC = {"OSError": OSError, "MemoryError": MemoryError, "RuntimeError": RuntimeError}


def prepare():
    import dask

    dask.config.set(scheduler="single-threaded")
    W.load_all()


def generate(rng, idx, tier):
    good = rng.random() < 0.7
    calls = []
    for n in range(rng.choice([1, 2, 3])):
        if n == 0 and rng.random() < 0.85:
            g = W.grouped(True)
            kind, path = W.turn(idx, "PFPPFPPF")
        else:
            g = W.grouped(good)
            kind = rng.choice([k for k in "PPPF" if g[k]])
            path = rng.choice(sorted(g[kind]))
        calls.append({"rid": rng.choice(g[kind][path]), "which": rng.choice(["all", "all", "some", "some", "first", "last"]), "seed": rng.randrange(1000),
                      "chunks": rng.choice(["whole", "whole", "lead", "lead", "split"]), "init": rng.random() < 0.5, "coords": rng.random() < 0.3, "same": rng.random() < 0.7, "vary": rng.choice([None, None, ["nan", rng.randrange(9)], ["mask", rng.randrange(9)], ["flip", 0], ["roll", 1]]),
                      "fails": [[rng.random(), rng.choice(sorted(EXC))] for _ in range(rng.choice([0, 1, 2, 3, 4]))]})
    return {"calls": calls}


def shrink(p):
    c = p["calls"]
    for i in range(len(c)):
        if len(c) > 1:
            yield {"calls": c[:i] + c[i + 1:]}
        for j in range(len(c[i]["fails"])):
            yield {"calls": c[:i] + [dict(c[i], fails=c[i]["fails"][:j] + c[i]["fails"][j + 1:])] + c[i + 1:]}
        for k, v in (("which", "all"), ("which", "first"), ("chunks", "whole"), ("init", False), ("coords", False), ("vary", None), ("same", False)):
            if c[i][k] != v and not (k == "which" and c[i][k] == "first"):
                yield {"calls": c[:i] + [dict(c[i], **{k: v})] + c[i + 1:]}


class Source:
    """Counts the reads of one call's deferred data; one of them may fail."""

    def __init__(self, at=None, exc=None):
        self.n, self.at, self.exc, self.fired = 0, at, exc, False

    def read(self):
        self.n += 1
        if self.n == self.at:
            self.fired = True
            raise EXC[self.exc]("injected read failure")


class Reader:
    def __init__(self, src, data):
        self.src, self.real = src, data
        self.shape, self.dtype, self.ndim = data.shape, data.dtype, data.ndim

    def __getitem__(self, keys):
        self.src.read()
        return self.real[keys].copy()


_count = [0]


def deferred(data, src, how, rng):
    import dask.array as da

    if how == "whole" or not data.ndim:
        chunks = data.shape
    elif how == "lead":
        chunks = tuple(1 if i < data.ndim - 2 else n for i, n in enumerate(data.shape))
    else:
        chunks = tuple(max(1, rng.randrange(1, n + 1)) if n else 0 for n in data.shape)
    _count[0] += 1
    meta = np.ma.array(np.empty((0,) * data.ndim, data.dtype)) if np.ma.isMaskedArray(data) else np.empty((0,) * data.ndim, data.dtype)
    return da.from_array(Reader(src, data), chunks=chunks, name="deferred-%d" % _count[0], asarray=False, meta=meta)


def fresh(call):
    """The call with its (varied) inputs in memory."""
    v = call.get("vary")
    if not v or v[0] not in ("nan", "mask"):
        return W.build(call["rid"], v)
    c = W.build(call["rid"])
    cs = [x for x in W.cubes_in((c.args, c.kwargs)) if x.data.dtype.kind == "f" and x.ndim]
    if cs:
        r = np.random.RandomState(v[1])
        x = cs[v[1] % len(cs)]
        hit = r.rand(*x.shape) < 0.2
        d = x.data.copy()
        if v[0] == "nan":
            d[hit] = np.nan
        else:
            d = np.ma.masked_array(np.ma.getdata(d), mask=np.ma.getmaskarray(d) | hit)
        x.data = d
    return c


def load(call, src):
    """The call with part of its inputs deferred -> (call, number deferred)."""
    c = fresh(call)
    rng = random.Random(call["seed"])
    cs = W.cubes_in((c.args, c.kwargs))
    if call["init"] and c.rec.kind == "P":
        cs = cs + W.cubes_in(c.init)
    if call["which"] == "some":
        cs = [x for x in cs if rng.random() < 0.5] or cs
    elif call["which"] == "first":
        cs = cs[:1]
    elif call["which"] == "last":
        cs = cs[-1:]
    n = 0
    for x in cs:
        if not x.has_lazy_data() and x.data.dtype.kind in "fiub":
            x.data = deferred(x.data, src, call["chunks"], rng)
            n += 1
        if call.get("coords"):
            for co in x.coords(dim_coords=False):
                if co.shape != (1,) and not co.has_lazy_points() and co.points.dtype.kind in "fiu":
                    # bounds first: setting points may reshape nothing but must not read
                    if co.has_bounds():
                        co.bounds = deferred(co.bounds, src, "whole", rng)
                    co.points = deferred(co.points, src, "whole", rng)
    return c, n


def run(c, fn=None):
    """-> (outcome, instance)"""
    try:
        fn = fn or c.target()
    except Unsupported as e:
        if "cannot be built" in str(e):
            return ("exc", "at construction"), None
        raise
    return W.outcome(fn, c.args, c.kwargs), fn


def execute(plan, st):
    for call in plan["calls"]:
        one(call, st)


def one(call, st):
    rid = call["rid"]
    probe, n = load(call, Source())
    if not n:
        st.probe("nothing-to-defer")
        return
    want, _ = run(fresh(call))
    src = Source()
    c, n = load(call, src)
    src.n = 0
    got, fn = run(c)
    reads = src.n
    desc = rid + (" (%s)" % (call["vary"],) if call.get("vary") else "")
    desc += " with %s input cubes deferred (%d, %s)" % (call["which"], n, call["chunks"])
    compare(want, got, desc, call)
    st.op("deferred-calls")
    st.probe("reads", reads)
    st.state(rid, call["which"], call["chunks"])
    for at, exc in call["fails"]:
        if not reads:
            break
        k = 1 + int(at * reads)
        src = Source(None, exc)
        c, _ = load(call, src)
        src.n, src.at = 0, k
        got, fn1 = run(c, fn if call["same"] and not call["init"] else None)
        if not src.fired:
            st.probe("read-not-reached")
            continue
        st.fault("%s-at-read" % exc)
        st.state(rid, call["which"], call["chunks"], k)
        what = "%s, %s at read %d of %d" % (desc, exc, k, reads)
        if got[0] == "ok" and got[1][0] == "unreadable":
            st.probe("raised-on-use")
        elif got[0] == "ok":
            st.probe("absorbed")
            d = difference(want, got)
            if d:
                raise Violation("failure-hidden", "%s: the call returned normally with %s" % (what, d))
        c, _ = load(call, Source())
        got, fn2 = run(c, fn1 if call["same"] and not call["init"] else None)
        compare(want, got, what + ", repeated", call)
        st.op("repeats")


def difference(want, got):
    return W.diff(want, got, 2e-5, 1e-6)


def compare(want, got, desc, call):
    d = difference(want, got)
    if d:
        again, _ = run(fresh(call))
        if difference(want, again):
            raise Unsupported("%s does not repeat itself" % call["rid"])
        raise Violation("deferred-differs", "%s: %s" % (desc, d))
