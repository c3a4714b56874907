"""D05: parallel kernels give the serial answer under every schedule, and agree with the plain fallback."""
import random
import sys
import warnings

import numpy as np

from .. import fx, prange
from .. import workload as W
from ..core import Unsupported, Violation, unsupported

RUNS = {"quick": 900, "thorough": 200000}
BATCH = 30
TECHNIQUE = "simulated parallel loops: iterations dealt to simulated threads and interleaved statement by statement by a seeded scheduler, compared with the serial schedule and with the fallback used without the compiler library"
RULE = ("Each run interpolates generated rows (0-14 rows, 1-12 points, ties, points on nodes, unsorted requests, masked and missing rows) with the kernels directly or through percentile resampling and probability conversion, "
        "under 3-5 schedules (1-6 threads; block, shuffled or reversed order; other calls made between statements), and compares with the serial schedule and with the fallback.")
STATE_MEASURE = "hash of (call, schedule)"
REAL = ["improver.ensemble_copula_coupling.numba_utilities (source transformed so that loops can be suspended)", "improver.ensemble_copula_coupling.utilities", "ResamplePercentiles, ConvertProbabilitiesToPercentiles"]
STUB = ["numba (just-in-time compilation is the identity; parallel loops run on simulated threads)", "iris/cartopy (stand-in)"]
Z = None


def answer(q):
    sys.modules["numba"] = None  # not installed
    return call(q)


def prepare():
    global Z
    W.load_all()
    for op in ("same_x", "same_y", "resample", "convert"):
        call(generate_call(random.Random(0), op))
    Z = W.Zygote(answer)
    for n in [n for n in sys.modules if n == "improver" or n.startswith("improver.")]:
        del sys.modules[n]
    prange.install()
    W.load_all()
    call(generate_call(random.Random(0), "same_x"))
    call(generate_call(random.Random(0), "same_y"))


def table(r, n, m, ties):
    """n rows of m non-decreasing numbers in [0, 1]."""
    v = [[r.randrange(ties) / max(1, ties - 1) if ties else r.random() for _ in range(m)] for _ in range(n)]
    return np.array([sorted(x) for x in v], np.float64).reshape(n, m)


def generate_call(r, op=None):
    op = op or r.choice(["same_x", "same_y", "same_x", "same_y", "resample", "convert"])
    c = {"op": op, "n": r.choice([0, 1, 1, 2, 3, 5, 8, 14]), "m": r.choice([1, 2, 2, 3, 5, 12]), "k": r.choice([0, 1, 1, 2, 4, 9]), "ties": r.choice([None, None, 2, 3, 5]),
         "sorted": r.random() < 0.6, "on": r.choice([0.0, 0.3, 0.8]), "out": r.choice([0.0, 0.3]), "nanrow": r.random() < 0.1, "bad": r.random() < 0.05, "order": r.choice("CCF"), "seed": r.randrange(10 ** 6)}
    if op in ("resample", "convert"):
        c.update(n=r.choice([2, 3, 5]), m=r.choice([2, 3, 5, 9]), k=r.choice([1, 2, 3, 9]), mask=r.choice([None, None, 0.3]), rows=r.choice([2, 3]), rel=r.choice(["greater_than", "less_than"]))
    return c


def arrays(c):
    r = random.Random(c["seed"])
    n, m = c["n"], c["m"]
    tab = table(r, n, m, c["ties"])
    if c["op"] == "same_x":
        nodes = table(r, 1, m, c["ties"])[0]
        other = fx.field(r, (n, m), -20, 40, dtype=np.float64)
    else:
        nodes = tab
        other = np.array(sorted(r.uniform(-20, 40) for _ in range(m)))
    flat = nodes.ravel().tolist()
    x = []
    for _ in range(c["k"]):
        u = r.random()
        x.append(r.choice(flat) if flat and u < c["on"] else r.uniform(-0.5, 1.5) if r.random() < c["out"] else r.random())
    if c["sorted"]:
        x.sort()
    x = np.array(x, np.float64)
    if c["nanrow"] and n and c["op"] == "same_x":
        other[r.randrange(n)] = np.nan
    if c["bad"] and n:
        x_or = np.concatenate([nodes, nodes], axis=-1)
        nodes = x_or
    f = np.asfortranarray if c["order"] == "F" else np.ascontiguousarray
    return (x, nodes, f(other)) if c["op"] == "same_x" else (x, f(nodes), other)


def cube_call(c):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertProbabilitiesToPercentiles, ResamplePercentiles

    r = random.Random(c["seed"])
    n, m, k = c["rows"], c["m"], c["k"]
    if c["op"] == "resample":
        pts = sorted(r.sample(range(1, 100), m))
        d = np.sort(fx.field(r, (m, n, c["n"]), 270, 300, ties=c["ties"]), axis=0)
        cube = fx.cube(d, [fx.dim("percentile", pts)])
        pl = ResamplePercentiles(ecc_bounds_warning=True)
    else:
        th = [270 + 5 * i for i in range(m)]
        d = np.sort(fx.field(r, (m, n, c["n"]), 0, 1, ties=c["ties"]), axis=0)
        cube = fx.prob(d if c["rel"] == "less_than" else d[::-1].copy(), th, rel=c["rel"])
        pl = ConvertProbabilitiesToPercentiles(ecc_bounds_warning=True)
    if c["mask"]:
        cube.data = np.ma.masked_array(cube.data, np.broadcast_to(fx.mask_of(r, (n, c["n"]), c["mask"]), cube.shape).copy())
    return pl, cube, sorted(r.sample(range(1, 100) if r.random() < 0.5 else [10, 20, 25, 40, 50, 60, 75, 80, 90], k))


def call(c):
    """("ok", list of arrays) or ("raise", type); and whether the inputs were left alone."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                if c["op"] in ("same_x", "same_y"):
                    from improver.ensemble_copula_coupling import utilities as U

                    f = getattr(U, "interpolate_multiple_rows_" + c["op"])
                    args = arrays(c)
                    before = [a.tobytes() for a in args]
                    out = f(*args)
                    return "ok", np.array(out), str(out.dtype), before == [a.tobytes() for a in args]
                pl, cube, pc = cube_call(c)
                out = pl.process(cube, percentiles=pc).data
                return "ok", out, str(out.dtype), True
            except Exception as e:
                if isinstance(e.__context__, ImportError) and "numba" in str(e.__context__):
                    e.__context__ = None
                if unsupported(e):
                    raise Unsupported(str(e))
                return "raise", type(e).__name__, None, True


def generate(rng, idx, tier):
    S = [{"threads": rng.choice([1, 2, 3, 4, 6]), "seed": rng.randrange(10 ** 6), "order": rng.choice(["blocks", "blocks", "shuffled", "reversed"]),
          "other": generate_call(rng, rng.choice(["same_x", "same_y"])) if rng.random() < 0.35 else None} for _ in range(rng.choice([3, 4, 5]))]
    return {"call": generate_call(rng), "schedules": S}


def shrink(p):
    S = p["schedules"]
    for i in range(len(S)):
        if len(S) > 1:
            yield dict(p, schedules=S[:i] + S[i + 1:])
        for k, v in (("other", None), ("order", "blocks"), ("threads", 1), ("threads", 2)):
            if S[i][k] != v:
                yield dict(p, schedules=S[:i] + [dict(S[i], **{k: v})] + S[i + 1:])
    c = p["call"]
    for k, v in (("n", 1), ("n", 2), ("m", 1), ("m", 2), ("k", 1), ("nanrow", False), ("order", "C"), ("sorted", True), ("mask", None), ("bad", False)):
        if c.get(k, v) != v and not (c["op"] in ("resample", "convert") and k in "nm" and v == 1):
            yield dict(p, call=dict(c, **{k: v}))


def same(a, b, tol=0.0):
    if a[0] != b[0] or a[0] == "ok" and (a[1].shape != b[1].shape or a[2] != b[2]):
        return False
    if a[0] == "raise":
        return True
    ma, mb = np.ma.getmaskarray(a[1]), np.ma.getmaskarray(b[1])
    if not (ma == mb).all():
        return False
    x, y = np.ma.getdata(a[1]).astype(float)[~ma], np.ma.getdata(b[1]).astype(float)[~mb]
    return bool(np.all((np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol)))


def show(o):
    return "%s %s" % (o[0], np.array2string(np.asarray(o[1]), precision=5).replace("\n", "") if o[0] == "ok" else o[1])


def execute(plan, st):
    c = plan["call"]
    S = prange.Sched
    S.seed = S.on_pause = None
    want = Z.ask(c)
    serial = call(c)
    st.op(c["op"])
    st.log(c["op"], serial[0])
    if not same(want, serial, 1e-3 if want[0] == "ok" else 0):
        raise Violation("fallback-differs", "%s: without the compiler library %s, with it %s" % (c, show(want), show(serial)))
    if not serial[3]:
        raise Violation("inputs-changed", "%s: the kernel changed its arguments" % c)
    for s in plan["schedules"]:
        S.loops = S.steps = S.switches = 0
        S.seed, S.threads, S.order = s["seed"], s["threads"], s["order"]
        wrong = []
        if s["other"]:
            rng = random.Random(s["seed"])
            hold = [0]

            def pause():
                if hold[0] >= 3 or rng.random() > 0.2:
                    return
                hold[0] += 1
                keep = S.seed, S.on_pause, S.loops, S.steps, S.switches
                S.seed = S.on_pause = None
                try:
                    got = call(s["other"])
                finally:
                    S.seed, S.on_pause, S.loops, S.steps, S.switches = keep
                if not same(Z.ask(s["other"]), got, 1e-3):
                    wrong.append(got)
                st.fault("concurrent-call")

            S.on_pause = pause
        try:
            got = call(c)
        finally:
            S.seed = S.on_pause = None
        st.fault("thread-switches", S.switches)
        st.probe("parallel-loops", S.loops)
        st.state(repr((c, s)))
        st.log("schedule", s["seed"], S.loops, S.steps, S.switches)
        if not same(serial, got):
            raise Violation("schedule-dependent", "%s under schedule %s: %s instead of %s" % (c, s, show(got), show(serial)))
        if not got[3]:
            raise Violation("inputs-changed", "%s under schedule %s: the kernel changed its arguments" % (c, s))
        if wrong:
            raise Violation("concurrent-call", "%s made while %s ran: %s instead of %s" % (s["other"], c, show(wrong[0]), show(Z.ask(s["other"]))))
