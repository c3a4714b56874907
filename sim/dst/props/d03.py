"""D03: results do not depend on the wall clock or the time zone."""
import calendar
import datetime as _dt
import os
import re
import time

import numpy as np

from .. import fx
from .. import workload as W
from ..core import Unsupported, Violation, unsupported, where

RUNS = {"quick": 560, "thorough": 200000}
BATCH = 35
TECHNIQUE = "simulated wall clock (any instant, jumps in both directions at any read) and time zones behind the clock seam, results compared with those under a standing UTC clock and stamps with the instants the clock showed"
RULE = ("Each run makes 1-4 calls of one class or function of the corpus, or generated time conversions and history stamps, each under its own time zone and clock: extreme instants, ends of days and years, daylight-saving changes, and a clock that jumps at seeded reads; "
        "results must equal those of a process with a standing clock in UTC, new history stamps must be the UTC time of an instant shown during the call, and conversions must agree with independent calendar arithmetic.")
STATE_MEASURE = "hash of (calls, zones, clocks)"
REAL = ["all improver plugins and functions that run without the missing optional packages", "datetime, cftime, cf_units, the C library's time zone rules"]
STUB = ["iris/cartopy (stand-in)", "wall clock (time.time and everything derived from it)", "local time zone (TZ)"]
ZONES = ["UTC0", "XXX-14", "YYY12", "NPT-5:45", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NST3:30NDT,M3.2.0,M11.1.0", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"]
INSTANTS = [0.0, 1.5, 951782399.0, 951868800.25, 1709164799.999, 1711846799.5, 1711846800.0, 1710054000.0, 1704067199.75, 1735689599.999999, 2147483646.5, 2147483648.0, 4102444800.0, 4107542399.0, 946684800.0, 1e9]
JUMPS = [-3600.0, 3600.0, -0.75, 0.75, 86400.0, -86400.0, 366 * 86400.0, -20 * 366 * 86400.0, 59.5, 0.0]
STAMP = r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)Z"
Z = None
CLOCK = None  # the clock of the call in progress
_real = {}


class Clock:
    def __init__(self, zone, start, jumps):
        self.zone, self.t, self.jumps, self.k, self.seen = zone, start, jumps, 0, []

    def read(self):
        if self.k and self.jumps:
            self.t = max(0.0, self.t + self.jumps[(self.k - 1) % len(self.jumps)])
        self.k += 1
        self.seen.append(self.t)
        return self.t

    def __enter__(self):
        global CLOCK
        os.environ["TZ"] = self.zone
        time.tzset()
        CLOCK = self
        return self

    def __exit__(self, *a):
        global CLOCK
        CLOCK = None
        os.environ["TZ"] = "UTC"
        time.tzset()


def install():
    """The seam: every way of asking for the present instant goes through the clock of the call."""
    if _real:
        return
    for n in ("time", "time_ns", "localtime", "gmtime", "strftime", "ctime", "asctime"):
        _real[n] = getattr(time, n)

    def now():
        return CLOCK.read() if CLOCK else _real["time"]()

    def arg(name):
        def f(t=None):
            return _real[name](now() if t is None else t)
        return f

    time.time = now
    time.time_ns = lambda: int(now() * 10 ** 9) if CLOCK else _real["time_ns"]()
    for n in ("localtime", "gmtime", "ctime"):
        setattr(time, n, arg(n))
    time.strftime = lambda f, t=None: _real["strftime"](f, time.localtime() if t is None else t)
    time.asctime = lambda t=None: _real["asctime"](time.localtime() if t is None else t)


STANDING = ["UTC0", 1.6e9, []]


def answer(q):
    c = build(q[0], q[1])
    with Clock(*STANDING):
        return W.outcome(c.target(), c.args, c.kwargs)


def build(rid, vary):
    return W.build(rid, vary)


def prepare():
    global Z
    install()
    W.load_all()
    Z = W.Zygote(answer)


def clock(rng):
    t = rng.choice(INSTANTS) if rng.random() < 0.7 else float(rng.randrange(0, 4 * 10 ** 9)) + rng.choice([0.0, 0.5])
    return [rng.choice(ZONES), t, [rng.choice(JUMPS) for _ in range(rng.choice([0, 0, 1, 2, 3]))]]


GENERATED = ("to_cycle", "from_cycle", "to_number", "to_iris", "from_iris", "history", "now", "nearest", "run_record")


def generate(rng, idx, tier):
    if idx % 5 == 4:
        return {"gen": [[rng.choice(GENERATED), rng.randrange(10 ** 6), clock(rng)] for _ in range(rng.choice([4, 8, 16]))]}
    kind, path = W.turn(idx - idx // 5, "PPFPF")
    g, b = W.grouped(True)[kind][path], W.grouped(False)[kind].get(path, [])
    return {"calls": [[rng.choice(g if not b or rng.random() < 0.85 else b), rng.choice([None, None, ["flip", 1]]), clock(rng)] for _ in range(rng.choice([1, 2, 3, 4]))]}


def shrink(p):
    k = "gen" if "gen" in p else "calls"
    for i in range(len(p[k])):
        if len(p[k]) > 1:
            yield {k: p[k][:i] + p[k][i + 1:]}
    for i, x in enumerate(p[k]):
        z, t, j = x[2]
        for c in ([STANDING[0], t, j], [z, STANDING[1], j], [z, t, []], [z, t, j[:-1]]):
            if c != x[2]:
                yield {k: p[k][:i] + [[x[0], x[1], c]] + p[k][i + 1:]}
        if k == "calls" and x[1]:
            yield {k: p[k][:i] + [[x[0], None, x[2]]] + p[k][i + 1:]}


def stamps(x):
    """Texts of all history attributes."""
    return [str(c.attributes["history"]) for c in W.cubes_in(x) if "history" in c.attributes]


def judge_stamps(new, old, seen, what, st):
    old = " ".join(old)
    for h in new:
        for m in re.finditer(r"\d{4}-\d\d-\d\dT[^\s;]*", h):
            text = m.group().rstrip(":")
            if text in old:
                continue
            st.probe("stamps")
            n = re.fullmatch(STAMP, text)
            if not n:
                raise Violation("stamp-form", "%s: history %r" % (what, h))
            t = calendar.timegm(tuple(int(v) for v in n.groups()))
            if t not in [int(np.floor(s)) for s in seen]:
                raise Violation("stamp-time", "%s: history %r, the clock showed %s" % (what, h, [utc(s) for s in seen]))


def utc(t):
    return (_dt.datetime(1970, 1, 1) + _dt.timedelta(seconds=t)).isoformat() + "Z"


def execute(plan, st):
    if "gen" in plan:
        for kind, seed, ck in plan["gen"]:
            conversions(kind, seed, ck, st)
        st.state(repr(plan))
        return
    insts = {}
    for i, (rid, vary, ck) in enumerate(plan["calls"]):
        rec = W.table()[rid]
        want = Z.ask((rid, vary))
        c = W.build(rid, vary)
        if "{now" in repr((c.args, c.kwargs, getattr(c, "init", ""))):
            raise Unsupported("asks for the present time")
        fn = c.target()
        if rec.kind == "P" and i:
            fn = insts.setdefault(repr(W.result(c.init)), fn)
        old = stamps((c.args, c.kwargs))
        with Clock(*ck) as k:
            got, raw = W.outcome(fn, c.args, c.kwargs, raw=True)
        st.op("call:" + rec.kind)
        st.fault("zone-" + ck[0].split(",")[0])
        st.fault("clock-jumps", max(0, min(len(k.seen) - 1, 10 ** 6)) if ck[2] else 0)
        st.probe("clock-reads", len(k.seen))
        st.sim_time += abs(k.t - ck[1])
        st.log("call", rid, vary, got[0], len(k.seen))
        what = "call %d, %s varied %s, zone %s, clock %s jumps %s" % (i, rid, vary, ck[0], utc(ck[1]), ck[2])
        d = W.diff(want, got)
        if d:
            raise Violation("clock-dependent", "%s: %s" % (what, d))
        judge_stamps(stamps((raw if got[0] == "ok" else None, c.args, c.kwargs)), old, k.seen, what, st)
    st.state(repr(plan))


# ------------------------------------------------------------------ time conversions and stamps, against calendar arithmetic
EPOCH = _dt.datetime(1970, 1, 1)


def an_instant(r):
    """Whole seconds; often hours near daylight-saving changes."""
    k = r.random()
    if k < 0.3:
        return r.choice([1711846800, 1710054000, 1729990800, 1730617200, 1696694400, 1712408400, 0, 951782400, 1709208000]) + 3600 * r.randrange(-3, 4)
    return r.randrange(0, 4 * 10 ** 9) // 60 * 60 if k < 0.8 else r.randrange(0, 4 * 10 ** 9)


def conversions(kind, seed, ck, st):
    import random

    r = random.Random(seed)
    t = an_instant(r)
    dt = EPOCH + _dt.timedelta(seconds=t)
    what = "%s of %s in zone %s" % (kind, dt.isoformat(), ck[0])
    st.op("conversion:" + kind)
    st.fault("zone-" + ck[0].split(",")[0])

    def same(got, want):
        st.log(kind, seed, got)
        if got != want:
            raise Violation("conversion", "%s: %s instead of %s" % (what, got, want))

    with Clock(*ck) as k:
        try:
            _convert(kind, r, t, dt, k, same, st, what)
        except Violation:
            raise
        except Exception as e:
            if unsupported(e) or W.signature_problem(e):
                raise Unsupported("%s: %s" % (what, e))
            raise Violation("conversion", "%s: %s: %s (%s)" % (what, type(e).__name__, e, where(e)))
        finally:
            st.probe("clock-reads", len(k.seen))
            if ck[2] and len(k.seen) > 1:
                st.fault("clock-jumps", len(k.seen) - 1)


def _convert(kind, r, t, dt, k, same, st, what):
    from improver.metadata import amend
    from improver.utilities import temporal as T

    if kind == "to_cycle":
        f = r.choice([None, "%Y%m%d", "%H:%M:%S %d %b %Y", "%Y-%jT%H"])
        want = dt.strftime(f or "%Y%m%dT%H%MZ")
        same(T.datetime_to_cycletime(dt) if f is None else T.datetime_to_cycletime(dt, cycletime_format=f), want)
    elif kind == "from_cycle":
        d = dt.replace(second=0)
        x = T.cycletime_to_datetime(d.strftime("%Y%m%dT%H%MZ"))
        same((x.year, x.month, x.day, x.hour, x.minute, x.second), d.timetuple()[:6])
    elif kind == "to_number":
        d = dt.replace(second=0)
        unit, per = r.choice([("hours since 1970-01-01 00:00:00", 3600), ("seconds since 1970-01-01 00:00:00", 1), ("minutes since 1970-01-01 00:00:00", 60)])
        x = T.cycletime_to_number(d.strftime("%Y%m%dT%H%MZ"), time_unit=unit)
        same(round(float(x) * per), (t // 60) * 60)
    elif kind == "to_iris":
        same(int(T.datetime_to_iris_time(dt)), t)
    elif kind == "from_iris":
        n = r.choice([1, 2, 3])
        c = fx.dim("time", [t + 3600 * i for i in range(n)])
        if r.random() < 0.5:
            c.convert_units(r.choice(["hours since 1970-01-01 00:00:00", "minutes since 1970-01-01 00:00:00"]))
        x = T.iris_time_to_datetime(c)
        same([(v.year, v.month, v.day, v.hour, v.minute, v.second) for v in x], [(dt + _dt.timedelta(hours=i)).timetuple()[:6] for i in range(n)])
    elif kind == "history":
        c = fx.cube(np.zeros((2, 2), np.float32))
        old = r.choice([None, "2019-01-01T00:00:00Z: Before", "text"])
        if old:
            c.attributes["history"] = old
        n = r.choice([1, 2, 3])
        app = r.random() < 0.6
        for i in range(n):
            amend.set_history_attribute(c, "Step %d" % i, append=True if (app or i) else False)
        h = c.attributes["history"]
        judge_stamps([h], [old or ""], k.seen, what, st)
        want = ([old] if old and app else []) + ["<stamp>: Step %d" % i for i in range(n)]
        got = re.sub(STAMP, "<stamp>", h[len(old):] if old and app else h)
        same((old if old and app else "") + got, "; ".join(want))
    elif kind == "now":
        c = fx.cube(np.zeros((2, 2), np.float32))
        amend.amend_attributes(c, {"stamp": "Made at {now:%Y-%m-%dT%H:%M:%S}"})
        h = c.attributes["stamp"]
        shown = ["Made at " + (EPOCH + _dt.timedelta(seconds=calendar.timegm(_real["localtime"](s)))).strftime("%Y-%m-%dT%H:%M:%S") for s in k.seen]
        st.log("now", h)
        if h not in shown:
            raise Violation("stamp-time", "%s: %r, the clock showed %s" % (what, h, shown))
    elif kind == "nearest":
        n = r.choice([2, 3, 4])
        pts = [t + 3600 * i for i in range(n)]
        c = fx.cube(np.stack([np.full((2, 2), i, np.float32) for i in range(n)]), [fx.dim("time", pts)], frt=t)
        off = r.choice([0, 600, -600, 1200, 3599, 2000])
        i = r.randrange(n)
        ask = pts[i] + off
        near = min(range(n), key=lambda j: abs(pts[j] - ask))
        lim = 3600
        got = T.extract_nearest_time_point(c, EPOCH + _dt.timedelta(seconds=ask), allowed_dt_difference=lim)
        same(float(got.data.flat[0]), float(near))
    elif kind == "run_record":
        from improver.blending.utilities import store_record_run_as_coord

        c = fx.cube(np.zeros((2, 2), np.float32), time=t + 7200, frt=t - t % 60)
        c.attributes["mosg__model_configuration"] = "uk_ens"
        store_record_run_as_coord(__import__("iris").cube.CubeList([c]), "mosg__model_run", "mosg__model_configuration")
        (rc,) = [x for x in c.coords() if "uk_ens" in str(x.points[0])]
        same(str(rc.points[0]).split(":")[1], dt.strftime("%Y%m%dT%H%MZ"))
