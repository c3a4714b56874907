"""S02: a call interrupted at any line can be repeated with the normal result."""
from .. import workload as W
from ..core import Stats, Violation

RUNS = {"quick": 640, "thorough": 200000}
BATCH = 30
TECHNIQUE = "interruption (user interrupt, memory exhaustion, internal error) injected at a seeded line of a plugin call, then the call repeated and compared with a pristine process"
RULE = ("Each run interrupts 1-10 calls (plugins or functions) at a seeded executed line inside improver (by source line, first or last execution, or by step) with KeyboardInterrupt, MemoryError or RuntimeError, each time repeating the call on the "
        "same instance with fresh inputs, at the end on a new instance, and a related call; each is compared with what a freshly forked process gives.")
STATE_MEASURE = "hash of (call, source line interrupted, exception)"
REAL = ["all improver plugins and functions that run without the missing optional packages"]
STUB = ["iris/cartopy (stand-in)", "the interruption (raised by a line tracer)", "process restart (fork of a process that made no call)"]
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError}
Z = None


class Injected:
    pass


def answer(q):
    if q[0] == "lines":
        return W.pristine_lines(q[1])
    st = Stats()
    try:
        simulate(q[1], q[2], st)
    except Violation as v:
        return (v.kind, v.detail), summary(st)
    return None, summary(st)


def summary(st):
    return {"faults": st.faults, "ops": st.ops, "probes": st.probes, "states": sorted(st.states), "trace": st.trace}


def prepare():
    global Z
    W.load_all()
    Z = W.Zygote(answer)


def generate(rng, idx, tier):
    g = W.grouped(True)
    kind, path = W.turn(idx, "PFPPGPFP")
    paths = sorted(g[kind])
    rid = rng.choice(g[kind][path])
    ints = [{"rid": rid, "at": rng.random() if rng.random() < 0.9 else 0.9999, "occ": rng.choice(["state", "first", "last", "any"]), "exc": rng.choice(sorted(EXC))}
            for _ in range(rng.choice([2, 4, 6, 8]))]
    if rng.random() < 0.3:
        ints[0]["rid"] = rng.choice(g[kind][path])
    fam = [p for p in paths if p.rsplit(".", 1)[0] == path.rsplit(".", 1)[0]]
    if kind == "G":  # short calls: stops spread over the whole of the call
        ints += [dict(ints[0], rid=rid, occ="any", at=(i + rng.random()) / 12) for i in range(12)]
    if kind != "F" or rng.random() < 0.5:
        ints += [dict(ints[0], rid=rid, occ="state", at=(i + 0.5) / 8) for i in range(8)]
    return {"rid": rid, "pristine": rng.random() < 0.15, "ints": ints, "other": rng.choice(g[kind][rng.choice(fam)]) if rng.random() < 0.4 else None}


def shrink(p):
    if p["other"]:
        yield dict(p, other=None)
    if p["pristine"]:
        yield dict(p, pristine=False)
    for i in range(len(p["ints"])):
        if len(p["ints"]) > 1:
            yield dict(p, ints=p["ints"][:i] + p["ints"][i + 1:])


def execute(plan, st):
    base = {r: Z.ask(("lines", r)) for r in sorted({plan["rid"], plan["other"] or plan["rid"]} | {k["rid"] for k in plan["ints"]})}
    if plan["pristine"]:
        # a process that never made a call: tables that are filled on first use are still empty
        bad, s = Z.ask(("exec", plan, base))
        for k in ("faults", "ops", "probes"):
            getattr(st, k).update(s[k])
        st.states.update(s["states"])
        for t in s["trace"]:
            st.log(t)
        if bad:
            raise Violation(*bad)
    else:
        simulate(plan, base, st)


def simulate(plan, base, st):
    rid = plan["rid"]
    want = base[rid][0]
    c = W.build(rid)
    fn = c.target()
    key = W.result(getattr(c, "init", None))
    used = plan["pristine"]
    if not plan["pristine"]:
        W.outcome(fn, c.args, c.kwargs)
    for k in plan["ints"]:
        c1 = W.build(k["rid"])
        fn1 = fn if c1.rec.path == c.rec.path and W.canon.diff(W.result(getattr(c1, "init", None)), key) is None else c1.target()
        want1, cold, ncold, warm, nwarm, unsteady = base[k["rid"]]
        spots, lines = (cold, ncold) if used else (warm, nwarm)
        used = False
        if k["occ"] == "state" and not unsteady and k["at"] * 8 % 1 == 0.5:
            continue  # no transient state to sweep
        exc = EXC[k["exc"]]("injected")
        t = W.Interrupter(W.step_at(spots, lines, k["at"], k["occ"], unsteady if spots is warm else ()), exc)
        got = err = None
        try:
            with t:
                got = W.outcome(fn1, c1.args, c1.kwargs)
        except (KeyboardInterrupt, SystemExit) as e:
            err = e
        if not t.fired:
            st.probe("point-not-reached")
            continue
        st.fault("%s-at-line" % k["exc"])
        st.log("interrupt", k["rid"], t.where, k["exc"])
        st.state(k["rid"], t.where, k["exc"])
        if err is None and got[0] == "ok":
            st.probe("interruption-absorbed")
            d = W.diff(want1, got)
            if d:
                raise Violation("interruption-hidden", "%s interrupted at %s by %s: the call returned normally with %s" % (k["rid"], t.where, k["exc"], d))
        c2 = W.build(rid)
        check(want, W.outcome(fn, c2.args, c2.kwargs), "%s repeated on the same instance" % rid, "after %s of %s at %s" % (k["exc"], k["rid"], t.where))
        st.op("repeats")
    what = "after %d interruptions of %s" % (len(plan["ints"]), rid)
    c3 = W.build(rid)
    check(want, W.outcome(c3.target(), c3.args, c3.kwargs), "%s on a new instance" % rid, what)
    st.op("repeats")
    if plan["other"]:
        c4 = W.build(plan["other"])
        check(base[plan["other"]][0], W.outcome(c4.target(), c4.args, c4.kwargs), plan["other"], what)
        st.op("related-calls")


def check(want, got, what, when):
    d = W.diff(want, got)
    if d:
        raise Violation("not-repeatable", "%s %s: %s" % (what, when, d))
