"""S01: results depend on settings and inputs only, never on what was called before."""
import numpy as np

from .. import workload as W
from ..core import Violation, unsupported

RUNS = {"quick": 800, "thorough": 200000}
BATCH = 40
TECHNIQUE = "simulated call histories in one process, every call compared with a freshly forked process making only that call"
RULE = ("Each run is a history of 3-10 calls of plugins and functions (recorded from the repository's tests or generated), concentrated on one class: shared and new instances, "
        "varied data with equal metadata, varied coordinates, rejected calls, inputs and results modified in place between calls; the last and some of the other calls' outcomes are compared with those of a pristine process, repeats with each other.")
STATE_MEASURE = "hash of the ordered history (call, variation, instance sharing)"
REAL = ["all improver plugins and functions that run without the missing optional packages"]
STUB = ["iris/cartopy (stand-in)", "process restart (fork of a process that made no call)"]
Z = None


def prepare():
    global Z
    W.load_all()
    Z = W.Zygote(W.pristine)


def generate(rng, idx, tier):
    g = W.grouped(True)
    gb = W.grouped(False)
    kind, path = W.turn(idx, "PGPFPGPF")
    paths = sorted(g[kind])
    steps = []
    if kind == "G":  # cheap: many calls that differ in few options, all of them checked
        for i in range(rng.choice([8, 16, 24])):
            rid = rng.choice(g[kind][path if rng.random() < 0.85 else rng.choice(paths)])
            steps.append({"rid": rid, "vary": rng.choice([None] * 7 + [["flip", 1]]), "check": True, "inst": "new", "after": rng.choice([None] * 4 + ["result", "input", "again", "again-varied"])})
        return {"steps": steps}
    if kind == "P" and idx % 4:  # one instance for inputs that differ in one respect; every plugin call in its turn
        rids = [r for p in paths for r in g[kind][p]]
        steps = []
        for k in range(3):
            rid = rids[(3 * (idx // 4) + k) % len(rids)]
            vs = rng.sample([None] + [[k, 1] for k in W.VARY], rng.choice([2, 2, 3])) if rng.random() < 0.5 else [None, ["rename", 1]][:: rng.choice([1, -1])]
            steps += [{"rid": rid, "vary": v, "check": i > 0, "inst": "shared", "after": None} for i, v in enumerate(vs)]
        if rng.random() < 0.3:
            steps.append(dict(steps[0], check=True))
        return {"steps": steps}
    n = rng.choice([2, 3, 4, 6, 8, 12])
    for i in range(n):
        k = rng.random()
        if k < 0.62:
            rid = rng.choice(g[kind][path])
        elif k < 0.72 and path in gb[kind]:
            rid = rng.choice(gb[kind][path])
        elif k < 0.86:
            fam = [p for p in paths if p.rsplit(".", 1)[0] == path.rsplit(".", 1)[0]]
            rid = rng.choice(g[kind][rng.choice(fam)])
        else:
            rid = W.pick(rng)
        steps.append({"rid": rid, "vary": W.random_vary(rng), "check": i == n - 1 or rng.random() < 0.2, "inst": rng.choice(["shared", "shared", "new"]),
                      "after": rng.choice([None, None, "result", "input", "again", "again-varied"])})
    if not rng.randrange(3):
        steps[-1].update(rid=steps[0]["rid"], vary=steps[0]["vary"], inst=steps[0]["inst"])
    return {"steps": steps}


def shrink(p):
    s = p["steps"]
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(p, steps=s[:i] + s[i + 1:])
    for i, x in enumerate(s):
        for k, v in (("after", None), ("vary", None), ("inst", "new")):
            if x[k] != v:
                yield dict(p, steps=s[:i] + [dict(x, **{k: v})] + s[i + 1:])


def scribble(x):
    """What a user may do to objects that are theirs."""
    for c in W.cubes_in(x):
        try:
            d = c.data
            if d.dtype.kind in "fi" and d.flags.writeable and d.size:
                d[...] = d.dtype.type(-7777)
            c.attributes["title"] = "scribbled"
            for co in c.coords():
                co.attributes["scribble"] = "x"
        except Exception as e:
            if unsupported(e):
                return
    for a in W.arrays_in(x):
        if a.flags.writeable and a.dtype.kind in "fi" and a.size:
            a[...] = a.dtype.type(-7777)
    if isinstance(x, dict):
        for v in x.values():
            scribble(v) if isinstance(v, (dict, list)) else None
        x["scribble"] = 1
    elif isinstance(x, list) and not W.cubes_in(x):
        x.append("scribble")


def execute(plan, st):
    insts = {}
    for i, s in enumerate(plan["steps"]):
        rid, vary = s["rid"], s["vary"]
        rec = W.table().get(rid)
        if rec is None:
            continue
        want = Z.ask((rid, vary)) if s["check"] else None
        c = W.build(rid, vary)
        key = None
        if rec.kind == "P" and s["inst"] == "shared":
            key = (rec.path, repr(W.result(c.init)))
            if key not in insts:
                insts[key] = c.target()
            fn = insts[key]
        else:
            fn = c.target()
        st.op("call:%s" % rec.kind)
        got, raw = W.outcome(fn, c.args, c.kwargs, raw=True)
        st.log("call", rid, vary, got[0])
        if want is not None:
            compare(want, got, plan, i, rid, vary, "")
            st.probe("calls-compared")
        if s["after"] == "result" and got[0] == "ok":
            scribble(raw)
            st.probe("results-scribbled")
        elif s["after"] == "input":
            scribble(c.args)
            scribble(c.kwargs)
            st.probe("inputs-scribbled")
        elif s["after"] == "again":
            c2 = W.build(rid, vary)
            compare(got, W.outcome(fn, c2.args, c2.kwargs), plan, i, rid, vary, " (repeated on the same instance)")
            st.probe("repeats")
        elif s["after"] == "again-varied" and got[0] == "ok" and s["check"] and not any(hasattr(a, "__next__") for a in list(c.args) + list(c.kwargs.values())):
            # the same objects, their values changed by their owner, only where the call left them alone
            c0 = W.build(rid, vary)
            if canon_same(c0, c):
                v2 = ["flip", 1]
                W.apply_vary((c.args, c.kwargs), v2)
                c3 = W.build(rid, vary)
                W.apply_vary((c3.args, c3.kwargs), v2)
                if canon_same(c3, c):
                    want2 = Z.ask((rid, [vary, v2]))
                    compare(want2, W.outcome(fn, c.args, c.kwargs), plan, i, rid, [vary, v2], " (same input objects with changed values)")
                    st.probe("same-object-changed-values")
    st.state(tuple((s["rid"], str(s["vary"]), s["inst"], s["after"]) for s in plan["steps"]))


def canon_same(a, b):
    from .. import canon

    return canon.diff(W.result((a.args, a.kwargs)), W.result((b.args, b.kwargs))) is None


def compare(want, got, plan, i, rid, vary, extra):
    d = W.diff(want, got)
    if d:
        raise Violation("history-dependent", "call %d, %s varied %s%s: %s; earlier calls: %s" % (
            i, rid, vary, extra, d, [(s["rid"], s["vary"], s["inst"], s["after"]) for s in plan["steps"][:i]][-4:]))
