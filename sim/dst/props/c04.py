"""C04: nested command lines against a model that runs the commands one by one."""
import builtins
import copy
import io
import json
import os
import pathlib
import random
import shutil
import sys
import time as _time

import numpy as np

from .. import canon, simlib
from ..core import Violation, unsupported, where
from ..disk import Disk
from ..sched import Patcher, Sched, SimThread, patch_threading

RUNS = {"quick": 900, "thorough": 60000}
BATCH = 20
TECHNIQUE = "histories of nested command lines with failing commands, disk faults, clock jumps and reporting threads, refined against a one-by-one model"
RULE = ("Each run is a history of 1-5 command lines in one process: random command trees with options, files, objects and intermediate outputs; "
        "commands failing at chosen nodes, disk errors while reading or writing, dry runs, mismatched brackets, unknown commands and options, "
        "reporting modes, jumping clocks; some lines are repeated step by step through files.")
STATE_MEASURE = "hash of (shape of the command tree, failing node, mode)"
REAL = ["improver.cli (main, execute_command, unbracket, converters, with_output)", "clize", "improver.utilities.load and save", "improver.memprofile, improver.profile"]
STUB = ["the commands themselves (synthetic, recording what they receive)", "iris (stand-in)", "clock, threads of the memory monitor, disk faults"]
EXC = {"ValueError": ValueError, "OSError": OSError, "KeyError": KeyError, "RuntimeError": RuntimeError, "MemoryError": MemoryError,
       "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration, "TypeError": TypeError, "AttributeError": AttributeError,
       "SystemExit": SystemExit}
ODD = ["a b", "[x", "x]", "it's", "\u00fcn\u00ef", "{", "$HOME", "a,b", "None", "0", "[ ]", "x" * 60]


def prepare():
    simlib.load_cli()
    import improver.memprofile  # noqa: F401
    import improver.profile  # noqa: F401
    import improver.synthetic_data.set_up_test_cubes  # noqa: F401
    import improver.utilities.load  # noqa: F401
    import improver.utilities.save  # noqa: F401


# ------------------------------------------------------------------ plans
def gen_node(rng, depth, ctx, want="cube"):
    ctx["n"] += 1
    tag = "t%d" % ctx["n"]
    if rng.random() < 0.12:
        tag = tag + rng.choice(ODD)
    node = {"tag": tag, "opts": {}, "args": []}
    leaf = depth <= 0 or ctx["n"] >= ctx["max"]
    if want == "list":
        node["cmd"] = "list"
        node["args"] = [gen_arg(rng, depth - 1, ctx) for _ in range(rng.choice([1, 2, 2, 3]))]
    elif want == "dict":
        node["cmd"] = "conf"
        node["opts"]["value"] = rng.randrange(2, 9)
    elif leaf:
        node["cmd"] = "make"
        node["opts"]["value"] = float(rng.randrange(0, 400)) / 8
    else:
        node["cmd"] = rng.choice(["join", "join", "join", "eager", "pick", "apply", "apply", "when", "none", "make"])
        if node["cmd"] == "join":
            node["args"] = [gen_arg(rng, depth - 1, ctx) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
            if rng.random() < 0.5:
                node["opts"]["scale"] = rng.choice([0.5, 2.0, 3.0])
        elif node["cmd"] == "eager":
            node["args"] = [gen_arg(rng, depth - 1, ctx) for _ in range(rng.choice([1, 2]))]
        elif node["cmd"] == "pick":
            node["args"] = [gen_arg(rng, depth - 1, ctx, "list")]
            node["opts"]["index"] = rng.randrange(3)
        elif node["cmd"] == "apply":
            node["args"] = [gen_arg(rng, depth - 1, ctx)]
            if rng.random() < 0.6:
                node["opts"]["config"] = gen_arg(rng, depth - 1, ctx, "dict")
            if rng.random() < 0.4:
                node["opts"]["names"] = rng.choice(["a", "a,b", "x,,y"])
            if rng.random() < 0.4:
                node["opts"]["weights"] = rng.choice(["1", "0.5,2", "1,2,3.25"])
            if rng.random() < 0.4:
                node["opts"]["flag"] = True
        elif node["cmd"] == "when":
            node["args"] = [gen_arg(rng, depth - 1, ctx)]
            node["opts"]["when"] = rng.choice(["20240102T0600Z", "20231231T2315Z"])
        elif node["cmd"] == "none":
            node["args"] = [gen_arg(rng, depth - 1, ctx)]
        else:
            node["opts"]["value"] = 1.5
    if node["cmd"] not in ("conf",) and rng.random() < 0.22:
        node["output"] = rng.choice(["", "pass", "pass"])
        if rng.random() < 0.3:
            node["complevel"] = rng.choice([0, 3, 9])
    if node["cmd"] in ("join", "apply", "make") and rng.random() < 0.3:
        node["first"] = True  # options before the inputs
    return node


def gen_arg(rng, depth, ctx, want="cube"):
    r = rng.random()
    if r < 0.15:
        return {"file": rng.randrange(2), "kind": want, "as": rng.choice(["str", "str", "path"])}
    if r < 0.22 and want != "list":
        return {"object": rng.randrange(2), "kind": want}
    return gen_node(rng, depth, ctx, want)


def walk(node):
    for a in list(node["args"]) + [v for v in node["opts"].values() if isinstance(v, dict)]:
        if "cmd" in a:
            yield from walk(a)
    yield node


def generate(rng, idx, tier):
    lines = []
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        if lines and rng.random() < 0.25:
            lines.append(copy.deepcopy(rng.choice(lines)))
            ln = lines[-1]
            if rng.random() < 0.5:
                ln["fail"], ln["bad"], ln["brackets"], ln["faults"] = None, None, None, {}
            continue
        ctx = {"n": 0, "max": rng.choice([1, 3, 6, 9])}
        ln = {"tree": gen_node(rng, rng.choice([0, 1, 2, 3, 4]), ctx), "fail": None, "bad": None, "brackets": None, "faults": {}}
        nodes = [n["tag"] for n in walk(ln["tree"])]
        r = rng.random()
        if r < 0.25:
            ln["fail"] = [rng.choice(nodes), rng.choice(sorted(EXC))]
        elif r < 0.35:
            ln["bad"] = [rng.choice(nodes), rng.choice(["option", "command", "required", "value"])]
        elif r < 0.42:
            ln["brackets"] = [rng.choice(["drop", "add"]), rng.randrange(1000), rng.choice(["[", "]"])]
        elif r < 0.6:
            for _ in range(rng.choice([1, 1, 2])):
                ln["faults"][str(rng.randrange(1, 40))] = ["error", rng.choice(["ENOSPC", "EIO", "EACCES"])]
        ln["dry"] = rng.random() < 0.12
        ln["verbose"] = rng.random() < 0.3
        ln["mem"] = rng.random() < 0.15
        ln["prof"] = rng.random() < 0.1
        ln["via"] = rng.choice(["main.cli", "main.cli", "main", "run_main", "nested"])
        ln["steps"] = rng.random() < 0.25
        ln["switches"] = sorted([rng.randrange(1, 60), rng.randrange(3)] for _ in range(rng.choice([0, 2, 5])))
        lines.append(ln)
    return {"lines": lines, "clock": [rng.choice([0.0, 0.1, -5.0, 1e5, -1e9]) for _ in range(6)]}


def shrink(p):
    L = p["lines"]
    for i in range(len(L)):
        if len(L) > 1:
            yield dict(p, lines=L[:i] + L[i + 1:])
    for i, ln in enumerate(L):
        def put(x):
            return dict(p, lines=L[:i] + [x] + L[i + 1:])
        for k, v in (("verbose", False), ("mem", False), ("prof", False), ("steps", False), ("dry", False), ("faults", {}), ("via", "main.cli"), ("fail", None), ("bad", None)):
            if ln[k] != v:
                yield put(dict(ln, **{k: v}))
        for t in smaller(ln["tree"]):
            yield put(dict(ln, tree=t))


def smaller(node):
    for a in node["args"]:
        if "cmd" in a:
            yield a
    for i, a in enumerate(node["args"]):
        if len(node["args"]) > 1:
            yield dict(node, args=node["args"][:i] + node["args"][i + 1:])
        if "cmd" in a:
            for x in smaller(a):
                if (x["cmd"] == "list") == (a["cmd"] == "list"):
                    yield dict(node, args=node["args"][:i] + [x] + node["args"][i + 1:])
    for k in list(node["opts"]):
        if k not in ("value", "when"):
            yield dict(node, opts={a: b for a, b in node["opts"].items() if a != k})
    for k in ("output", "complevel", "first"):
        if k in node:
            yield {a: b for a, b in node.items() if a != k}


# ------------------------------------------------------------------ model
class MFail(Exception):
    def __init__(self, tag, kind, exc=None):
        self.tag, self.kind, self.exc = tag, kind, exc


class MVal:
    def __init__(self, kind, show, data=None, ident=None):
        self.kind, self.show, self.data, self.ident = kind, show, data, ident


NONE = MVal("none", "None")
F = np.float32


class Model:
    def __init__(self, w, ln):
        self.w, self.ln, self.log, self.outputs, self.received = w, ln, [], {}, {}

    def arg(self, a):
        if "cmd" in a:
            return self.node(a)
        k = ("file" if "file" in a else "object", a.get("file", a.get("object")), a["kind"])
        return self.w["mvals"][k]

    def node(self, n):
        args, opts = [], {}
        order = [("a", i) for i in range(len(n["args"]))]
        nested = [("o", k) for k in OPTORDER if isinstance(n["opts"].get(k), dict)]
        for kind, i in (nested + order if n.get("first") else order + nested):
            if kind == "a":
                args.append(self.arg(n["args"][i]))
            else:
                opts[i] = self.arg(n["opts"][i])
        tag = n["tag"]
        bad = self.ln["bad"]
        if bad and bad[0] == tag:
            raise MFail(tag, "usage")
        o = n["opts"]
        cmd = n["cmd"]
        ins = list(args)
        shown = [a.show for a in args]
        if cmd == "eager":
            ins += [NONE] * (2 - len(ins))
            shown = [a.show for a in ins]
        elif cmd == "apply":
            names = o["names"].split(",") if "names" in o else None
            weights = [float(x) for x in o["weights"].split(",")] if "weights" in o else None
            conf = opts.get("config", NONE)
            shown = [args[0].show, conf.show, simlib.show(names), simlib.show(weights), str(bool(o.get("flag", False)))]
            ins = [args[0], conf]
        elif cmd == "when":
            import datetime as dt

            when = dt.datetime.strptime(o["when"], "%Y%m%dT%H%MZ")
            shown = [args[0].show, "some/where [x]", str(when)]
        elif cmd == "pick":
            shown = [args[0].show]
        self.log.append(("start", cmd, tag, tuple(shown)))
        self.received[tag] = ins
        f = self.ln["fail"]
        if f and f[0] == tag:
            raise MFail(tag, "command")
        if cmd == "make":
            v = float(o.get("value", 0.0))
            r = MVal("cube", "make(%s,2,%s)" % (tag, v), [(np.arange(4, dtype=F).reshape(2, 2) + F(v)).astype(F)])
        elif cmd == "conf":
            r = MVal("dict", "{made:%s,value:%d}" % (tag, o["value"]), o["value"])
        elif cmd == "none":
            r = MVal("none", "None")
        elif cmd == "list":
            kept = [a for a in args if a.kind != "none"]
            r = MVal("list", "[" + ",".join(a.show for a in kept) + "]", [a.data[0] for a in kept])
            r.items = kept
        else:
            scale = F(1)
            cubes = ins
            if cmd == "join":
                scale = F(o.get("scale", 1.0))
            elif cmd == "when":
                scale = F(2)
            elif cmd == "apply":
                scale = F((ins[1].data if ins[1].kind == "dict" else 1) + len(names or []) + sum(weights or []) + bool(o.get("flag")))
                cubes = [args[0]]
            elif cmd == "pick":
                if args[0].kind != "list" or not args[0].items:
                    raise MFail(tag, "inside")
                cubes = [args[0].items[o.get("index", 0) % len(args[0].items)]]
            tot = np.zeros((2, 2), F)
            for c in cubes:
                if c.kind != "none":
                    tot = (tot + c.data[0]).astype(F)
            if cmd == "apply":
                show = "apply(%s;%s)" % (tag, ",".join(shown))
            else:
                show = "%s(%s;%s)" % (cmd, tag, ",".join(c.show for c in cubes))
            r = MVal("cube", show, [(tot * scale).astype(F)])
        self.log.append(("end", cmd, tag, r.show))
        r.ident = tag
        if "output" in n and cmd != "conf" and not (r.kind == "none" or (r.kind == "list" and not r.items)):
            self.outputs[tag] = r
            self.last_output = tag
            if n["output"] != "pass":
                return NONE
        return r


OPTORDER = ("config",)


# ------------------------------------------------------------------ building lines
def out_name(w, tag):
    return os.path.join(w["root"], "out-%s.nc" % "".join(c if c.isalnum() else "_" for c in tag)[:30])


def to_arg(w, a):
    if "cmd" in a:
        return None
    kind = a["kind"]
    if "file" in a:
        p = w["files"]["file", a["file"], kind]
        return pathlib.Path(p) if a.get("as") == "path" else p
    return w["objects"]["object", a["object"], kind]


def build(w, ln, n):
    """Nested list for the node; objects and Paths kept as they are."""
    pos = []
    for a in n["args"]:
        pos.append(build(w, ln, a) if "cmd" in a else to_arg(w, a))
    if n["cmd"] == "when":
        pos.append("some/where [x]")
    opts = ["--tag=" + n["tag"]]
    bad = ln["bad"] if ln["bad"] and ln["bad"][0] == n["tag"] else None
    if bad and bad[1] == "required":
        opts = []
    for k, v in n["opts"].items():
        if isinstance(v, dict):
            opts += ["--" + k, build(w, ln, v) if "cmd" in v else to_arg(w, v)]
        elif v is True:
            opts.append("--" + k)
        else:
            opts.append("--%s=%s" % (k, v))
    if "output" in n and n["cmd"] != "conf":
        opts += ["--output", out_name(w, n["tag"])]
        if n["output"] == "pass":
            opts.append("--pass-through-output")
        if "complevel" in n:
            opts.append("--compression-level=%d" % n["complevel"])
    if bad and bad[1] == "option":
        opts.append("--no-such-option=1")
    if bad and bad[1] == "value":
        # a value its converter rejects
        opts.append({"make": "--n=two", "join": "--scale=big", "pick": "--index=first", "apply": "--weights=a,b", "conf": "--value=x",
                     "when": "--when=yesterday"}.get(n["cmd"], "--no-such-option"))
    name = "sim-" + n["cmd"]
    if bad and bad[1] == "command":
        name = "sim-unknown"
    return [name] + (opts + pos if n.get("first") else pos + opts)


def flatten(nested):
    out = []
    for x in nested:
        if isinstance(x, list):
            out += ["["] + flatten(x) + ["]"]
        else:
            out.append(str(x) if isinstance(x, pathlib.PurePath) else x)
    return out


def balanced(flat):
    d = 0
    for x in flat:
        if isinstance(x, str) and x == "[":
            d += 1
        elif isinstance(x, str) and x == "]":
            d -= 1
            if d < 0:
                return False
    return d == 0


# ------------------------------------------------------------------ execution
def execute(plan, st):
    cli = simlib.load_cli()
    random.seed(1)
    disk = Disk(st, prefix="dst-c04-")
    P = Patcher()
    hooks = []
    try:
        import atexit

        P.set(atexit, "register", lambda f, *a, **k: hooks.append((f, a, k)) or f)
        with disk:
            w = world(disk)
            for i, ln in enumerate(plan["lines"]):
                line(cli, w, disk, plan, ln, i, st, hooks)
    finally:
        P.undo()
        simlib.reset()
        sys.setprofile(None)


def world(disk):
    from improver.utilities.save import save_netcdf
    from iris.cube import CubeList

    w = {"root": disk.root, "files": {}, "objects": {}, "mvals": {}}
    with disk.pause():
        for i in range(2):
            for where_ in ("file", "object"):
                base = simlib.cube("%s%d" % (where_, i), "%s%d" % (where_, i), 2, 10.0 * i + (5 if where_ == "file" else 0))
                other = simlib.cube("%s%dx" % (where_, i), "%s%dx" % (where_, i), 2, 100.0 + i)
                base.rename("cube_0")
                other.rename("cube_1")
                mb = MVal("cube", base.attributes["prov"], [base.data.copy()])
                mo = MVal("cube", other.attributes["prov"], [other.data.copy()])
                ml = MVal("list", "[%s,%s]" % (mb.show, mo.show), [mb.data[0], mo.data[0]])
                ml.items = [mb, mo]
                md = MVal("dict", "{made:%s%d,value:%d}" % (where_, i, 4 + i), 4 + i)
                d = {"made": "%s%d" % (where_, i), "value": 4 + i}
                for kind, m, obj in (("cube", mb, base), ("list", ml, CubeList([base, other])), ("dict", md, d)):
                    w["mvals"][where_, i, kind] = m
                    if where_ == "object":
                        w["objects"][where_, i, kind] = obj
                    else:
                        p = os.path.join(disk.root, "in %d-%s.%s" % (i, kind, "json" if kind == "dict" else "nc"))
                        if kind == "dict":
                            with open(p, "w") as f:
                                json.dump(d, f)
                        else:
                            save_netcdf(obj, p)
                        w["files"][where_, i, kind] = p
    return w


class SimTM:
    """Simulated allocator tracing for the memory monitor."""

    def __init__(self):
        self.on = 0

    def start(self, n=1):
        self.on = 1

    def stop(self):
        self.on = 0

    def is_tracing(self):
        return bool(self.on)

    def take_snapshot(self):
        s = type("Snap", (), {})()
        s.dump = lambda fn: open(fn, "w").close()
        return s


def has_objects(n):
    return any("object" in a or ("cmd" in a and has_objects(a)) for a in list(n["args"]) + [v for v in n["opts"].values() if isinstance(v, dict)])


def line(cli, w, disk, plan, ln, i, st, hooks):
    # every line starts with a clean output directory and a clean record
    with disk.pause():
        before = set(os.listdir(w["root"]))
        for f in before:
            if f.startswith(("out-", "mem", "prof")):
                os.remove(os.path.join(w["root"], f))
    simlib.reset()
    who = "line %d" % i
    model = Model(w, ln)
    nested = build(w, ln, ln["tree"])
    via = ln["via"]
    if has_objects(ln["tree"]):
        via = "nested" if via == "run_main" or ln["brackets"] else via
    flat = flatten(nested)
    mismatched = False
    if ln["brackets"] and via != "nested":
        how, at, br = ln["brackets"]
        marks = [k for k, x in enumerate(flat) if isinstance(x, str) and x in "[]"]
        if how == "drop" and marks:
            del flat[marks[at % len(marks)]]
        else:
            flat.insert(1 + at % len(flat), br)
        mismatched = not balanced(flat)
        if not mismatched:
            return
    fail_exc = None
    if ln["fail"]:
        fail_exc = EXC[ln["fail"][1]]("failing " + ln["fail"][0])
        simlib.FAIL[ln["fail"][0]] = fail_exc
    if any(isinstance(x, str) and ("\x00" in x) for x in flat):
        return
    # expectation
    want = failure = None
    if not mismatched and not ln["dry"]:
        try:
            want = model.node(ln["tree"])
        except MFail as e:
            failure = e
    st.state(str([x if isinstance(x, str) and x in "[]" else "." for x in flat]), via, ln["dry"], bool(ln["mem"]), failure and (failure.tag, failure.kind))
    st.log("line", i, via, flat_text(w, flat))
    disk.step = 0
    disk.fired = []
    disk.ops = []
    disk.faults = {} if (mismatched or ln["dry"]) else {int(k): v for k, v in ln["faults"].items()}
    opts = {}
    if ln["verbose"]:
        opts["verbose"] = True
    if ln["dry"]:
        opts["dry_run"] = True
    mem = ln["mem"] and via != "nested"
    if mem:
        disk.faults = {}
        opts["memprofile"] = os.path.join(w["root"], "mem")
    prof = ln["prof"] and via != "nested" and not mem
    if prof:
        disk.faults = {}
        opts["profile"] = os.path.join(w["root"], "prof")
    del hooks[:]
    result = err = None
    so, se = sys.stdout, sys.stderr
    buf = io.StringIO()
    P = Patcher()
    t0 = [0.0, 0]

    def clock():
        t0[1] += 1
        t0[0] += plan["clock"][t0[1] % len(plan["clock"])]
        return t0[0]

    snapshot = repr_nested(nested)

    def go():
        flags = ["--" + k.replace("_", "-") + ("" if v is True else "=" + v) for k, v in opts.items()]
        if via == "main.cli":
            return cli.main.cli("improver", *flags, *flat)
        if via == "run_main":
            return cli.run_main(["improver"] + flags + flat)
        if via == "main":
            return cli.main("improver", *flat, **opts)
        return cli.command_executor("improver", *nested, **{k: v for k, v in opts.items() if k in ("verbose", "dry_run")})

    if via == "main.cli" and any(not isinstance(x, str) for x in flat):
        via = "main"
    if via == "nested":
        mem = prof = False
    tm = SimTM()
    st.op("line:" + via)
    sys.stdout = sys.stderr = buf
    try:
        if mem:
            import resource
            import tracemalloc

            from improver import memprofile

            patch_threading(P)
            for n in ("start", "stop", "is_tracing", "take_snapshot"):
                P.set(tracemalloc, n, getattr(tm, n))
            P.set(resource, "getrusage", lambda w_: type("ru", (), {"ru_maxrss": 1000 + t0[1]})())
            import queue as q
            import threading as th
            for nm, obj in (("Thread", th.Thread), ("Queue", q.Queue), ("getrusage", resource.getrusage)):
                if hasattr(memprofile, nm):
                    P.set(memprofile, nm, obj)
            sched = Sched(ln["switches"], max_steps=100000, st=st)
            t = sched.spawn(go, "command")
            sched.run()
            err, result = t.exc, t.result
            st.probe("memory-monitored-lines")
        else:
            P.set(_time, "perf_counter", clock)
            try:
                result = go()
            except BaseException as e:
                if isinstance(e, Violation):
                    raise
                err = e
    finally:
        sys.stdout, sys.stderr = so, se
        P.undo()
    if prof:
        st.probe("profiled-lines")
    for f, a, k in hooks:
        try:
            sys.stdout = sys.stderr = io.StringIO()
            f(*a, **k)
        except Exception:
            pass
        finally:
            sys.stdout, sys.stderr = so, se
    sys.setprofile(None)
    if err is not None and unsupported(err):
        raise err
    fired = list(disk.fired)
    disk.faults = {}
    if repr_nested(nested) != snapshot:
        raise Violation("arguments-changed", "%s: the caller's argument list was modified" % who)
    with disk.pause():
        present = sorted(f for f in os.listdir(w["root"]) if f.startswith("out-"))
        extra = sorted(f for f in set(os.listdir(w["root"])) - before if not f.startswith(("out-", "mem", "prof")))
    log = list(simlib.LOG)
    desc = "%s [%s%s] %s" % (who, via, "".join(" " + k for k in sorted(opts)), flat_text(w, flat)[:300])
    if mismatched:
        if err is None or not isinstance(err, Exception) and not (via == "run_main" and isinstance(err, SystemExit)):
            raise Violation("brackets-accepted", "%s: mismatched brackets gave %r" % (desc, err if err is not None else result))
        if log or present:
            raise Violation("brackets-executed", "%s: commands ran despite mismatched brackets: %s %s" % (desc, log[:3], present))
        return
    if ln["dry"]:
        if via != "run_main" and err is not None:
            raise Violation("dry-run-failed", "%s: %r" % (desc, err))
        touched = [o for o in disk.ops if not o[2].startswith(("mem", "prof"))]
        if log or present or extra or touched:
            raise Violation("dry-run-acted", "%s: a dry run executed %s, wrote %s, touched %s" % (desc, log[:3], present + extra, touched[:3]))
        return
    if extra:
        raise Violation("leftover", "%s: unexpected files %s" % (desc, extra))
    if fired:
        faulted(desc, w, ln, model, log, err, present, failure, fired, via)
        st.probe("disk-faulted-lines")
        return
    # order and inputs of the executions
    if log != model.log:
        k = next((j for j, (x, y) in enumerate(zip(log, model.log)) if x != y), min(len(log), len(model.log)))
        raise Violation("wrong-executions", "%s: event %d was %s, one-by-one execution gives %s (%s)" % (
            desc, k, log[k] if k < len(log) else "missing", model.log[k] if k < len(model.log) else "nothing", "%s: %s" % (type(err).__name__, err) if err else "no error"))
    for tag, ins in model.received.items():
        got = simlib.RECEIVED.get(tag, [])
        for j, m in enumerate(ins):
            if m.ident is None or j >= len(got) or m.kind == "none":
                continue
            if got[j] is not simlib.RETURNED[m.ident]:
                raise Violation("object-replaced", "%s: %s did not receive the object %s returned" % (desc, tag, m.ident))
    if failure is not None:
        st.probe("failing-lines")
        if err is None:
            raise Violation("failure-lost", "%s: %s failed (%s) but the line returned %r" % (desc, failure.tag, failure.kind, result))
        if failure.kind == "command" and not (err is fail_exc or (type(err) is type(fail_exc) and err.args == fail_exc.args)):
            raise Violation("failure-changed", "%s: command raised %r, line raised %s: %s" % (desc, fail_exc, type(err).__name__, err))
        if failure.kind == "usage" and not isinstance(err, (Exception, SystemExit)):
            raise Violation("failure-changed", "%s: usage error became %r" % (desc, err))
        if failure.kind == "usage" and isinstance(err, SystemExit) and err.code in (None, 0):
            raise Violation("failure-lost", "%s: usage error ended with exit status %r" % (desc, err.code))
    else:
        st.probe("good-lines")
        if via == "run_main":
            if not isinstance(err, SystemExit) or err.code not in (None, 0):
                raise Violation("line-failed", "%s: %s: %s" % (desc, type(err).__name__, err))
        elif err is not None:
            raise Violation("line-failed", "%s: %s: %s (%s)" % (desc, type(err).__name__, err, where(err)))
        else:
            got = getattr(result, "original_object", result)
            if want.ident is None:
                if got is not None:
                    raise Violation("wrong-result", "%s: result %r instead of nothing" % (desc, got))
            elif got is not simlib.RETURNED[want.ident]:
                raise Violation("wrong-result", "%s: result is not what %s returned: %r" % (desc, want.ident, got))
            elif want.kind == "cube":
                check_cube(desc, got, want)
    names = {os.path.basename(out_name(w, t)) for t in model.outputs}
    if set(present) != names:
        raise Violation("wrong-files", "%s: files %s, one-by-one execution writes %s" % (desc, present, sorted(names)))
    with disk.pause():
        check_outputs(desc, w, model)
        if ln["steps"] and failure is None and not has_objects(ln["tree"]):
            stepwise(desc, cli, w, disk, ln, model, want, result, via, st)


def flat_text(w, flat):
    return " ".join((x.replace(w["root"], "ROOT") if isinstance(x, str) else "<%s>" % type(x).__name__) for x in flat)


def repr_nested(x):
    if isinstance(x, list):
        return [repr_nested(v) for v in x]
    return (type(x).__name__, x if isinstance(x, str) else id(x))


def check_cube(desc, got, want, what="result"):
    if str(got.attributes.get("prov")) != want.show or not np.array_equal(np.asarray(got.data), want.data[0]):
        raise Violation("wrong-result", "%s: %s is %s %s instead of %s %s" % (
            desc, what, got.attributes.get("prov"), np.asarray(got.data).ravel()[:4], want.show, want.data[0].ravel()))


def check_outputs(desc, w, model, tags=None):
    from improver.utilities.load import load_cubelist

    for tag, m in model.outputs.items():
        if tags is not None and tag not in tags:
            continue
        cubes = sorted(load_cubelist(out_name(w, tag)), key=lambda c: c.name())
        items = m.items if m.kind == "list" else [m]
        if len(cubes) != len(items):
            raise Violation("wrong-output", "%s: output of %s holds %d cubes instead of %d" % (desc, tag, len(cubes), len(items)))
        for c, it in zip(cubes, items):
            if str(c.attributes.get("prov")) != it.show or not np.array_equal(np.asarray(c.data), it.data[0]):
                raise Violation("wrong-output", "%s: output of %s holds %s instead of %s" % (desc, tag, c.attributes.get("prov"), it.show))


def faulted(desc, w, ln, model, log, err, present, failure, fired, via):
    """A disk operation failed inside the line: what ran must be a prefix, and the failure must be seen."""
    if err is None or (isinstance(err, SystemExit) and err.code in (None, 0) and via == "run_main"):
        raise Violation("failure-lost", "%s: disk failure at %s left no trace" % (desc, fired))
    n = len(log)
    if log != model.log[:n]:
        raise Violation("wrong-executions", "%s: after a disk failure the executions %s are no prefix of %s" % (desc, log, model.log))
    done = {e[2] for e in log if e[0] == "end"}
    undeletable = any(op in ("remove", "unlink") for _, op, _ in fired)
    for f in present:
        if undeletable and f.endswith(".tmp"):
            continue
        if f not in {os.path.basename(out_name(w, t)) for t in done}:
            raise Violation("wrong-files", "%s: %s exists though its command did not finish" % (desc, f))
    tags = [t for t in model.outputs if os.path.basename(out_name(w, t)) in present]
    check = Model(w, ln)
    check.outputs = model.outputs
    check_outputs(desc, w, check, tags)
    if failure is None and n == len(model.log) and set(model.outputs) == set(tags) and not any("read" in op or "load" in op for _, op, _ in fired):
        # nothing was lost although something failed: only acceptable if the error was reported, which it was
        pass


def stepwise(desc, cli, w, disk, ln, model, want, result, via, st):
    """The same tree, each command on its own, intermediate results through files."""
    from improver.utilities.load import load_cube

    simlib.reset()
    count = [0]
    skip = []

    def run(n):
        if n["cmd"] == "none" or ("output" in n and n["output"] != "pass" and n is not ln["tree"]):
            skip.append(1)
        m = dict(n, args=[], opts=dict(n["opts"]))
        for a in n["args"]:
            m["args"].append(run(a) if "cmd" in a else a)
        for k, v in n["opts"].items():
            if isinstance(v, dict) and "cmd" in v:
                m["opts"][k] = run(v)
        if skip:
            return None
        count[0] += 1
        m.pop("output", None)
        line_ = []
        saved = dict(ln, bad=None)
        for x in build(w, saved, m):
            line_.append(str(x) if isinstance(x, pathlib.PurePath) else x)
        path = os.path.join(w["root"], "out-step%d.%s" % (count[0], "json" if n["cmd"] == "conf" else "nc"))
        if n["cmd"] == "conf":
            d = cli.main.cli("improver", *line_)
            with open(path, "w") as f:
                json.dump(d, f)
        else:
            cli.main.cli("improver", *line_, "--output", path)
        key = ("file", "step%d" % count[0], "x%d" % count[0])
        w["files"][key] = path
        return {"file": key[1], "kind": key[2], "as": "str"}

    top = run(ln["tree"])
    if skip or ln["tree"]["cmd"] in ("conf", "list"):
        return
    c = load_cube(w["files"]["file", top["file"], top["kind"]])
    st.probe("step-by-step-lines")
    m = model.outputs.get(ln["tree"]["tag"], want)
    check_cube(desc, c, m, "step-by-step result")
