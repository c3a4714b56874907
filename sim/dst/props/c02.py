"""C02: real commands failing at seeded points publish nothing and can be run again."""
import hashlib
import os
import random
import shutil

import numpy as np

from .. import cubes, simlib, suite
from .. import workload as W
from ..core import Unsupported, Violation, unsupported, where
from ..disk import Disk

RUNS = {"quick": 300, "thorough": 40000}
BATCH = 12
TECHNIQUE = "real command lines failed by seeded faults (bad inputs, read and write errors, interruptions at seeded source lines, crashes), the directory checked after each, then repeated and compared with an undisturbed run"
RULE = ("Each run takes one real command line (85 kinds; inputs from files or nested commands; output new, over an older file, over its own input, or to an impossible place), fails it 1-5 times - input or configuration missing, truncated, "
        "corrupt or with invalid metadata, bad options, an exception at a seeded executed line, disk errors at seeded steps of reading or writing, a crash - and finally runs it without a fault.")
STATE_MEASURE = "hash of (command, kind of failure, place, what was at the output path)"
REAL = ["improver.cli (main, converters, with_output) and its commands", "improver.utilities.load and save", "netCDF4/HDF5 files"]
STUB = ["iris/cartopy (stand-in)", "disk faults", "exceptions raised by a line tracer"]
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError, "RuntimeError": RuntimeError, "SystemExit": SystemExit}


def prepare():
    W.load_all()
    simlib.load_cli()


# ------------------------------------------------------------------ plans
def gen_fail(rng, conf):
    k = rng.choice(["missing", "truncated", "garbage", "directory", "metadata", "config", "option", "level", "line", "line", "line", "line", "disk", "disk", "disk", "raise", "raise", "crash", "crash", "none"] + ["config"] * (3 if conf else 0))
    f = {"kind": k, "pick": rng.randrange(100), "at": rng.random(), "exc": rng.choice(sorted(EXC)), "occ": rng.choice(["first", "last", "any"]),
         "errno": rng.choice(["ENOSPC", "EIO", "EACCES"]), "how": rng.choice(["float64", "units", "coord", "name", "empty"]), "keep": rng.random() < 0.7, "opt": rng.choice(["unknown", "value", "lsd", "missing-arg"])}
    if k == "disk" and rng.random() < 0.2:
        f["second"] = rng.randrange(1, 12)
    return f


def generate(rng, idx, tier):
    i = idx % len(suite.LINES)
    return {"line": i, "seed": rng.randrange(3), "nest": rng.random() < 0.25, "fails": ([dict(gen_fail(rng, True), kind="config")] if suite.configs_of(i) else []) + [gen_fail(rng, bool(suite.configs_of(i))) for _ in range(rng.choice([2, 3, 4]))],
            "out": rng.choice(["new", "new", "old", "old", "junk", "input", "near-input"]), "odd": rng.choice([None, None, None, "nodir", "isdir"]), "save": rng.choice([[], [], ["--compression-level=0"], ["--least-significant-digit=2"]]),
            "via": rng.choice(["main.cli", "main"])}


def shrink(p):
    f = p["fails"]
    for i in range(len(f)):
        if len(f) > 1:
            yield dict(p, fails=f[:i] + f[i + 1:])
    for k, v in (("nest", False), ("out", "new"), ("odd", None), ("save", []), ("via", "main.cli"), ("seed", 0)):
        if p[k] != v:
            yield dict(p, **{k: v})


# ------------------------------------------------------------------ the world of one run
_sources = {}


def source_bytes(kind, seed):
    """The file of a source cube."""
    import tempfile

    from improver.utilities.save import save_netcdf

    if (kind, seed) not in _sources:
        d = tempfile.mkdtemp(prefix="dst-src-")
        try:
            p = os.path.join(d, "x.nc")
            save_netcdf(suite.source(kind, seed), p)
            with open(p, "rb") as f:
                _sources[kind, seed] = f.read()
        finally:
            shutil.rmtree(d)
    return _sources[kind, seed]


def maker(kind):
    """A line that makes a file of the kind from sources, if any."""
    for j, (name, kinds, out, text) in enumerate(suite.LINES):
        if out == kind and kind not in kinds and all(k in suite.SOURCES or maker(k) is not None for k in kinds):
            return j


def layout(i, seed, nest, root):
    """-> {relative name: bytes} of the files needed, arguments without --output, names of the inputs."""
    files, used = {}, {}

    def arg(kind, depth):
        if kind in suite.SOURCES and not (nest and depth == 0 and maker(kind) is not None):
            n = used.get(kind, 0)
            used[kind] = n + 1
            rel = "in/%s%d.nc" % (kind, n)
            files[rel] = source_bytes(kind, (seed + n) % 3)
            return os.path.join(root, rel)
        j = maker(kind)
        if j is None:
            raise Unsupported("nothing makes %s" % kind)
        return line(j, depth + 1)

    def line(j, depth):
        ins = [arg(k, depth) for k in suite.LINES[j][1]]
        a = suite.argv(j, ins, os.path.join(root, "in"))
        for k in suite.configs_of(j):
            import json

            files["in/%s.json" % k] = json.dumps(suite.CONFIGS[k]).encode()
        return a

    return files, line(i, 0)


def flat(a):
    out = []
    for x in a:
        if isinstance(x, list):
            out += ["["] + flat(x) + ["]"]
        else:
            out.append(x)
    return out


def put(root, files):
    os.makedirs(os.path.join(root, "in"), exist_ok=True)
    os.makedirs(os.path.join(root, "out"), exist_ok=True)
    for rel, raw in files.items():
        with open(os.path.join(root, rel), "wb") as f:
            f.write(raw)


def state(root):
    out = {}
    for d, dirs, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = hashlib.md5(f.read()).hexdigest()
        for n in dirs:
            out[os.path.relpath(os.path.join(d, n), root) + "/"] = "dir"
    return out


def call(via, args):
    cli = simlib.load_cli()
    import warnings

    np.random.seed(7)
    random.seed(7)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if via == "main":
            return cli.main("improver", *args)
        return cli.main.cli("improver", *args)


def execute(plan, st):
    i = plan["line"] % len(suite.LINES)
    disk = Disk(st, prefix="dst-c02-")
    with disk:
        with disk.pause():
            files, args = layout(i, plan["seed"], plan["nest"], disk.root)
            put(disk.root, files)
            out = {"input": sorted(f for f in files if f.endswith(".nc"))[:1] or ["out/result.nc"], "near-input": ["in/result"]}.get(plan["out"], ["out/result.nc"])[0]
            if out not in files and plan["out"] in ("old", "junk"):
                files[out] = source_bytes("det", 2) if plan["out"] == "old" else b"not a netCDF file, but somebody's"
                put(disk.root, files)
        disk.stable = tuple(files) + (out,)
        base = flat(args)
        normal = base + ["--output", os.path.join(disk.root, out)] + plan["save"]
        desc = "%s (%s)" % (suite.LINES[i][0], " ".join(x.replace(disk.root + "/", "") for x in normal))
        warm(plan, normal, disk, files)
        want, spots, lines, steps = undisturbed(plan, normal, disk, out, files, st, desc)
        if want is None:
            st.probe("naturally-failing")
        for n, f in enumerate(plan["fails"]):
            attempt("%s, attempt %d (%s)" % (desc, n, f["kind"]), plan, f, i, base, normal, out, files, disk, st, want, spots, lines, steps)
        if plan["odd"]:
            impossible(desc, plan, base, files, disk, st, want)
        got, err = final(plan, normal, disk)
        check_done("%s, after %d failures" % (desc, len(plan["fails"])), got, err, want, out, files, disk)
        st.probe("final-runs")


_warm = set()


def warm(plan, args, disk, files):
    """First use in a process fills caches and imports modules: not part of any run."""
    k = (plan["line"], plan["nest"], plan["via"])
    if k not in _warm:
        _warm.add(k)
        final(plan, args, disk)
        with disk.pause():
            reset(disk, files)
        disk.rng = random.Random(0)


def undisturbed(plan, args, disk, out, files, st, desc):
    """Output of the command when nothing fails; where it can be interrupted; how many disk steps it takes."""
    t = W.Interrupter()
    t.spots = {}
    disk.step = 0
    err = None
    with t:
        try:
            call(plan["via"], args)
        except Exception as e:
            err = e
    steps = disk.step
    with disk.pause():
        if err is not None:
            if unsupported(err):
                raise err
            now = state(disk.root)
            reset(disk, files)
            if now != state(disk.root):
                raise Violation("failure-wrote", "%s: failed with %s: %s, but changed the directory: %s" % (desc, type(err).__name__, err, changed(state(disk.root), now)))
            return None, list(t.spots.values()), t.n, steps
        p = os.path.join(disk.root, out)
        want = cubes.nc_dump(p) if os.path.exists(p) and not (out in files and open(p, "rb").read() == files[out]) else ()
        reset(disk, files)
    return want, list(t.spots.values()), t.n, steps


def reset(disk, files):
    for d in ("in", "out", "odd"):
        p = os.path.join(disk.root, d)
        if os.path.isdir(p):
            shutil.rmtree(p)
    put(disk.root, files)


def changed(a, b):
    return sorted(["+" + k for k in b if k not in a] + ["-" + k for k in a if k not in b] + ["~" + k for k in a if k in b and a[k] != b[k]])


def final(plan, args, disk):
    err = None
    with disk.pause():
        try:
            return call(plan["via"], args), None
        except Exception as e:
            err = e
    return None, err


def check_done(desc, got, err, want, out, files, disk, may=()):
    """The command has run to its normal end: the file of an undisturbed run, and nothing else."""
    with disk.pause():
        if err is not None:
            if unsupported(err):
                raise err
            if want is not None:
                raise Violation("not-repeatable", "%s: %s: %s (%s)" % (desc, type(err).__name__, err, where(err)))
            return
        if want is None:
            raise Violation("not-repeatable", "%s: succeeds now, though it fails on the same input otherwise" % desc)
        p = os.path.join(disk.root, out)
        if want == ():
            return
        if not os.path.exists(p):
            raise Violation("not-repeatable", "%s: no output" % desc)
        try:
            d = cubes.nc_dump(p)
        except Exception as e:
            raise Violation("not-repeatable", "%s: unreadable output: %s" % (desc, e))
        if d != want:
            raise Violation("not-repeatable", "%s: the output differs from that of an undisturbed run: %s" % (desc, first_difference(want, d)))
        names = set(k for k in state(disk.root) if not k.endswith("/"))
        if names - set(may) != (set(files) | {out}) - set(may):
            raise Violation("left-behind", "%s: files %s besides the inputs and the output" % (desc, sorted(names - set(files) - {out})))


def first_difference(a, b):
    for part in ("dims", "attrs", "vars"):
        for k in sorted(set(a[part]) | set(b[part])):
            if a[part].get(k) != b[part].get(k):
                return "%s %s: %.150r, undisturbed %.150r" % (part, k, b[part].get(k), a[part].get(k))
    return "?"


def spoil(f, files, root):
    """Damage one input; True if done."""
    names = sorted(n for n in files if n.startswith("in/") and (n.endswith(".json") if f["kind"] == "config" else n.endswith(".nc")))
    if not names:
        return None
    rel = names[f["pick"] % len(names)]
    p = os.path.join(root, rel)
    k = f["kind"]
    if k == "config":
        k = ("missing", "truncated", "garbage", "missing")[f["pick"] // 7 % 4]
    raw = files[rel]
    if k == "missing":
        os.remove(p)
    elif k == "directory":
        os.remove(p)
        os.mkdir(p)
    elif k == "truncated":
        with open(p, "wb") as h:
            h.write(raw[:int(len(raw) * f["at"] * 0.98)])
    elif k == "garbage":
        with open(p, "wb") as h:
            h.write(bytes(random.Random(f["pick"]).getrandbits(8) for _ in range(64)) if f["pick"] % 3 else b"")
    else:
        import netCDF4

        with netCDF4.Dataset(p, "a") as ds:
            vs = [v for v in ds.variables.values() if "coordinates" in v.ncattrs() or "grid_mapping" in v.ncattrs()]
            if not vs:
                return None
            v = vs[0]
            if f["how"] == "units":
                v.units = "furlong"
            elif f["how"] == "name":
                v.standard_name = "wind_speed" if "standard_name" in v.ncattrs() else ""
                v.long_name = "other"
            elif f["how"] == "coord":
                if "coordinates" in v.ncattrs():
                    v.coordinates = ""
            elif f["how"] == "float64":
                v.units = ""
            else:
                v.delncattr("units") if "units" in v.ncattrs() else None
    return rel


def attempt(desc, plan, f, i, base, normal, out, files, disk, st, want, spots, lines, steps):
    kind = f["kind"]
    args = normal
    disk.step, disk.fired, disk.faults = 0, [], {}
    tracer, must_fail, loose, crash = None, False, False, False
    with disk.pause():
        if kind in ("missing", "truncated", "garbage", "directory", "metadata", "config"):
            rel = spoil(f, files, disk.root)
            if rel is None:
                return
            # a command that reads a named file cannot do without it
            must_fail = kind in ("missing", "directory", "garbage") or not os.path.exists(os.path.join(disk.root, rel))
            loose = not must_fail
        elif kind == "option":
            must_fail = True
            args = {"unknown": normal + ["--no-such-option=1"], "value": normal + ["--least-significant-digit=two"], "lsd": normal + ["--compression-level=high"],
                    "missing-arg": [normal[0], "--output", os.path.join(disk.root, out)]}[f["opt"]]
        elif kind == "level":
            args = normal + ["--compression-level=11"]
            must_fail = want != ()
        elif kind == "line":
            tracer = W.Interrupter(W.step_at(spots, lines, f["at"], f["occ"]), EXC[f["exc"]]("injected"))
        elif kind in ("disk", "crash", "raise"):
            n = 1 + int(f["at"] * max(1, steps))
            disk.faults = {n: ["crash"] if kind == "crash" else ["raise", f["exc"]] if kind == "raise" else ["error", f["errno"]]}
            if "second" in f:
                disk.faults[n + f["second"]] = ["error", f["errno"]]
            crash = kind == "crash"
            snap = {}

            def die():
                # the process is gone: what it does while unwinding never happened
                for d, _, names in os.walk(disk.root):
                    for name in names:
                        with open(os.path.join(d, name), "rb") as h:
                            snap[os.path.relpath(os.path.join(d, name), disk.root)] = h.read()

            def dead():
                with disk.pause():
                    die()

            disk.crash_hook = dead
        before = state(disk.root)
    err = None
    try:
        if tracer is not None:
            with tracer:
                call(plan["via"], args)
        elif kind in ("disk", "crash", "raise"):
            call(plan["via"], args)
        else:
            with disk.pause():
                call(plan["via"], args)
    except Violation:
        raise
    except BaseException as e:
        err = e
    hit = bool(disk.fired) or (tracer is not None and tracer.fired)
    if err is not None and not hit and unsupported(err):
        raise err
    failed = err is not None
    if tracer is not None and tracer.fired:
        st.fault("%s-at-line" % f["exc"])
        desc += " at %s" % tracer.where
    elif kind not in ("disk", "crash", "raise", "line", "none"):
        st.fault("%s%s" % (kind, "-" + f["how"] if kind == "metadata" else "-" + f["opt"] if kind == "option" else ""))
    if disk.fired:
        desc += " %s" % ([x[1:] for x in disk.fired],)
    st.state(i, kind, tracer.where if tracer is not None else tuple(disk.fired), plan["out"], failed)
    disk.faults = {}
    undeletable = any(op in ("remove", "unlink", "mkdir") for _, op, _ in disk.fired)
    with disk.pause():
        if crash and disk.fired and disk.fired[0][2] == "crash":
            reset(disk, {})
            put(disk.root, snap)
        now = state(disk.root)
        if failed:
            st.probe("failed-attempts")
            diff = changed(before, now)
            if crash or undeletable:
                diff = [d for d in diff if not (d[0] == "+" and d.endswith(".tmp"))]
            if diff and tracer is not None and tracer.fired and published(tracer.where, diff, out, want, disk):
                diff = []
            if diff and hit and disk.fired and not crash and published("", diff, out, want, disk) and after_rename(disk):
                diff = []
            if diff and crash and diff in (["+" + out], ["~" + out]) and published("", diff, out, want, disk):
                diff = []
            if diff:
                raise Violation("failure-wrote", "%s: failed with %s: %s, but changed the directory: %s" % (desc, type(err).__name__, str(err)[:200], diff))
        else:
            if must_fail:
                if want is not None:
                    raise Violation("failure-lost", "%s: returned normally" % desc)
            if hit:
                if disk.fired and not undeletable and kind != "raise":
                    raise Violation("failure-lost", "%s: the disk failed but the command returned normally" % desc)
                st.probe("absorbed")
                if kind in ("line", "raise") and f["exc"] in ("KeyboardInterrupt", "SystemExit"):
                    raise Violation("failure-lost", "%s: the interruption was lost" % desc)
            if not loose and not undeletable:
                check_done(desc, None, None, want, out, files, disk) if want is not None else None
        if crash and failed and f["keep"]:
            # what the dead process left lies about while the command is run again
            st.probe("rerun-after-crash")
            left = [d[1:] for d in changed(before, now) if d.endswith(".tmp")]
            got, err = final(plan, normal, disk)
            check_done(desc + ", run again", got, err, want, out, dict(files, **dict.fromkeys(left)), disk, left)
        reset(disk, files)


def published(place, diff, out, want, disk):
    """True if all that changed is that the complete output is there (interrupted after the rename)."""
    if diff not in (["+" + out], ["~" + out]) or not want:
        return False
    try:
        return cubes.nc_dump(os.path.join(disk.root, out)) == want
    except Exception:
        return False


def after_rename(disk):
    """The first failing step came after the output was put in place."""
    first = disk.fired[0][0]
    return any(op in ("rename", "replace") and n < first for n, op, rel in disk.ops)


def impossible(desc, plan, base, files, disk, st, want):
    """An output path that cannot be written."""
    with disk.pause():
        if plan["odd"] == "nodir":
            path = os.path.join(disk.root, "odd", "deeper", "x.nc")
        else:
            path = os.path.join(disk.root, "odd", "x.nc")
            os.makedirs(path)
        before = state(disk.root)
        err = None
        try:
            call(plan["via"], base + ["--output", path])
        except Exception as e:
            err = e
        if err is not None and unsupported(err):
            raise err
        st.fault("output-" + plan["odd"])
        if err is None and os.path.isfile(path):
            reset(disk, files)
            return
        if err is None and want != () and want is not None:
            raise Violation("failure-lost", "%s: nothing could be written to %s, but the command returned normally" % (desc, plan["odd"]))
        d = changed(before, state(disk.root))
        if d:
            raise Violation("failure-wrote", "%s: writing to %s failed with %s, but changed the directory: %s" % (desc, plan["odd"], err, d))
        reset(disk, files)
