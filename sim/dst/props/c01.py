"""C01: atomic publication of output files under crashes, errors, concurrent writers and readers."""
import os
import shutil
import tempfile

from .. import cubes
from ..core import REPO, Violation, unsupported, where
from ..disk import Disk
from ..sched import Sched

RUNS = {"quick": 300, "thorough": 60000}
BATCH = 20
RULE = ("Each run is a history of process lifetimes on one directory; in each lifetime 1-4 tasks save to or load from paths with similar names, "
        "interleaved at every file-system step and source line of the saver, with I/O errors and crashes (of one process or all) at chosen steps; "
        "a last, fault-free lifetime saves every path again.")
STATE_MEASURE = "hash of (step kind, content id of every path) seen after each file-system step"
REAL = ["improver.utilities.save.save_netcdf", "improver.utilities.load", "netCDF4/HDF5 file writing", "real files in a scratch directory"]
STUB = ["iris netCDF saver (stand-in writing through real netCDF4, with steps)", "process crash (task frozen for ever, directory kept)", "scheduling"]
ASSUMES = ["a crash is the death of a process, not loss of power: completed file-system calls survive"]
TARGETS = ["out.nc", "out.nc", "out.nc", "out.nc.tmp", "out", "sub/out.nc", "out.grib"]
SAVE = REPO + "/improver/utilities/save.py"


def prepare():
    import improver.synthetic_data.set_up_test_cubes  # noqa: F401
    import improver.utilities.load  # noqa: F401
    import improver.utilities.save  # noqa: F401


def generate(rng, idx, tier):
    phases = []
    fam = rng.choice([["out.nc"], ["out.nc"], TARGETS, ["out.nc", "out.nc.tmp"], ["out.nc", "sub/out.nc", "out"]])
    for ph in range(rng.choice([1, 1, 2, 3])):
        tasks = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            if rng.random() < 0.75 or not tasks:
                opts = {}
                if rng.random() < 0.3:
                    opts["compression_level"] = rng.choice([0, 1, 5, 9])
                tasks.append({"op": "save", "target": rng.choice(fam), "spec": cubes.spec_random(rng), "opts": opts,
                              "path": rng.choice(["str", "str", "Path", "rel"]), "n": rng.choice([1, 1, 1, 2])})
            else:
                tasks.append({"op": "load", "target": rng.choice(fam), "n": rng.choice([1, 3])})
        span = 30 * len(tasks)
        faults = {}
        mode = rng.random()
        if mode < 0.35:
            for _ in range(rng.choice([1, 1, 2, 3])):
                faults[str(rng.randrange(1, span))] = ["error", rng.choice(["ENOSPC", "EIO", "EACCES", "EDQUOT"])]
        elif mode < 0.65:
            faults[str(rng.randrange(1, span))] = ["crash"]
            if rng.random() < 0.3:
                faults[str(rng.randrange(1, span))] = ["error", "EIO"]
        sw = []
        if len(tasks) > 1:
            for _ in range(rng.choice([1, 2, 4, 8])):
                sw.append([rng.randrange(1, 70 * len(tasks)), rng.randrange(4)])
        phases.append({"tasks": tasks, "faults": faults, "switches": sorted(sw), "scope": rng.choice(["task", "all"])})
    return {"initial": [[t, cubes.spec_random(rng)] for t in sorted(set(fam)) if rng.random() < 0.5], "phases": phases}


def shrink(p):
    ph = p["phases"]
    for i in range(len(ph)):
        if len(ph) > 1:
            yield dict(p, phases=ph[:i] + ph[i + 1:])
    for i in range(len(p["initial"])):
        yield dict(p, initial=p["initial"][:i] + p["initial"][i + 1:])
    for i, x in enumerate(ph):
        def put(y):
            return dict(p, phases=ph[:i] + [y] + ph[i + 1:])
        for j in range(len(x["tasks"])):
            yield put(dict(x, tasks=x["tasks"][:j] + x["tasks"][j + 1:]))
        for k in x["faults"]:
            yield put(dict(x, faults={a: b for a, b in x["faults"].items() if a != k}))
        for j in range(len(x["switches"])):
            yield put(dict(x, switches=x["switches"][:j] + x["switches"][j + 1:]))
        for j, t in enumerate(x["tasks"]):
            if t.get("n", 1) > 1:
                yield put(dict(x, tasks=x["tasks"][:j] + [dict(t, n=1)] + x["tasks"][j + 1:]))
            if t["op"] == "save" and t["spec"]["kind"] != "var":
                yield put(dict(x, tasks=x["tasks"][:j] + [dict(t, spec=dict(t["spec"], kind="var", mask=False, attrs=0, cm=0))] + x["tasks"][j + 1:]))


class Ref:
    """What a clean save of a spec stores."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="dst-ref-")
        self.n = 0

    def dump(self, spec, opts):
        from improver.utilities.save import save_netcdf

        self.n += 1
        d = os.path.join(self.dir, "r%d" % self.n)
        os.mkdir(d)
        p = os.path.join(d, "ref.nc")
        save_netcdf(cubes.make(spec), p, **opts)
        with open(p, "rb") as f:
            raw = f.read()
        os.remove(p)
        return p, raw

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def execute(plan, st):
    ref = Ref()
    try:
        _execute(plan, st, ref)
    finally:
        ref.close()


class Content:
    """One save's complete result: known bytes, else compared variable by variable."""

    def __init__(self, name, ref):
        self.name, self.raws = name, [ref[1]]
        self._dump = None

    @property
    def dump(self):
        if self._dump is None:
            with tempfile.NamedTemporaryFile(prefix="dst-c01-", suffix=".nc") as f:
                f.write(self.raws[0])
                f.flush()
                self._dump = cubes.nc_dump(f.name)
        return self._dump


def _execute(plan, st, ref):
    from improver.utilities.load import load_cubelist
    from improver.utilities.save import save_netcdf

    ops = []

    def prep(spec, opts):
        try:
            return ref.dump(spec, opts)
        except Exception as e:
            if unsupported(e):
                raise
            raise Violation("save-failed", "undisturbed save of %s failed: %s: %s (%s)" % (spec, type(e).__name__, e, where(e)))

    world = {}
    disk = Disk(st, prefix="dst-c01-")
    check_dir = tempfile.mkdtemp(prefix="dst-chk-")
    targets = sorted({t["target"] for ph in plan["phases"] for t in ph["tasks"]} | {t for t, _ in plan["initial"]})
    disk.stable = targets
    seen = {}
    counter = [0]

    def classify(rel, why):
        """Content id of a target now (None if absent); Violation if it is not a complete saved file."""
        p = os.path.join(disk.root, rel)
        try:
            s = os.stat(p)
        except FileNotFoundError:
            return None
        sig = (disk.root, s.st_ino, s.st_size, s.st_mtime_ns)
        if seen.get(rel, (None,))[0] == sig:
            return seen[rel][1]
        counter[0] += 1
        cp = os.path.join(check_dir, "c%d.nc" % counter[0])
        with open(p, "rb") as f:
            raw = f.read()
        for c in world[rel]:
            if raw in c.raws:
                seen[rel] = (sig, c)
                st.probe("contents-checked")
                return c
        with open(cp, "wb") as f:
            f.write(raw)
        try:
            d = cubes.nc_dump(cp)
        except Exception as e:
            raise Violation("partial-file", "%s: %s holds an unreadable file of %d bytes (%s)" % (why, rel, s.st_size, str(e)[:80]))
        finally:
            os.remove(cp)
        for c in world[rel]:
            if c.dump == d:
                c.raws.append(raw)
                seen[rel] = (sig, c)
                st.probe("contents-checked")
                return c
        raise Violation("partial-file", "%s: %s holds something no save produced: variables %s attrs %s" % (
            why, rel, sorted(d["vars"]), sorted(d["attrs"])))

    try:
        with disk:
            with disk.pause():
                os.mkdir(os.path.join(disk.root, "sub"))
                for t in targets:
                    world[t] = []
                for t, spec in plan["initial"]:
                    world[t].append(Content("initial", prep(spec, {})))
                    try:
                        save_netcdf(cubes.make(spec), os.path.join(disk.root, t))
                    except Exception as e:
                        raise Violation("save-failed", "first save to %s failed: %s: %s" % (t, type(e).__name__, e))
            for ip, ph in enumerate(plan["phases"] + [{"final": True, "tasks": [], "faults": {}, "switches": [], "scope": "all"}]):
                if ph.get("final"):
                    ph = dict(ph, tasks=[{"op": "save", "target": t, "spec": {"kind": "var", "n": 2, "tag": 900000 + i, "mask": False, "attrs": 0, "cm": 0},
                                          "opts": {}, "path": "str", "n": 1} for i, t in enumerate(targets)])
                phase(ip, ph, st, disk, world, targets, classify, prep, save_netcdf, load_cubelist)
                with disk.pause():
                    disk.restart()
                    seen.clear()
    finally:
        shutil.rmtree(check_dir, ignore_errors=True)


def phase(ip, ph, st, disk, world, targets, classify, prep, save_netcdf, load_cubelist):
    import pathlib

    disk.step = 0
    disk.faults = {int(k): v for k, v in ph["faults"].items()}
    disk.fired = []
    fired_by = {}
    start = {}
    with disk.pause():
        for t in targets:
            start[t] = classify(t, "at start of lifetime %d" % ip)
            world[t] = [start[t]] if start[t] is not None else []
    saves = []
    sched = Sched(ph["switches"], max_steps=60000, st=st, trace_filter=lambda fn: fn == SAVE)
    seq = [0]
    mine = {}

    def on_step(n, op, rel):
        now = []
        for t in targets:
            before = last[t]
            c = classify(t, "step %d (%s %s) of lifetime %d" % (n, op, disk.norm(rel), ip))
            if c is None and before is not None:
                raise Violation("file-vanished", "step %d (%s %s): %s is gone" % (n, op, disk.norm(rel), t))
            last[t] = c
            now.append(None if c is None else c.name)
        st.state(op, tuple(now))

    last = dict(start)
    disk.on_step = on_step

    real_hit = disk.__class__.hit

    def note_fault():
        # called just before a fault takes effect in the current task
        fired_by[sched.current.tid] = True

    def hit(op, path, after=False):
        f = disk.faults.get(disk.step + 1) if disk.rel(path) is not None and disk.armed else None
        try:
            real_hit(disk, op, path)
        except OSError:
            note_fault()
            raise

    disk.hit = hit
    disk.crash_hook = (lambda: sched.kill_current()) if ph["scope"] == "task" else (lambda: sched.kill_all())

    def saver(i, t):
        def body():
            for k in range(t.get("n", 1)):
                spec = dict(t["spec"], tag=t["spec"]["tag"] + 31 * k)
                rec = mine[i][k]
                seq[0] += 1
                rec["start"] = seq[0]
                path = os.path.join(disk.root, t["target"])
                if t["path"] == "Path":
                    path = pathlib.Path(path)
                try:
                    save_netcdf(rec["cube"], path, **t["opts"])
                    rec["status"] = "ok"
                except OSError as e:
                    rec["status"], rec["exc"] = "raised", e
                except Violation:
                    raise
                except Exception as e:
                    rec["status"], rec["exc"] = "raised", e
                seq[0] += 1
                rec["end"] = seq[0]
                # after a failed save the task simply tries the next one
        return body

    def reader(i, t):
        def body():
            for k in range(t.get("n", 1)):
                path = os.path.join(disk.root, t["target"])
                existed = last[t["target"]]
                f0 = fired_by.pop(sched.current.tid, False)
                try:
                    got = load_cubelist(path)
                    [c.data for c in got]
                except Violation:
                    raise
                except Exception as e:
                    if fired_by.get(sched.current.tid) or existed is None or last[t["target"]] is not existed or unsupported(e):
                        # data are read when needed, from whatever the path holds then
                        continue
                    raise Violation("reader-failed", "load of %s failed although it existed: %s: %s (%s)" % (t["target"], type(e).__name__, e, where(e)))
                tags = {c.attributes.get("tag") for c in got}
                st.probe("reads")
                if f0:
                    pass
                for c in got:
                    if c.attributes.get("tag") is None:
                        raise Violation("reader-wrong", "load of %s gave a cube without its attributes" % t["target"])
        return body

    with disk.pause():
        for i, t in enumerate(ph["tasks"]):
            if t["op"] == "save":
                mine[i] = []
                for k in range(t.get("n", 1)):
                    spec = dict(t["spec"], tag=t["spec"]["tag"] + 31 * k)
                    c = Content("p%dt%ds%d" % (ip, i, k), prep(spec, t["opts"]))
                    rec = {"content": c, "status": "pending", "target": t["target"], "cube": cubes.make(spec), "task": i, "start": None, "end": None}
                    mine[i].append(rec)
                    saves.append(rec)
                    world[t["target"]].append(c)
    tasks = {}
    for i, t in enumerate(ph["tasks"]):
        tasks[i] = sched.spawn((saver if t["op"] == "save" else reader)(i, t), "task%d-%s" % (i, t["op"]))
        st.op(t["op"])
    cwd = os.getcwd()
    try:
        sched.run()
    finally:
        disk.on_step = None
        del disk.hit
    for i, t in tasks.items():
        if t.exc is not None and not t.killed:
            raise t.exc
    with disk.pause():
        for rec in saves:
            t = tasks[rec["task"]]
            if t.killed and rec["status"] == "pending":
                rec["status"] = "crashed" if rec["start"] is not None else "never"
            elif rec["status"] == "pending":
                rec["status"] = "never"
            if rec["status"] == "raised" and not fired_by.get(t.tid):
                e = rec["exc"]
                if unsupported(e):
                    raise e
                raise Violation("save-failed", "lifetime %d: save %s to %s raised %s: %s (%s) although no fault hit it" % (
                    ip, rec["content"].name, rec["target"], type(e).__name__, e, where(e)))
        for t in targets:
            c = classify(t, "end of lifetime %d" % ip)
            here = [r for r in saves if r["target"] == t]
            okd = [r for r in here if r["status"] == "ok"]
            allowed = [r for r in here if r["status"] in ("ok", "crashed")]
            if c is None:
                if okd or start[t] is not None:
                    raise Violation("file-vanished", "end of lifetime %d: %s does not exist, %d saves reported success" % (ip, t, len(okd)))
                continue
            if c is start[t]:
                if okd:
                    raise Violation("save-lost", "end of lifetime %d: %s still holds its old content, though %s reported success" % (ip, t, okd[0]["content"].name))
                continue
            r = [x for x in here if x["content"] is c]
            if not r or r[0] not in allowed:
                raise Violation("failed-save-published", "end of lifetime %d: %s holds the content of %s, which %s" % (ip, t, c.name, r[0]["status"] if r else "?"))
            for s in okd:
                if r[0]["end"] is not None and r[0]["end"] < s["start"]:
                    raise Violation("save-lost", "end of lifetime %d: %s holds %s, though the later save %s reported success" % (ip, t, c.name, s["content"].name))
        st.probe("crashed-saves", sum(r["status"] == "crashed" for r in saves))
        st.probe("failed-saves", sum(r["status"] == "raised" for r in saves))
        st.probe("good-saves", sum(r["status"] == "ok" for r in saves))
        st.log("phase", ip, [(r["content"].name, r["status"]) for r in saves])
