"""C07: file comparison passes exactly when two files agree."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

import numpy as np

from .. import setorder, simlib
from ..core import REPO, SimAbort, Violation, where
from ..sched import Patcher, Sched

RUNS = {"quick": 900, "thorough": 60000}
BATCH = 20
TECHNIQUE = "stored-corruption, truncation and failing reads injected into seeded pairs of files, histories of comparisons, shuffled set order"
RULE = ("Each run is a history of 1-5 comparisons on a small pool of paths: random netCDF structures with nested groups and their copies with zero or more "
        "seeded stored differences (or missing, truncated, garbage files), failing reads, different reporters, files rewritten between comparisons, "
        "two comparisons interleaved line by line, seeded set iteration order.")
STATE_MEASURE = "hash of (kind of difference, place, reporter, fault)"
REAL = ["improver.utilities.compare", "improver.cli compare command", "netCDF4/HDF5"]
STUB = ["failing reads (wrapped netCDF4 variables)", "set iteration order inside compare.py"]
MOD = REPO + "/improver/utilities/compare.py"
NAMES = ["air_temperature", "x", "y", "time", "realization", "b", "mask", "lat", "longitude_bnds", "data", "t0"]


def prepare():
    simlib.load_cli()
    import improver.utilities.compare  # noqa: F401


# ------------------------------------------------------------------ files
def gen_attr(rng):
    k = rng.choice(["str", "str", "int", "float", "double", "nan", "arr", "farr", "nanarr", "strs", "empty", "long"])
    v = rng.randrange(1, 50)
    return {"str": ["str", "value %d" % v], "int": ["i4", v], "long": ["i8", v], "float": ["f4", v / 4], "double": ["f8", v / 8], "nan": ["f4", "nan"],
            "arr": ["i4", [v, v + 1, 3]], "farr": ["f4", [v / 2, 1.5]], "nanarr": ["f8", [1.0, "nan"]], "strs": ["strs", ["a", "b%d" % v]],
            "empty": ["str", ""]}[k]


def gen_group(rng, depth, outer):
    g = {"attrs": {}, "dims": {}, "vars": {}, "groups": {}}
    for _ in range(rng.choice([0, 1, 2, 3])):
        g["attrs"][rng.choice(["title", "history", "source", "Conventions", "n", "levels"])] = gen_attr(rng)
    for _ in range(rng.choice([0, 1, 2, 2]) if outer else rng.choice([1, 2, 3])):
        g["dims"][rng.choice(["x", "y", "time", "realization", "b"])] = rng.choice([1, 2, 3, 3, 4, 0] if rng.random() < 0.1 else [1, 2, 3, 3, 4])
    dims = dict(outer)
    dims.update(g["dims"])
    for d in g["dims"]:
        if rng.random() < 0.7:
            g["vars"][d] = gen_var(rng, [d], dims)
    for _ in range(rng.choice([0, 1, 2, 3])):
        n = rng.choice(NAMES)
        if n in g["vars"] or n in dims:
            continue
        g["vars"][n] = gen_var(rng, rng.sample(sorted(dims), min(len(dims), rng.choice([0, 1, 2, 2]))), dims)
    if depth > 0:
        for _ in range(rng.choice([0, 0, 1, 2])):
            g["groups"][rng.choice(["g1", "g2", "inner", "x"]) + "_g"] = gen_group(rng, depth - 1, dims)
    return g


def gen_var(rng, dims, sizes):
    t = rng.choice(["f4", "f4", "f4", "f8", "i4", "i8", "u1", "i2", "str", "S1"])
    v = {"dims": dims, "type": t, "seed": rng.randrange(1000), "attrs": {}, "zlib": rng.random() < 0.2, "nan": t in ("f4", "f8") and rng.random() < 0.25,
         "edits": []}
    for _ in range(rng.choice([0, 1, 2])):
        v["attrs"][rng.choice(["units", "long_name", "bounds", "valid_range", "missing", "scale_factor" if t in ("i2", "u1") else "axis"])] = (
            gen_attr(rng) if rng.random() < 0.5 else ["str", "K"])
    if "scale_factor" in v["attrs"]:
        v["attrs"]["scale_factor"] = ["f4", 0.5]
    v["attrs"].pop("valid_range", None)
    if t in ("f4", "f8", "i4") and rng.random() < 0.2:
        v["fill"] = "nan" if t != "i4" and rng.random() < 0.5 else -99
    return v


def num(x):
    return float("nan") if x == "nan" else x


def attr_value(a):
    t, v = a
    if t == "str":
        return v
    if t == "strs":
        return list(v)
    if isinstance(v, list):
        return np.array([num(x) for x in v], t)
    return np.array(num(v), t)[()]


def var_data(v, sizes):
    shape = tuple(sizes[d] for d in v["dims"])
    n = int(np.prod(shape)) if shape else 1
    k = np.arange(n) + v["seed"]
    t = v["type"]
    if t == "str":
        a = np.array(["s%d" % (x % 7) for x in k], object)
    elif t == "S1":
        a = np.array([chr(97 + x % 26) for x in k], "S1")
    elif t[0] == "f":
        a = (100.0 + (k * 37 % 101) / 4.0).astype(t)
        if v["nan"] and n:
            a[0] = np.nan
    else:
        a = (k * 13 % 100 + 1).astype(t)
    for pos, how, x in v["edits"]:
        if n:
            i = pos % n
            if how == "add":
                a[i] = a[i] + a.dtype.type(x)
            elif how == "rel":
                a[i] = a.dtype.type(a[i] * (1 + x))
            elif how == "set":
                a[i] = num(x)
            elif how == "text":
                a[i] = x
    return a.reshape(shape)


def write(path, g):
    import netCDF4

    ds = netCDF4.Dataset(path, "w")
    try:
        fill_group(ds, g, {})
    finally:
        ds.close()


def fill_group(ds, g, outer):
    for k, a in g["attrs"].items():
        ds.setncattr(k, attr_value(a))
    sizes = dict(outer)
    for d, n in g["dims"].items():
        ds.createDimension(d, n)
        sizes[d] = n
    for k, v in g["vars"].items():
        kw = {}
        if "fill" in v:
            kw["fill_value"] = num(v["fill"])
        var = ds.createVariable(k, str if v["type"] == "str" else v["type"], tuple(v["dims"]), zlib=v["zlib"] and v["type"] != "str", **kw)
        var.set_auto_maskandscale(False)
        for a, b in v["attrs"].items():
            var.setncattr(a, attr_value(b))
        d = var_data(v, sizes)
        if d.shape == ():
            var[...] = d[()] if v["type"] != "str" else np.array(d[()], object)
        elif d.size:
            var[...] = d
    for k, h in g["groups"].items():
        fill_group(ds.createGroup(k), h, sizes)


def places(g, path=(), outer=None):
    sizes = dict(outer or {})
    sizes.update(g["dims"])
    yield path, g, sizes
    for k in g["groups"]:
        yield from places(g["groups"][k], path + (k,), sizes)


# ------------------------------------------------------------------ differences
def mutate(rng, g, rtol, atol, exclude, ignored):
    """Apply one stored difference to the (deep-copied) tree; returns (description, counts?)."""
    pl = list(places(g))
    path, grp, sizes = rng.choice(pl)
    for _ in range(20):
        kind = rng.choice(["attr-value", "attr-type", "attr-add", "attr-del", "dim-size", "dim-add", "var-add", "var-del", "var-type", "data-out", "data-out",
                           "data-in", "coord-tiny", "nan", "group-add", "group-del", "dims-swap", "text", "attr-len", "inf", "vattr", "vattr"])
        holder, hv = grp["attrs"], None
        if kind == "vattr":
            if not grp["vars"]:
                continue
            hv = rng.choice(sorted(grp["vars"]))
            holder = grp["vars"][hv]["attrs"]
            kind = rng.choice(["attr-value", "attr-type", "attr-add", "attr-del", "attr-len"])
        scope = not (hv is not None and hv in exclude)
        if kind.startswith("attr"):
            if kind == "attr-add":
                holder["extra_attr"] = gen_attr(rng)
                return "%s:%s" % (kind, "var" if hv else "group"), scope and "extra_attr" not in ignored
            if not holder:
                continue
            k = rng.choice(sorted(holder))
            if k == "scale_factor":
                continue
            counts = scope and k not in ignored
            t, v = holder[k]
            if kind == "attr-del":
                del holder[k]
            elif kind == "attr-value":
                if t == "str":
                    holder[k] = [t, v + "x"]
                elif isinstance(v, list):
                    holder[k] = [t, [v[0] + "x" if t == "strs" else 99] + v[1:]]
                else:
                    holder[k] = [t, 77 if v != 77 else 78]
            elif kind == "attr-type":
                if t in ("str", "strs"):
                    holder[k] = ["i4", 5]
                else:
                    nt = {"i4": "i8", "i8": "i4", "f4": "f8", "f8": "f4"}[t]
                    holder[k] = [nt, v]
            elif kind == "attr-len":
                if not isinstance(v, list):
                    continue
                holder[k] = [t, v + [v[0]]]
            return "%s:%s:%s" % (kind, "var" if hv else "group", t), counts
        if kind == "dim-add":
            if "zz" in sizes:
                continue
            grp["dims"]["zz"] = 2
            return kind, "zz" not in exclude
        if kind == "dim-size":
            # only dimensions nothing uses, or everything that uses them is redone
            if not grp["dims"]:
                continue
            d = rng.choice(sorted(grp["dims"]))
            grp["dims"][d] += 1
            used = any(d in v["dims"] and n not in exclude for p, h, _ in places(grp) for n, v in h["vars"].items())
            return kind, d not in exclude or used
        if kind == "var-add":
            if "newvar" in grp["vars"]:
                continue
            grp["vars"]["newvar"] = gen_var(rng, [], sizes)
            return kind, "newvar" not in exclude
        if kind == "group-add":
            if "new_g" in grp["groups"]:
                continue
            grp["groups"]["new_g"] = {"attrs": {}, "dims": {}, "vars": {}, "groups": {}}
            return kind, True
        if kind == "group-del":
            if not grp["groups"]:
                continue
            del grp["groups"][rng.choice(sorted(grp["groups"]))]
            return kind, True
        if not grp["vars"]:
            path, grp, sizes = rng.choice(pl)
            continue
        n = rng.choice(sorted(grp["vars"]))
        v = grp["vars"][n]
        counts = n not in exclude
        size = int(np.prod([sizes[d] for d in v["dims"]])) if v["dims"] else 1
        if kind == "var-del":
            del grp["vars"][n]
            return kind, counts
        if kind == "var-type":
            nt = {"f4": "f8", "f8": "f4", "i4": "i8", "i8": "i4", "u1": "i2", "i2": "i4"}.get(v["type"])
            if nt is None:
                nt = "i4"
                v["edits"] = []
                v.pop("fill", None)
                v["type"] = nt
                return kind + ":text", counts
            v["type"] = nt
            return kind, counts
        if size == 0:
            continue
        pos = rng.randrange(size)
        t = v["type"]
        dims_used = {d for m in grp["vars"] if m not in exclude for d in grp["vars"][m]["dims"]}
        coord = n in dims_used
        cur = var_data(v, sizes).ravel()[pos]
        if kind == "dims-swap":
            ds = v["dims"]
            if len(ds) != 2 or sizes[ds[0]] != sizes[ds[1]] or ds[0] == ds[1]:
                continue
            v["dims"] = ds[::-1]
            return kind, counts
        if t in ("str", "S1"):
            if kind == "text":
                v["edits"].append([pos, "text", "zz" if t == "str" else "Z"])
                return kind, counts
            continue
        isf = t[0] == "f"
        if kind in ("nan", "inf"):
            if not isf or cur != cur:
                continue
            v["edits"].append([pos, "set", "nan" if kind == "nan" else rng.choice([float("inf"), float("-inf")])])
            return kind, counts
        if cur != cur:
            continue
        tol = 0 if coord else atol + rtol * abs(float(cur))
        if kind == "data-out":
            if isf:
                step = max(tol * 20, abs(float(cur)) * 1e-5, 1e-3) * rng.choice([1, -1])
                if tol > abs(float(cur)) * 1e3:
                    continue
            else:
                step = int(tol * 20) + 1
                if abs(step) > 40:
                    continue
            v["edits"].append([pos, "add", step])
            return kind + (":coord" if coord else ""), counts
        if kind == "data-in":
            if not isf or coord:
                continue
            step = 0.05 * tol
            old = np.dtype(t).type(cur)
            new = np.dtype(t).type(old + np.dtype(t).type(step))
            if new == old or abs(float(new) - float(old)) > 0.5 * tol:
                continue
            v["edits"].append([pos, "add", step])
            return kind, False
        if kind == "coord-tiny":
            if not isf or not coord:
                continue
            new = np.nextafter(np.dtype(t).type(cur), np.dtype(t).type(np.inf))
            v["edits"].append([pos, "set", float(new)])
            return kind, counts
    return "none", False


def generate(rng, idx, tier):
    import copy

    steps = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        base = gen_group(rng, rng.choice([0, 1, 1, 2, 3]), {})
        rtol = rng.choice([0.0, 1e-5, 1e-4, 1e-2])
        atol = rng.choice([0.0, 1e-5, 0.5])
        names = sorted({n for _, g, _ in places(base) for n in g["vars"]})
        exclude = rng.sample(names, 1) if names and rng.random() < 0.2 else []
        if rng.random() < 0.05:
            exclude = exclude + ["newvar"]
        ignored = rng.choice([None, None, None, ["history"], ["history", "extra_attr"], ["units"]])
        other = copy.deepcopy(base)
        diffs = []
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            was = copy.deepcopy(other)
            d = list(mutate(rng, other, rtol, atol, exclude, ignored or []))
            if any(d[0].split(":")[0] == e[0].split(":")[0] for e in diffs):
                other = was  # a second difference of the same kind could undo the first
                continue
            diffs.append(d)
        if other == base:
            diffs = [[k, False] for k, _ in diffs]
        if rng.random() < 0.3:
            base, other = other, base  # differences on the actual side
        r = rng.random()
        fault = None
        if r < 0.12:
            fault = {"kind": "read", "side": rng.randrange(2), "nth": rng.randrange(8), "exc": rng.choice(["OSError", "RuntimeError", "MemoryError"])}
        elif r < 0.24:
            fault = {"kind": "file", "side": rng.randrange(3), "how": rng.choice(["missing", "garbage", "empty", "dir", "truncate", "truncate"]),
                     "at": rng.random(), "errno": None}
        elif r < 0.28:
            fault = {"kind": "open", "side": rng.randrange(2), "exc": rng.choice(["PermissionError", "OSError", "FileNotFoundError"])}
        steps.append({"a": base, "b": other, "diffs": diffs, "rtol": rtol, "atol": atol, "exclude": exclude, "ignored": ignored, "fault": fault,
                      "reporter": rng.choice(["raise", "collect", "collect", "custom", "cli"]), "paths": rng.choice([["a.nc", "b.nc"], ["a.nc", "b.nc"], ["b.nc", "a.nc"], ["d/x.nc", "x.nc"]]),
                      "rewrite": rng.choice(["inplace", "inplace", "rename"]), "path_type": rng.choice(["str", "Path"]), "again": rng.random() < 0.2,
                      "twin": rng.random() < 0.12, "switches": sorted([rng.randrange(1, 120), 0] for _ in range(4))})
    return {"steps": steps, "order": rng.choice([None, rng.randrange(1 << 20)])}


def shrink(p):
    S = p["steps"]
    for i in range(len(S)):
        if len(S) > 1:
            yield dict(p, steps=S[:i] + S[i + 1:])
    if p["order"] is not None:
        yield dict(p, order=None)
    for i, s in enumerate(S):
        def put(x):
            return dict(p, steps=S[:i] + [x] + S[i + 1:])
        for k, v in (("again", False), ("twin", False), ("path_type", "str")):
            if s[k] != v:
                yield put(dict(s, **{k: v}))
        if s["fault"] is None:
            # drop what both sides share, at any depth
            def common(a, b):
                for part in ("vars", "attrs", "groups", "dims"):
                    for k in list(a[part]):
                        if k in b[part] and a[part][k] == b[part][k]:
                            yield part, k
            for part, k in common(s["a"], s["b"]):
                if part == "dims" and any(k in str(g) for g in (s["a"]["vars"], s["a"]["groups"], s["b"]["vars"], s["b"]["groups"])):
                    continue
                a = dict(s["a"], **{part: {x: y for x, y in s["a"][part].items() if x != k}})
                b = dict(s["b"], **{part: {x: y for x, y in s["b"][part].items() if x != k}})
                yield put(dict(s, a=a, b=b))


# ------------------------------------------------------------------ failing reads
class FaultyVar:
    def __init__(self, var, ctl):
        object.__setattr__(self, "_v", var)
        object.__setattr__(self, "_c", ctl)

    def __getattr__(self, n):
        return getattr(self._v, n)

    def __setattr__(self, n, x):
        setattr(self._v, n, x)

    def __getitem__(self, k):
        self._c.read()
        return self._v[k]

    def __array__(self, *a):
        self._c.read()
        return np.asarray(self._v[...], *a)

    def __len__(self):
        return len(self._v)


class Ctl:
    def __init__(self, fault, st):
        self.n, self.fault, self.st, self.fired = 0, fault, st, False

    def read(self):
        self.n += 1
        if self.n - 1 == self.fault["nth"]:
            self.fired = True
            self.st.fault("read-" + self.fault["exc"])
            raise {"OSError": OSError(5, "Input/output error"), "RuntimeError": RuntimeError("NetCDF: HDF error"), "MemoryError": MemoryError()}[self.fault["exc"]]


def wrap(ds, ctl):
    for k in list(ds.variables):
        ds.variables[k] = FaultyVar(ds.variables[k], ctl)
    for k in ds.groups:
        wrap(ds.groups[k], ctl)


class Custom(Exception):
    pass


def execute(plan, st):
    from improver.utilities import compare

    root = tempfile.mkdtemp(prefix="dst-c07-")
    os.mkdir(os.path.join(root, "d"))
    P = Patcher()
    try:
        mod = compare
        if plan["order"] is not None:
            mod = setorder.load(MOD, "improver.utilities.compare", plan["order"])
        for i, s in enumerate(plan["steps"]):
            step(i, s, root, mod, compare, st)
    finally:
        P.undo()
        shutil.rmtree(root, ignore_errors=True)


def put_file(path, tree, how, i, root):
    if os.path.isdir(path):
        os.rmdir(path)
    if how == "inplace" and os.path.exists(path):
        tmp = os.path.join(root, "src%d" % i)
        write(tmp, tree)
        with open(tmp, "rb") as f:
            data = f.read()
        os.remove(tmp)
        try:
            write(path, tree)  # the usual way another tool would rewrite it
        except (OSError, RuntimeError) as e:
            raise Violation("file-held-open", "%s cannot be rewritten after it was compared: %s" % (os.path.basename(path), e))
        del data
    else:
        tmp = os.path.join(root, "src%d" % i)
        write(tmp, tree)
        os.replace(tmp, path)


def step(i, s, root, mod, plain, st):
    import pathlib

    import netCDF4

    pa, pb = [os.path.join(root, x) for x in s["paths"]]
    put_file(pa, s["a"], s["rewrite"], i, root)
    put_file(pb, s["b"], s["rewrite"], i, root)
    f = s["fault"]
    broken = False
    if f and f["kind"] == "file":
        for side, p in enumerate((pa, pb)):
            if f["side"] in (side, 2):
                broken = True
                st.fault("file-" + f["how"])
                if f["how"] == "missing":
                    os.remove(p)
                elif f["how"] == "dir":
                    os.remove(p)
                    os.mkdir(p)
                elif f["how"] == "garbage":
                    with open(p, "wb") as o:
                        o.write(b"not a netcdf file" * 20)
                elif f["how"] == "empty":
                    open(p, "wb").close()
                else:
                    n = os.path.getsize(p)
                    cut = int(f["at"] * n * 0.9)
                    with open(p, "r+b") as o:
                        o.truncate(cut)
    differ = any(c for _, c in s["diffs"])
    kinds = [k for k, _ in s["diffs"]]
    st.state(tuple(kinds), differ, s["reporter"], f and (f["kind"], f.get("how")), bool(s["exclude"]), s["ignored"])
    st.op("compare:" + s["reporter"])
    for k in kinds:
        st.probe("diff:" + k.split(":")[0])
    for rep in range(2 if s["again"] else 1):
        one(i, s, pa, pb, mod, plain, st, f, broken, differ, kinds, root)


def stat(p):
    try:
        x = os.stat(p)
        if os.path.isdir(p):
            return "dir"
        with open(p, "rb") as f:
            return (x.st_ino, x.st_mtime_ns, f.read())
    except FileNotFoundError:
        return None


def one(i, s, pa, pb, mod, plain, st, f, broken, differ, kinds, root):
    import netCDF4
    import pathlib

    T = pathlib.Path if s["path_type"] == "Path" else str
    reports = []
    calls = []
    before = (stat(pa), stat(pb))
    P = Patcher()
    ctl = Ctl(f, st) if f and f["kind"] == "read" else None
    opened = [0]
    if f and f["kind"] in ("read", "open"):
        real = netCDF4.Dataset

        class Dataset(real):
            def __init__(self, filename, *a, **k):
                mine = os.path.abspath(str(filename)) == (pa, pb)[f["side"]]
                if mine and f["kind"] == "open":
                    opened[0] += 1
                    st.fault("open-" + f["exc"])
                    raise {"PermissionError": PermissionError(13, "Permission denied"), "OSError": OSError(5, "Input/output error"),
                           "FileNotFoundError": FileNotFoundError(2, "No such file")}[f["exc"]]
                super().__init__(filename, *a, **k)
                if mine and ctl is not None:
                    wrap(self, ctl)

        P.set(netCDF4, "Dataset", Dataset)
    exc = None
    out = io.StringIO()

    def collect(m):
        reports.append(m)

    def custom(m):
        calls.append(m)
        raise Custom(m)

    kw = {"rtol": s["rtol"], "atol": s["atol"]}
    if s["exclude"]:
        kw["exclude_vars"] = list(s["exclude"])
    if s["ignored"] is not None:
        kw["ignored_attributes"] = list(s["ignored"])
    kept = {k: list(v) for k, v in kw.items() if isinstance(v, list)}

    def go():
        r = s["reporter"]
        if r == "cli" and not s["exclude"]:
            args = [str(pa), str(pb), repr(s["rtol"]), repr(s["atol"])]
            if s["ignored"] is not None:
                args.append("--ignored-attributes=" + ",".join(s["ignored"]))
            with contextlib.redirect_stdout(out):
                return simlib.load_cli().main.cli("improver", "compare", *args)
        reporter = {"raise": None, "custom": custom}.get(r, collect)
        return mod.compare_netcdfs(T(pa), T(pb), reporter=reporter, **kw)

    so = sys.stdout
    try:
        if s["twin"] and s["reporter"] in ("collect", "raise") and not f:
            other = []
            sched = Sched(s["switches"], max_steps=100000, st=st, trace_filter=lambda fn: fn == MOD)
            t = sched.spawn(go, "compare")
            sched.spawn(lambda: plain.compare_netcdfs(pb, pa, rtol=1e-3, atol=0.0, reporter=other.append), "other")
            sched.run()
            exc = t.exc
            st.probe("interleaved-comparisons")
        else:
            go()
    except (SimAbort, Violation):
        raise
    except BaseException as e:
        exc = e
    finally:
        sys.stdout = so
        P.undo()
    printed = out.getvalue()
    noticed = exc is not None or bool(reports) or bool(calls) or bool(printed.strip())
    fired = (ctl is not None and ctl.fired) or opened[0]
    desc = "comparison %d (%s, differences %s, rtol %g atol %g exclude %s ignored %s%s)" % (
        i, s["reporter"], kinds, s["rtol"], s["atol"], s["exclude"], s["ignored"], ", fault %s" % f if f else "")
    st.log("cmp", i, kinds, noticed, type(exc).__name__ if exc else None, len(reports))
    if broken or fired:
        must = True
        if broken and f["how"] == "truncate":
            # a truncated file may still be readable in full (padding at its end)
            must = not readable(pa, pb) or differ
        if must and not noticed:
            raise Violation("broken-file-equal", "%s: a file that could not be read compared as equal" % desc)
    elif differ and not noticed:
        raise Violation("difference-missed", "%s: no difference reported" % desc)
    elif not differ and noticed:
        raise Violation("difference-invented", "%s: reported %s" % (desc, ["%s: %s (%s)" % (type(exc).__name__, exc, where(exc))] if exc else (reports or calls or printed)[:3]))
    if s["reporter"] == "custom" and calls and not isinstance(exc, Custom) and not fired:
        raise Violation("reporter-swallowed", "%s: the reporter's exception did not reach the caller (%r)" % (desc, exc))
    if s["reporter"] == "raise" and reports:
        raise Violation("reporter-unused", desc)
    if (stat(pa), stat(pb)) != before:
        raise Violation("files-changed", "%s: comparing changed the files" % desc)
    for k, v in kept.items():
        if kw[k] != v:
            raise Violation("arguments-changed", "%s: %s became %s" % (desc, k, kw[k]))


def readable(*paths):
    from .. import cubes

    for p in paths:
        try:
            cubes.nc_dump(p)
        except Exception:
            return False
    return True
