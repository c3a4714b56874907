"""C08: configuration files are read whole or rejected, and released."""
import builtins
import io
import json
import os
import pathlib
import shutil
import tempfile

from .. import simlib
from ..core import REPO, SimAbort, Violation, unsupported, where
from ..sched import Patcher, Sched

RUNS = {"quick": 1500, "thorough": 150000}
BATCH = 40
TECHNIQUE = "short, split, failing and early-ending reads, file rewrites between loads, refined against the stored document"
RULE = ("Each run is a history of 1-6 loads of a few paths through the loader, the command-line converter or a nested command: seeded documents stored whole, "
        "truncated, malformed or missing; reads split at random sizes, failing or ending early; documents changed by their user or rewritten on disk (same size and "
        "time stamp included) between loads; two loads interleaved.")
STATE_MEASURE = "hash of (document class, stored form, read fault, entry point)"
REAL = ["improver.utilities.cli_utilities.load_json_or_none", "improver.cli.inputjson", "json decoder"]
STUB = ["file reads (seeded sizes, errors, early end)", "the consuming command (synthetic)"]
MOD = REPO + "/improver/utilities/cli_utilities.py"
_open = builtins.open


def prepare():
    simlib.load_cli()
    import improver.utilities.cli_utilities  # noqa: F401


def doc(rng, depth=2, top=True):
    k = rng.choice(["dict", "dict", "list"]) if top else rng.choice(["dict", "list", "str", "str", "int", "float", "null", "bool", "big"])
    if depth <= 0 and k in ("dict", "list"):
        k = "int"
    if k == "dict":
        return {text(rng): doc(rng, depth - 1, False) for _ in range(rng.choice([0, 1, 2, 4]) if not top else rng.choice([0, 1, 3, 6]))}
    if k == "list":
        return [doc(rng, depth - 1, False) for _ in range(rng.choice([0, 1, 3]))]
    return {"str": text(rng), "int": rng.randrange(-9999, 9999), "float": rng.choice([0.5, -1.25e-7, 1e300, 273.15]), "null": None,
            "bool": rng.random() < 0.5, "big": text(rng) * rng.choice([1, 200, 900])}[k]


def text(rng):
    return rng.choice(["a", "name", "0.1", "key ", "\u00e9t\u00e9", "\u6c17\u6e29", "\U0001f327", "\\\"quoted\"", "tab\t", "", "value", "name", "{", "null"]) + rng.choice(["", "", str(rng.randrange(100))])


def generate(rng, idx, tier):
    steps = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        form = rng.choice(["whole"] * 8 + ["truncated", "truncated", "trailing", "missing", "empty", "dir", "badutf", "garbage", "binary"])
        r = rng.random()
        read = None
        if r < 0.3:
            read = {"kind": "short", "sizes": [rng.choice([1, 1, 2, 3, 7, 100, 4096]) for _ in range(5)]}
        elif r < 0.42:
            read = {"kind": "error", "nth": rng.choice([0, 0, 1, 2]), "errno": rng.choice(["EIO", "ESTALE", "ENOMEM"]), "sizes": [rng.choice([1, 5, 50, 5000])]}
        elif r < 0.5:
            read = {"kind": "eof", "frac": rng.random(), "sizes": [rng.choice([3, 50, 5000])]}
        elif r < 0.55:
            read = {"kind": "open", "errno": rng.choice(["EACCES", "EMFILE", "EIO"])}
        steps.append({"path": rng.randrange(2), "doc": doc(rng), "form": form, "at": rng.random(), "read": read, "via": rng.choice(["load", "load", "converter", "cli"]),
                      "ptype": rng.choice(["str", "str", "Path"]), "indent": rng.choice([None, 1, 4]), "ascii": rng.random() < 0.3,
                      "keep": rng.random() < 0.25, "user": rng.random() < 0.5, "same_stat": rng.random() < 0.4, "twin": rng.random() < 0.1,
                      "absent": rng.choice([None, None, None, None, None, None, "none", "empty"])})
    return {"steps": steps}


def shrink(p):
    S = p["steps"]
    for i in range(len(S)):
        if len(S) > 1:
            yield dict(p, steps=S[:i] + S[i + 1:])
    for i, s in enumerate(S):
        def put(x):
            return dict(p, steps=S[:i] + [x] + S[i + 1:])
        for k, v in (("read", None), ("twin", False), ("via", "load"), ("ptype", "str"), ("form", "whole"), ("user", False), ("same_stat", False), ("doc", {"a": 1})):
            if s[k] != v:
                yield put(dict(s, **{k: v}))


class Raw(io.RawIOBase):
    def __init__(self, path, plan, st):
        self.f = _open(path, "rb", buffering=0)
        self.plan, self.st, self.n, self.pos = plan, st, 0, 0
        self.size = os.fstat(self.f.fileno()).st_size
        self.name = path

    def readable(self):
        return True

    def fileno(self):
        return self.f.fileno()

    def seekable(self):
        return True

    def seek(self, *a):
        self.pos = self.f.seek(*a)
        return self.pos

    def tell(self):
        return self.f.tell()

    def readinto(self, b):
        p = self.plan
        self.n += 1
        want = min(len(b), p["sizes"][self.n % len(p["sizes"])])
        if p["kind"] == "error" and self.n - 1 >= p["nth"]:
            self.st.fault("read-" + p["errno"])
            p["fired"] = True
            import errno

            raise OSError(getattr(errno, p["errno"]), os.strerror(getattr(errno, p["errno"])), self.name)
        if p["kind"] == "eof":
            cut = int(p["frac"] * self.size)
            if self.pos >= cut:
                self.st.fault("early-eof")
                p["fired"] = cut
                return 0
            want = min(want, cut - self.pos)
        else:
            self.st.fault("short-read") if want < len(b) and self.pos + want < self.size else None
        d = self.f.read(want)
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def close(self):
        self.f.close()
        super().close()


def stored(s):
    body = json.dumps(s["doc"], indent=s["indent"], ensure_ascii=s["ascii"]).encode("utf-8")
    form = s["form"]
    if form == "truncated":
        return body[: int(s["at"] * (len(body) - 1))]
    if form == "trailing":
        return body + b" {}"
    if form == "empty":
        return b""
    if form == "garbage":
        return b"# not json\n" + body
    if form == "badutf":
        return b'{"a": "\xff\xfe"}'
    if form == "binary":
        return b"\x89HDF\r\n\x1a\n" + bytes(range(40))
    return body


def execute(plan, st):
    simlib.load_cli()
    root = tempfile.mkdtemp(prefix="dst-c08-")
    try:
        for i, s in enumerate(plan["steps"]):
            step(i, s, root, st)
    finally:
        simlib.reset()
        shutil.rmtree(root, ignore_errors=True)


def show(e):
    return "%s: %s (%s)" % (type(e).__name__, str(e)[:200], where(e))


def step(i, s, root, st):
    from improver.utilities.cli_utilities import load_json_or_none

    cli = simlib.load_cli()
    p = os.path.join(root, "config%d.json" % s["path"])
    old = os.stat(p) if os.path.isfile(p) else None
    if os.path.isdir(p):
        os.rmdir(p)
    keep = s["keep"] and os.path.isfile(p)
    if not keep:
        if os.path.exists(p):
            os.remove(p) if not s["same_stat"] else None
        if s["form"] == "missing":
            if os.path.exists(p):
                os.remove(p)
        elif s["form"] == "dir":
            if os.path.exists(p):
                os.remove(p)
            os.mkdir(p)
        else:
            data = stored(s)
            if s["same_stat"] and old is not None and s["form"] == "whole" and len(data) <= old.st_size:
                data = data + b" " * (old.st_size - len(data))
            with _open(p, "wb") as f:
                f.write(data)
            if s["same_stat"] and old is not None:
                os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))
    want, bad = None, True
    if os.path.isfile(p):
        with _open(p, "rb") as f:
            data = f.read()
        try:
            want, bad = json.loads(data.decode("utf-8")), False
        except ValueError:
            pass
    read = dict(s["read"]) if s["read"] else None
    if s["absent"]:
        read = None
    handles = []
    P = Patcher()

    def sim_open(file, mode="r", *a, **k):
        if isinstance(file, int) or os.path.abspath(os.fspath(file)) != p or any(c in mode for c in "wax+"):
            return _open(file, mode, *a, **k)
        if read and read["kind"] == "open":
            st.fault("open-" + read["errno"])
            import errno

            read["fired"] = True
            raise OSError(getattr(errno, read["errno"]), os.strerror(getattr(errno, read["errno"])), p)
        if read is None or read["kind"] == "open":
            f = _open(file, mode, *a, **k)
        else:
            raw = Raw(p, read, st)
            buf = io.BufferedReader(raw, 8192)
            f = buf
            if "b" not in mode:
                f = io.TextIOWrapper(buf, encoding=k.get("encoding", a[1] if len(a) > 1 else None), errors=k.get("errors"), newline=k.get("newline"))
        handles.append(f)
        return f

    before = (_open(p, "rb").read() if os.path.isfile(p) else None)
    P.set(builtins, "open", sim_open)
    P.set(io, "open", sim_open)
    path = pathlib.Path(p) if s["ptype"] == "Path" else p
    via = s["via"]
    if s["absent"]:
        path, want, bad = (None if s["absent"] == "none" else ""), None, False

    def load():
        if via == "load" or s["absent"] == "none":
            return load_json_or_none(path)
        if via == "converter":
            return cli.inputjson(str(path))
        simlib.reset()
        simlib.HOOK = None
        cli.main("improver", "sim-apply", "[", "sim-make", "--tag=m", "]", "--tag=a", "--config=" + str(path))
        return simlib.RECEIVED["a"][1]

    st.op("load:" + via)
    st.state(type(s["doc"]).__name__, len(s["doc"]) if want is not None else -1, s["form"], s["read"] and s["read"]["kind"], via, s["twin"])
    got = err = None
    try:
        if s["twin"] and not read and not s["absent"]:
            sched = Sched([[3, 0], [6, 0], [9, 0]], max_steps=100000, st=st, trace_filter=lambda fn: fn == MOD)
            t = sched.spawn(load, "a")
            u = sched.spawn(lambda: load_json_or_none(path), "b")
            sched.run()
            got, err = t.result, t.exc
            if err is None and not bad and (u.exc is not None or not same(u.result, want)):
                raise Violation("wrong-document", "load %d, second of two at once: %r" % (i, u.exc or u.result))
        else:
            got = load()
    except (SimAbort, Violation):
        raise
    except BaseException as e:
        err = e
    finally:
        P.undo()
    if err is not None and unsupported(err):
        raise err
    desc = "load %d via %s of a %s document (%s)" % (i, via, "kept" if keep else s["form"], json.dumps(s["read"]))
    st.log("load", i, via, s["form"], type(err).__name__ if err else None)
    open_ = [h for h in handles if not h.closed]
    if open_:
        raise Violation("left-open", "%s: the file is still open%s" % (desc, " after %s" % show(err) if err else ""))
    fired = read.get("fired") if read else None
    cut_ok = False
    if fired is not None and fired is not False:
        if read["kind"] == "eof":
            # what was delivered may itself be a complete document (only blanks were cut)
            try:
                d = json.loads(data[:fired].decode("utf-8"))
                cut_ok = same(d, want)
                if not cut_ok:
                    want, cut_ok = d, True
            except ValueError:
                cut_ok = False
        bad = not cut_ok
    if bad:
        if err is None:
            raise Violation("bad-file-accepted", "%s: gave %s instead of an error" % (desc, json.dumps(got)[:200]))
        if not isinstance(err, Exception):
            raise Violation("bad-file-accepted", "%s: %r" % (desc, err))
    elif err is not None:
        if via == "cli" and want is not None and not isinstance(want, dict):
            return  # the consuming command has no use for a list
        if via == "cli" and isinstance(want, dict) and not isinstance(want.get("value", 1), (int, float)):
            return
        raise Violation("good-file-rejected", "%s: %s" % (desc, show(err)))
    elif not same(got, want):
        raise Violation("wrong-document", "%s: got %s, stored %s" % (desc, json.dumps(got)[:300], json.dumps(want)[:300]))
    else:
        st.probe("good-loads")
    if (_open(p, "rb").read() if os.path.isfile(p) else None) != before:
        raise Violation("file-changed", desc)
    if s["user"] and err is None and got is not None:
        spoil(got)
        st.probe("documents-changed-by-user")


def same(a, b):
    if type(a) is not type(b):
        # a mapping type of its own is as good as a dict
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def spoil(x):
    if isinstance(x, dict):
        for k in list(x):
            spoil(x[k])
        if x:
            x.pop(next(iter(x)))
        x["spoiled"] = True
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("spoiled")
