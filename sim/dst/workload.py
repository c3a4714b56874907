"""Workloads: calls of real IMPROVER plugins and functions, and what they give in a pristine process.

A record is one call: recorded from the repository's own tests (sim/corpus) or generated from a seed.
Baselines are computed by a zygote: a process forked before any call was made, which forks a fresh
child for every question.
"""
import ctypes
import functools
import hashlib
import importlib
import inspect
import os
import pickle
import random
import re
import signal
import socket
import struct
import sys
import tempfile
import threading
import warnings
import zlib

import numpy as np

from . import canon
from .core import REPO, Unsupported, unsupported
from .sched import SimCondition, SimEvent, SimLock, SimRLock, SimSemaphore

HERE = os.path.dirname(os.path.abspath(__file__))
CORPUS = os.path.join(os.path.dirname(HERE), "corpus")
_records = None
_stamp = re.compile(r"\d{4}-\d\d-\d\dT[\d:]+(\.\d+)?(Z|[+-][\d:]+)?")


# ------------------------------------------------------------------ records
class Rec:
    __slots__ = ("rid", "kind", "path", "ok", "blob", "_p")

    def __init__(self, rid, kind, path, ok, blob):
        self.rid, self.kind, self.path, self.ok, self.blob = rid, kind, path, ok, blob

    @property
    def group(self):
        return self.path

    @property
    def family(self):
        return self.path.rsplit(".", 1)[0]


def _load(name):
    with open(os.path.join(CORPUS, name), "rb") as f:
        return pickle.loads(zlib.decompress(f.read()))


# results that are views of their inputs by documented design, or not functions of their inputs
SKIP = set()


def table():
    """All records by id, in a fixed order."""
    global _records
    if _records is None:
        t = {}
        for kind, name in (("P", "plugins.pkl.z"), ("F", "functions.pkl.z")):
            for path, d in sorted(_load(name).items()):
                short = path.rsplit(".", 1)[1]
                if kind == "F" and (short.startswith("_") or short == "load_cube"):
                    continue
                for ok in ("ok", "bad"):
                    for i, b in enumerate(d[ok]):
                        rid = "%s:%s:%s%d" % (kind, path[len("improver."):], ok, i)
                        t[rid] = Rec(rid, kind, path, ok == "ok", b)
        for g in sorted(GEN):
            for s in range(GEN_SEEDS):
                rid = "G:%s:%d" % (g, s)
                t[rid] = Rec(rid, "G", GEN[g][0], True, (g, s))
        _records = t
    return _records


def by_path(ok=None, kinds="PFG"):
    out = {}
    for r in table().values():
        if r.kind in kinds and (ok is None or r.ok == ok):
            out.setdefault(r.path, []).append(r.rid)
    return out


def pick(rng, ok=True, kinds="PFG", groups=None):
    """A record: first its class or function, then one of its calls.  Plugins count more."""
    groups = groups or grouped(ok, kinds)
    k = rng.random()
    kind = "P" if k < 0.6 else "F" if k < 0.85 else "G"
    if kind not in kinds:
        kind = kinds[0]
    paths = groups[kind]
    return rng.choice(paths[rng.choice(sorted(paths))])


@functools.lru_cache(None)
def grouped(ok=True, kinds="PFG"):
    out = {k: {} for k in "PFG"}
    for r in table().values():
        if (ok is None or r.ok == ok):
            out[r.kind].setdefault(r.path, []).append(r.rid)
    return out


def turn(idx, cycle):
    """Class or function whose turn it is in run idx: every one is visited equally often, kinds as in `cycle`."""
    q, r = divmod(idx, len(cycle))
    kind = cycle[r]
    n = q * cycle.count(kind) + cycle[:r].count(kind)
    paths = turn_order(kind)
    return kind, paths[n % len(paths)]


@functools.lru_cache(None)
def turn_order(kind):
    return sorted(grouped(True)[kind], key=lambda p: hashlib.md5(p.encode()).hexdigest())


def resolve(path):
    mod, name = path.rsplit(".", 1)
    try:
        m = importlib.import_module(mod)
    except ImportError as e:
        raise Unsupported("module %s: %s" % (mod, e))
    try:
        return getattr(m, name)
    except AttributeError:
        raise Unsupported("%s has no %s any more" % (mod, name))


_GEN_BLOBS = {}  # generated arguments, pickled; empty where they cannot be


class Call:
    """One call, rebuilt from scratch."""

    def __init__(self, rec):
        self.rec = rec
        if rec.kind == "P":
            self.path, init, args = pickle.loads(rec.blob)
            self.cls = resolve(rec.path)
            self.init = pickle.loads(init)
            self.args, self.kwargs = pickle.loads(args)
        elif rec.kind == "F":
            _, args = pickle.loads(rec.blob)
            self.fn = resolve(rec.path)
            self.args, self.kwargs = pickle.loads(args)
        else:
            g, s = rec.blob
            self.fn = resolve(rec.path)
            wrap, build = GEN[g][1], GEN[g][2]
            blob = _GEN_BLOBS.get(rec.rid)
            if blob:
                self.args, self.kwargs = pickle.loads(blob)
            else:
                r = random.Random(s * 7919 + 5)
                # neighbouring seeds share their array and differ in the options
                r.lay = s % 6 // 4 * (1 + s % 2)  # of 6 with the same array, 2 have another layout in memory
                r.arr = random.Random(s // 6 * 7919 + 7), np.random.RandomState(s // 6 + 13)
                self.args, self.kwargs = build(r, np.random.RandomState(s + 11))
                if blob is None:
                    try:
                        _GEN_BLOBS[rec.rid] = pickle.dumps((self.args, self.kwargs), 4)
                        # like every later one (layouts that pickling changes included)
                        self.args, self.kwargs = pickle.loads(_GEN_BLOBS[rec.rid])
                    except Exception:
                        _GEN_BLOBS[rec.rid] = b""
            if wrap is not None:
                f = self.fn
                self.fn = lambda *a, **k: wrap(f, *a, **k)

    def target(self):
        """What is called: a new plugin instance or the function."""
        if self.rec.kind == "P":
            a, k = self.init
            try:
                obj = self.cls(*a, **k)
            except TypeError as e:
                raise Unsupported("%s(...): %s" % (self.rec.path, e))
            except Exception as e:
                if unsupported(e):
                    raise
                raise Unsupported("%s cannot be built: %s" % (self.rec.path, e))
            if not hasattr(obj, "process"):
                raise Unsupported("%s has no process method" % self.rec.path)
            return obj
        return self.fn


def build(rid, vary=None):
    """vary: None, [kind, seed] or a list of such, applied in turn."""
    c = Call(table()[rid])
    for v in ([vary] if vary and isinstance(vary[0], str) else vary or ()):
        if v:
            apply_vary((c.args, c.kwargs), v)
    return c


def signature_problem(e):
    return isinstance(e, TypeError) and re.search(r"(got an unexpected keyword|missing \d+ required|takes .* positional argument|positional arguments? but)", str(e)) is not None


def outcome(fn, args, kwargs, seed=12345, raw=False):
    """Canonical result of one call with the process-wide random streams at a fixed point."""
    np.random.seed(seed)
    random.seed(seed)
    real = np.random.RandomState, np.random.default_rng
    fresh = random.Random(seed)

    def state(s=None):
        return real[0](fresh.randrange(2 ** 31) if s is None else s)

    def rng(s=None):
        return real[1](fresh.randrange(2 ** 31) if s is None else s)

    try:
        # generators without a seed draw it from the operating system: here from the run's seed
        np.random.RandomState, np.random.default_rng = state, rng
        return plain_outcome(fn, args, kwargs, raw)
    finally:
        np.random.RandomState, np.random.default_rng = real


def plain_outcome(fn, args, kwargs, raw=False):
    try:
        r = fn(*args, **kwargs)
        if inspect.isgenerator(r):
            r = list(r)
    except Unsupported:
        raise
    except Exception as e:
        if unsupported(e) or signature_problem(e):
            raise Unsupported("%s: %s" % (type(e).__name__, str(e)[:200]))
        return (("exc", type(e).__name__), e) if raw else ("exc", type(e).__name__)
    res = ("ok", result(r))
    return (res, r) if raw else res


def result(r):
    try:
        c = canon.canon(r)
    except Exception as e:
        if unsupported(e):
            raise Unsupported(str(e))
        return ("unreadable", type(e).__name__)
    return hide(c)


def hide(c):
    """Creation time stamps blanked (only D03 looks at them)."""
    if type(c) is tuple:
        if len(c) == 2 and c[0] == "history" and type(c[1]) is tuple and len(c[1]) == 2 and isinstance(c[1][1], str):
            return ("history", (c[1][0], _stamp.sub("<stamp>", c[1][1])))
        if c and c[0] == "nd":
            return c
        return tuple(hide(x) for x in c)
    return c


def diff(a, b, rtol=1e-6, atol=1e-9):
    if a[0] != b[0]:
        return "%s instead of %s" % (show(b), show(a))
    if a[0] == "exc":
        return None if a[1] == b[1] else "%s instead of %s" % (show(b), show(a))
    return canon.diff(a[1], b[1], rtol, atol)


def show(o):
    return "a result" if o[0] == "ok" else "%s" % (o[1],)


# ------------------------------------------------------------------ variations of the inputs
def cubes_in(x, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if id(x) in seen:
        return out
    seen.add(id(x))
    if hasattr(x, "coord_dims") and hasattr(x, "cell_methods"):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            cubes_in(v, out, seen)
    elif isinstance(x, dict):
        for v in x.values():
            cubes_in(v, out, seen)
    return out


def arrays_in(x, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if id(x) in seen:
        return out
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays_in(v, out, seen)
    elif isinstance(x, dict):
        for v in x.values():
            arrays_in(v, out, seen)
    return out


def apply_vary(x, how):
    """Change the inputs x in place.  how: [kind, seed]; the same objects keep their identity."""
    kind, seed = how
    for c in cubes_in(x):
        try:
            if kind in ("flip", "roll", "noise"):
                d = c.data
                new = _change(d, kind, seed)
                if new is None:
                    continue
                if isinstance(d, np.ndarray) and d.flags.writeable and not np.ma.isMaskedArray(d) and new.dtype == d.dtype:
                    d[...] = new
                else:
                    c.data = new
            elif kind == "shift":
                for ax in ("x", "y"):
                    for co in c.coords(axis=ax, dim_coords=True):
                        if len(co.points) > 1 and co.points.dtype.kind == "f":
                            step = np.asarray(co.points).dtype.type(0.25 * (1 + seed % 3)) * (co.points[1] - co.points[0])
                            p = (co.points + step).astype(co.points.dtype)
                            b = None if co.bounds is None else (co.bounds + step).astype(co.bounds.dtype)
                            co.bounds = None
                            co.points = p
                            if b is not None:
                                co.bounds = b
            elif kind == "rename":
                _rename(c)
            elif kind == "time":
                for name in ("time", "forecast_reference_time"):
                    for co in c.coords(name):
                        step = co.points.dtype.type(seed % 3 + 1) * (86400 if "seconds" in str(co.units) else 24)
                        b = None if co.bounds is None else (co.bounds + step).astype(co.bounds.dtype)
                        co.bounds = None
                        co.points = (co.points + step).astype(co.points.dtype)
                        if b is not None:
                            co.bounds = b
            elif kind == "title":
                c.attributes["title"] = "varied %d" % seed
        except Exception as e:
            if unsupported(e):
                raise
    if kind in ("flip", "roll", "noise"):
        for a in arrays_in(x):
            new = _change(a, kind, seed)
            if new is not None and a.flags.writeable:
                try:
                    a[...] = new
                except Exception:
                    pass


def _rename(c):
    """Another diagnostic of the same kind."""
    name = c.name()
    for co in c.coords():
        if co.var_name == "threshold" and co.name() in name:
            old = co.name()
            co.rename(old + "_alt")
            co.var_name = "threshold"
            c.rename(name.replace(old, old + "_alt"))
            return
    c.rename(name + "_alt")


def _change(d, kind, seed):
    if d.dtype.kind not in "fiub" or d.size < 2 or d.ndim == 0:
        return None
    if kind == "flip":
        return d[..., ::-1].copy()
    if kind == "roll":
        return np.roll(d, 1 + seed % 3, axis=-1).copy() if not np.ma.isMaskedArray(d) else np.ma.masked_array(
            np.roll(d.data, 1 + seed % 3, axis=-1), np.roll(np.ma.getmaskarray(d), 1 + seed % 3, axis=-1))
    if d.dtype.kind != "f":
        return None
    r = np.random.RandomState(seed).uniform(-1, 1, d.shape)
    lo, hi = (np.nanmin(d), np.nanmax(d)) if np.isfinite(np.asarray(d)).any() else (0, 0)
    new = d + (0.03 * (hi - lo) * r).astype(d.dtype)
    return np.clip(new, lo, hi).astype(d.dtype) if not np.ma.isMaskedArray(d) else np.ma.clip(new, lo, hi).astype(d.dtype)


VARY = ("flip", "roll", "noise", "shift", "title", "rename", "time")


def random_vary(rng):
    return None if rng.random() < 0.4 else [rng.choice(VARY), rng.randrange(4)]


# ------------------------------------------------------------------ generated calls of array helpers
GEN_SEEDS = 36
GEN = {}


def gen(path, wrap=None, name=None):
    def deco(f):
        GEN[name or f.__name__] = (path, wrap, f)
        return f
    return deco


SHAPES = {1: [(5,), (6,)], 2: [(4, 5), (4, 5), (5, 5), (6, 3)], 3: [(3, 4, 5), (2, 5, 5)]}


def _arr(r, n, dims=None, kind=None):
    turn = getattr(r, "lay", 0)
    r, n = r.arr
    dims = r.choice(dims or [1, 2, 2, 3])
    shape = r.choice(SHAPES[dims])
    kind = kind or r.choice(["f4", "f4", "f8", "f8", "i4", "i8"])
    a = n.uniform(-20, 20, shape)
    a = a.astype(kind)
    lay = (["c", "f", "strided"] * 2)[r.choice([0, 0, 1, 2]) + turn]
    if lay == "f":
        a = np.asfortranarray(a)
    elif lay == "strided":
        big = np.zeros(tuple(2 * s for s in shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in shape)]
        v[...] = a
        a = v
    if r.random() < 0.2 and a.dtype.kind == "f":
        a.flat[r.randrange(a.size)] = np.nan
    return a


@gen("improver.utilities.round.round_close")
def g_round(r, n):
    k = r.random()
    a = np.round(n.uniform(-50, 50, r.randrange(1, 9))) + (n.uniform(-2e-8, 2e-8) if k < 0.8 else 0.2)
    if r.random() < 0.4:
        a = np.round(n.uniform(-50, 50, (2, 3))).astype("f4") * np.float32(1 + 4e-7)
    if r.random() < 0.3:
        a = float(a.flat[0])
    return (a,), ({} if r.random() < 0.5 else {"dtype": r.choice([np.int32, np.int64])})


@gen("improver.utilities.neighbourhood_tools.rolling_window", wrap=lambda f, *a, **k: np.array(f(*a, **k)))
def g_rolling(r, n):
    a = _arr(r, n)
    d = r.randrange(1, a.ndim + 1)
    return (a, tuple(r.choice([1, 2, 3, 3, 9]) for _ in range(d))), {}


@gen("improver.utilities.neighbourhood_tools.pad_and_roll", wrap=lambda f, *a, **k: np.array(f(*a, **k)))
def g_padroll(r, n):
    a = _arr(r, n)
    d = r.randrange(1, a.ndim + 1)
    k = r.choice([{}, {"mode": "reflect"}, {"mode": "constant"}, {"mode": "edge"}, {"mode": "mean"}, {"mode": "constant", "constant_values": 3}, {"writeable": True}, {"mode": "constant", "constant_values": [5, 2]}])
    k = {x: list(v) if isinstance(v, list) else v for x, v in k.items()}
    return (a, tuple(r.choice([1, 3, 5]) for _ in range(d))), dict(k)


@gen("improver.utilities.neighbourhood_tools.pad_boxsum")
def g_padbox(r, n):
    return (_arr(r, n, dims=[2, 3]), r.choice([1, 3, 5, (3, 5), np.array([3, 1])])), dict(r.choice([{}, {"mode": "edge"}, {"mode": "constant"}, {"mode": "reflect"}, {"mode": "constant", "constant_values": 2}]))


@gen("improver.utilities.neighbourhood_tools.boxsum")
def g_boxsum(r, n):
    b = r.choice([1, 3, 3, 5, (3, 5), (1, 3), [3, 3], 2, 3.0, np.array([3, 3])])
    k = dict(r.choice([{}, {}, {"mode": "edge"}, {"mode": "edge"}, {"mode": "constant"}, {"mode": "reflect"}, {"mode": "constant", "constant_values": 1}]))
    if r.random() < 0.3:
        k["cumsum"] = False
    return (_arr(r, n, dims=[2, 2, 3]), b), k


@gen("improver.utilities.indexing_operations.choose")
def g_choose(r, n):
    a = _arr(r, n, dims=[1, 2, 3])
    i = n.randint(0, a.shape[0], a.shape)
    if r.random() < 0.1:
        i.flat[0] = a.shape[0] + 1
    elif r.random() < 0.25:
        i.flat[-1] = -1
    return (i, a), {}


@gen("improver.utilities.complex_conversion.deg_to_complex")
def g_d2c(r, n):
    a = n.uniform(-360, 720, (2, 3, 3)).astype(r.choice(["f4", "f8"]))
    return (a if r.random() < 0.8 else float(a[0, 0, 0]),), ({} if r.random() < 0.5 else {"radius": n.uniform(0, 5, (2, 3, 3)).astype("f4")})


@gen("improver.utilities.complex_conversion.complex_to_deg")
def g_c2d(r, n):
    a = n.uniform(-3, 3, (2, 3, 3)) + 1j * n.uniform(-3, 3, (2, 3, 3))
    if r.random() < 0.3:
        a.flat[r.randrange(a.size)] = r.choice([0, 1e-9, np.nan])
    return (a if r.random() < 0.9 else 3j,), {}


@gen("improver.utilities.flatten.flatten", wrap=lambda f, *a, **k: list(f(*a, **k)))
def g_flatten(r, n):
    def mk(d):
        if d == 0 or r.random() < 0.4:
            return r.choice([1, "abc", b"x", None, 2.5, "de"])
        x = [mk(d - 1) for _ in range(r.randrange(0, 4))]
        return r.choice([list, tuple])(x)
    return (mk(4),), {}


@gen("improver.nbhood.radius_by_lead_time")
def g_radii(r, n):
    k = r.choice([1, 1, 2, 3])
    radii = [str(r.randrange(1000, 9000)) for _ in range(k)]
    lt = None if r.random() < 0.4 else [str(r.randrange(0, 48)) for _ in range(k if r.random() < 0.8 else k + 1)]
    return (radii,), ({} if lt is None else {"lead_times": lt})


@gen("improver.spotdata.utilities.get_neighbour_finding_method_name")
def g_nbname(r, n):
    return (r.random() < 0.5, r.random() < 0.5), {}


@gen("improver.synthetic_data.utilities.get_leading_dimension")
def g_lead(r, n):
    d = {}
    for k in ("realizations", "percentiles", "thresholds"):
        if r.random() < 0.4:
            d[k] = [float(r.randrange(9)) for _ in range(3)]
    d["unused"] = [1]
    return (d,), {}


@gen("improver.synthetic_data.utilities.get_height_levels")
def g_height(r, n):
    d = {k: [float(r.randrange(9)) for _ in range(3)] for k in ("heights", "pressures") if r.random() < 0.5}
    return (d,), {}


def _tn(r, n):
    a = n.uniform(-3, 1, 4)
    return a, a + n.uniform(0.5, 3, 4)


for _m in ("ppf", "cdf", "pdf", "logpdf"):
    def _b(r, n, m=_m):
        a, b = _tn(r, n)
        x = n.uniform(0.01, 0.99, 4) if m == "ppf" else a + (b - a) * n.uniform(-0.2, 1.2, 4)
        return (x, a, b), ({} if r.random() < 0.5 else {"loc": 2.0, "scale": n.uniform(0.5, 3, 4)} if m != "ppf" else {"loc": 1.0})
    GEN["truncnorm_" + _m] = ("improver.ensemble_copula_coupling._scipy_continuous_distns.truncnorm",
                              (lambda m: lambda f, *a, **k: getattr(f, m)(*a, **k))(_m), _b)


from . import generated  # noqa: E402,F401  (more of them)


# ------------------------------------------------------------------ importing
def load_all(extra=()):
    """Import everything once, with any module-level locks of IMPROVER under the scheduler's control."""
    import scipy.interpolate, scipy.ndimage, scipy.optimize, scipy.signal, scipy.spatial, scipy.stats  # noqa: F401,E401
    import netCDF4, cftime, cf_units, iris, iris.cube, iris.util, iris.analysis, json, queue, tempfile as _t  # noqa: F401,E401
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    saved = {n: getattr(threading, n) for n in ("Lock", "RLock", "Event", "Condition", "Semaphore", "BoundedSemaphore")}
    frl = functools.RLock
    try:
        threading.Lock, threading.RLock, threading.Event, threading.Condition = SimLock, SimRLock, SimEvent, SimCondition
        threading.Semaphore = threading.BoundedSemaphore = SimSemaphore
        functools.RLock = SimRLock
        import pkgutil

        import improver

        for m in pkgutil.walk_packages(improver.__path__, "improver."):
            if ".cli" in m.name or m.name.endswith("__main__"):
                continue
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass
    finally:
        for n, v in saved.items():
            setattr(threading, n, v)
        functools.RLock = frl
    table()


# ------------------------------------------------------------------ the zygote
class Zygote:
    """Answers questions in freshly forked children of a process that made no call."""

    def __init__(self, answer, n=8):
        self.children = [self] + [Zygote(answer, 0) for _ in range(n - 1)] if n else [self]
        self.dir = tempfile.mkdtemp(prefix="dst-z-")
        self.path = os.path.join(self.dir, "s")
        self.srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.srv.bind(self.path)
        self.srv.listen(64)
        self.owner = os.getpid()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self._serve(answer)
            finally:
                os._exit(0)
        self.srv.close()
        self.cache = {}
        import atexit

        atexit.register(self.close)

    def _serve(self, answer):
        try:
            ctypes.CDLL(None).prctl(1, 9)  # die with the parent
        except Exception:
            pass
        dn = os.open(os.devnull, os.O_RDWR)
        if not os.environ.get("DST_DEBUG"):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        os.dup2(dn, 0)
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        self.srv.settimeout(2.0)
        while True:
            if os.getppid() != self.owner:
                os._exit(0)
            try:
                c, _ = self.srv.accept()
            except socket.timeout:
                continue
            if os.fork():
                c.close()
                continue
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            self.srv.close()
            c.settimeout(None)
            try:
                q = pickle.loads(_recv(c))
                try:
                    a = ("ok", answer(q))
                except Unsupported as e:
                    a = ("unsupported", str(e)[:300])
                except BaseException as e:
                    a = ("unsupported" if unsupported(e) else "error", "%s: %s" % (type(e).__name__, str(e)[:300]))
                _send(c, pickle.dumps(a, 2))
            finally:
                os._exit(0)

    def ask(self, q):
        key = repr(q)
        if key not in self.cache and not self._stored(key):
            c = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            try:
                c.connect(self.children[os.getpid() % len(self.children)].path)
                _send(c, pickle.dumps(q, 2))
                b = _recv(c)
                self.cache[key] = pickle.loads(b)
            finally:
                c.close()
            if len(b) < 300000:
                f = self._file(key)
                tmp = "%s.%d" % (f, os.getpid())
                with open(tmp, "wb") as out:
                    out.write(b)
                os.rename(tmp, f)
        s, a = self.cache[key]
        if s == "unsupported":
            raise Unsupported(a)
        if s == "error":
            raise RuntimeError("baseline: " + a)
        return a

    def _file(self, key):
        return os.path.join(self.dir, hashlib.sha256(key.encode()).hexdigest()[:24])

    def _stored(self, key):
        try:
            with open(self._file(key), "rb") as f:
                self.cache[key] = pickle.loads(f.read())
            return True
        except FileNotFoundError:
            return False

    def close(self):
        if os.getpid() == self.owner and self.pid:
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass
            self.pid = 0
            import shutil

            shutil.rmtree(self.dir, ignore_errors=True)


def _send(c, b):
    c.sendall(struct.pack("<Q", len(b)) + b)


def _recv(c):
    def get(n):
        out = b""
        while len(out) < n:
            x = c.recv(min(1 << 20, n - len(out)))
            if not x:
                raise EOFError("connection closed")
            out += x
        return out
    return get(struct.unpack("<Q", get(8))[0])


def pristine(q):
    """Default question: (rid, vary) -> outcome of the call in this process."""
    rid, vary = q
    c = build(rid, vary)
    return outcome(c.target(), c.args, c.kwargs)


# ------------------------------------------------------------------ interruption at an exact line
class Interrupter:
    """Trace of the lines executed in /repo/improver: counts them, or raises at the n-th."""

    def __init__(self, at=None, exc=None, filt=None, sig=None):
        self.n, self.at, self.exc, self.fired, self.where = 0, at, exc, False, None
        self.filt = filt or (lambda fn: fn.startswith(REPO + "/improver"))
        self.spots = None  # when counting: {line: [first step, last step]}
        self.sig, self.steady, self.unsteady = sig, None, {}  # unsteady: {transient state: last step showing it}

    def _call(self, frame, event, arg):
        return self._line if self.filt(frame.f_code.co_filename) else None

    def _line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.spots is not None:
                k = (frame.f_code.co_filename, frame.f_lineno)
                v = self.spots.get(k)
                if v is None:
                    self.spots[k] = [self.n, self.n]
                else:
                    v[1] = self.n
                if self.sig is not None:
                    g = self.sig()
                    if g != self.steady:
                        self.unsteady[repr(g)] = self.n
            if self.n == self.at and not self.fired:
                self.fired = True
                self.where = "%s:%d" % (frame.f_code.co_filename.replace(REPO + "/", ""), frame.f_lineno)
                sys.settrace(None)
                raise self.exc
        return self._line

    def __enter__(self):
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def state_of(path, fn):
    """Cheap signature of the state a call may leave behind: instance attributes, module tables, caches."""
    mod = sys.modules.get(path.rsplit(".", 1)[0])
    pool = [v for k, v in sorted(vars(mod).items()) if type(v) in (dict, list, set) and not k.startswith("__")] if mod else []
    caches = [v for v in vars(mod).values() if hasattr(v, "cache_info")] if mod else []
    for k in type(fn).__mro__:
        if k.__module__.startswith("improver"):
            pool += [v for n, v in sorted(vars(k).items()) if type(v) in (dict, list, set)]
            caches += [v for v in vars(k).values() if hasattr(v, "cache_info")]

    def one(v):
        if hasattr(v, "shape"):
            return (type(v), v.shape)
        try:
            return (type(v), len(v))
        except TypeError:
            return v if isinstance(v, (int, float, bool, type(None))) else type(v)

    def sig():
        d = getattr(fn, "__dict__", {})
        return ([(k, one(d[k])) for k in d], [len(v) for v in pool], [v.cache_info().currsize for v in caches])
    return sig


def pristine_lines(rid):
    """-> outcome, spots of a first call, its steps, spots of a second call on the same instance, its steps, its transient states."""
    c = build(rid)
    fn = c.target()
    t = Interrupter()
    t.spots = {}
    with t:
        o = outcome(fn, c.args, c.kwargs)
    c = build(rid)
    t2 = Interrupter(sig=state_of(c.rec.path, fn))
    t2.spots = {}
    t2.steady = t2.sig()
    with t2:
        outcome(fn, c.args, c.kwargs)
    return o, list(t.spots.values()), t.n, list(t2.spots.values()), t2.n, sorted(t2.unsteady.values())


def step_at(spots, n, at, occ, unsteady=()):
    """Executed step chosen by `at` in [0, 1): first or last execution of a source line, the end of a transient state, or any step."""
    if not spots:
        return 1
    if occ == "any":
        return 1 + int(at * n)
    if occ == "state" and unsteady:
        return unsteady[int(at * len(unsteady))]
    return spots[int(at * len(spots))][0 if occ == "first" else 1]
