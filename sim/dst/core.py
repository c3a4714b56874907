"""Shared pieces: violations, per-run statistics, seeds, exception classification."""
import hashlib
import random as _random
import re
import traceback

REPO = "/repo"
BASE = 1 << 48


class Violation(Exception):
    """The property under test is broken.  `kind` is the class kept while minimising."""

    def __init__(self, kind, detail, key=None):
        super().__init__("%s: %s" % (kind, detail))
        self.kind, self.detail, self.key = kind, str(detail)[:2000], key


class Unsupported(Exception):
    """The run needs something the simulator does not provide: nothing is concluded."""


class SimCrash(BaseException):
    """The simulated process dies here."""

    is_sim_crash = True


class SimAbort(BaseException):
    """Internal: unwind a task at the end of a run."""

    is_sim_crash = True


def seed_of(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def rng_of(*parts):
    return _random.Random(seed_of(*parts))


class Stats:
    """What one run did.  Never consulted by the run itself."""

    def __init__(self):
        self.faults, self.ops, self.probes = {}, {}, {}
        self.states, self.sim_time, self.notes = set(), 0.0, []
        self._h = hashlib.sha256()
        self.events = 0
        self.trace = []

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log("fault", kind)

    def op(self, kind, n=1):
        self.ops[kind] = self.ops.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def state(self, *parts):
        self.states.add(seed_of(*parts))

    def log(self, *parts):
        s = repr(parts)
        self._h.update(s.encode())
        self.events += 1
        if len(self.trace) < 400:
            self.trace.append(s)

    def digest(self):
        return self._h.hexdigest()[:16]

    def dump(self):
        return {
            "faults": self.faults, "ops": self.ops, "probes": self.probes,
            "states": sorted(self.states)[:4000], "sim_time": self.sim_time,
            "events": self.events, "digest": self.digest(), "notes": self.notes[:5],
        }


MISSING_MODULES = (
    "iris", "cartopy", "numba", "stratify", "pysteps", "pandas", "lightgbm", "treelite",
    "treelite_runtime", "statsmodels", "iris_grib", "esmf_regrid", "pytz", "xarray",
)
_attr_re = re.compile(r"(module '(iris|cartopy)[\w.]*'|'(Cube|CubeList|DimCoord|AuxCoord|Coord|CellMethod|Cell|Constraint|AncillaryVariable|CellMeasure|CoordSystem|GeogCS|[A-Z]\w*Coord)' object|type object '(Cube|CubeList|DimCoord|AuxCoord)') has no attribute")


def unsupported(exc):
    """True if `exc` only shows that the iris/cartopy stand-in lacks something real iris has."""
    seen = 0
    while exc is not None and seen < 10:
        if isinstance(exc, Unsupported) or type(exc).__name__ == "ShimUnsupported":
            return True
        if isinstance(exc, ImportError):
            name = (getattr(exc, "name", None) or "").split(".")[0]
            if name in MISSING_MODULES or any(re.search(r"\b%s\b" % m, str(exc)) for m in MISSING_MODULES):
                return True
        if isinstance(exc, AttributeError) and _attr_re.search(str(exc)):
            return True
        exc = exc.__cause__ or exc.__context__
        seen += 1
    return False


def where(exc, limit=4):
    """Short traceback text of an exception."""
    tb = traceback.extract_tb(exc.__traceback__)[-limit:]
    return "; ".join("%s:%d %s" % (f.filename.replace(REPO + "/", ""), f.lineno, f.name) for f in tb)


def in_repo(exc):
    return any(f.filename.startswith(REPO + "/improver") for f in traceback.extract_tb(exc.__traceback__))
