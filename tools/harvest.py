"""pytest plugin: record real plugin invocations made by the repository's own tests as simulator workloads.

Usage (development only; the recorded corpus is committed):
  HARVEST_OUT=/tmp/h pytest -p harvest ...   (with /verif/tools on PYTHONPATH)
Each record is (class path, init args, call args, wall seconds), pickled.
"""
import copy
import functools
import os
import pickle
import time

OUT = os.environ.get("HARVEST_OUT")
PER_CLASS = int(os.environ.get("HARVEST_PER_CLASS", "60"))
records = {}
seen = set()
depth = 0
stats = {}


def _all_subclasses(cls):
    for s in cls.__subclasses__():
        yield s
        yield from _all_subclasses(s)


def _wrap_init(cls):
    if "__init__" not in cls.__dict__ or getattr(cls.__init__, "_harv", False):
        return
    orig = cls.__init__

    @functools.wraps(orig)
    def __init__(self, *a, **k):
        if type(self) is cls:
            try:
                self.__dict__["_harv_init"] = pickle.dumps((a, k))
            except Exception:
                self.__dict__["_harv_init"] = None
        return orig(self, *a, **k)

    __init__._harv = True
    cls.__init__ = __init__


def _wrap_process(cls):
    if "process" not in cls.__dict__ or getattr(cls.process, "_harv", False):
        return
    raw = cls.__dict__["process"]
    if isinstance(raw, classmethod):
        return
    orig = (lambda self, *a, **k: raw.__func__(*a, **k)) if isinstance(raw, staticmethod) else raw

    def process(self, *a, **k):
        global depth
        if depth or not type(self).__module__.startswith("improver."):
            return orig(self, *a, **k)
        init = self.__dict__.get("_harv_init", pickle.dumps(((), {})) if type(self).__init__ is object.__init__ else None)
        path = type(self).__module__ + "." + type(self).__qualname__
        blob = None
        if init is not None:
            try:
                # build_corpus.py re-runs every record on a fresh instance before keeping it
                blob = pickle.dumps((path, init, pickle.dumps((a, k))), 2)
            except Exception as e:
                stats[path, "skip:" + type(e).__name__] = stats.get((path, "skip:" + type(e).__name__), 0) + 1
        depth += 1
        t = time.perf_counter()
        ok = False
        try:
            r = orig(self, *a, **k)
            ok = True
            return r
        finally:
            depth -= 1
            dt = time.perf_counter() - t
            if blob is not None and blob not in seen and len(blob) < 1500000:
                lst = records.setdefault(path, [])
                if len(lst) < PER_CLASS:
                    seen.add(blob)
                    lst.append((ok, dt, blob))

    process._harv = True
    cls.process = process


def _arm():
    from improver import BasePlugin

    for c in set(_all_subclasses(BasePlugin)):
        _wrap_init(c)
        _wrap_process(c)


def pytest_runtest_setup(item):
    _arm()


def pytest_runtest_call(item):
    _arm()


def pytest_sessionfinish(session):
    if OUT:
        os.makedirs(OUT, exist_ok=True)
        with open(os.path.join(OUT, "h%d.pkl" % os.getpid()), "wb") as f:
            pickle.dump((records, stats), f, 2)
