"""pytest plugin: record calls of improver's module-level functions made directly by the repository's own tests.

As harvest.py, for functions: record = pickle((path, args pickle)).  Development only.
"""
import functools
import importlib
import os
import pickle
import pkgutil
import sys
import time
import types

OUT = os.environ.get("HARVEST_OUT")
PER = int(os.environ.get("HARVEST_PER_FN", "40"))
records, seen, depth = {}, set(), 0


def wrap(path, f):
    @functools.wraps(f)
    def g(*a, **k):
        global depth
        if depth:
            return f(*a, **k)
        blob = None
        lst = records.setdefault(path, [])
        if len(lst) < PER:
            try:
                blob = pickle.dumps((path, pickle.dumps((a, k))), 2)
            except Exception:
                pass
        depth += 1
        t = time.perf_counter()
        ok = False
        try:
            r = f(*a, **k)
            ok = True
            return r
        finally:
            depth -= 1
            dt = time.perf_counter() - t
            if blob is not None and blob not in seen and len(blob) < 600000:
                seen.add(blob)
                lst.append((ok, dt, blob))

    return g


def pytest_configure(config):
    import improver

    mods = []
    for m in pkgutil.walk_packages(improver.__path__, "improver."):
        if ".cli" in m.name:
            continue
        try:
            mods.append(importlib.import_module(m.name))
        except BaseException:
            pass
    table = {}
    for m in mods:
        for n, f in list(vars(m).items()):
            if isinstance(f, types.FunctionType) and f.__module__ == m.__name__ and not n.startswith("__"):
                table[f] = wrap(m.__name__ + "." + n, f)
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("improver"):
            for n, f in list(vars(m).items()):
                if isinstance(f, types.FunctionType) and f in table:
                    setattr(m, n, table[f])


def pytest_sessionfinish(session):
    if OUT:
        os.makedirs(OUT, exist_ok=True)
        with open(os.path.join(OUT, "f%d.pkl" % os.getpid()), "wb") as f:
            pickle.dump(records, f, 2)
