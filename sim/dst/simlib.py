"""What the synthetic commands in /verif/sim/simcmds do, and how they become visible to improver.cli."""
import os
import pkgutil
import sys

from .core import Unsupported

SIMCMDS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "simcmds")
NAMES = [f[:-3].replace("_", "-") for f in sorted(os.listdir(SIMCMDS)) if f.startswith("sim_") and f.endswith(".py")]

HOOK = None  # callable run by sim-hook
LOG = []  # (event, command, tag, inputs) in execution order
FAIL = {}  # tag -> exception instance
RETURNED = {}  # tag -> object returned
RECEIVED = {}  # tag -> list of input objects


def reset():
    global HOOK
    HOOK = None
    del LOG[:]
    FAIL.clear()
    RETURNED.clear()
    RECEIVED.clear()


def load_cli():
    """improver.cli with the synthetic commands among its own."""
    if "improver.cli" not in sys.modules:
        real = pkgutil.iter_modules

        def iter_modules(path=None, prefix=""):
            if path is not None and not isinstance(path, str):
                try:
                    if any(str(p).rstrip("/").endswith("improver/cli") for p in path) and SIMCMDS not in list(path):
                        path.append(SIMCMDS)
                except (TypeError, AttributeError):
                    pass
            return real(path, prefix)

        pkgutil.iter_modules = iter_modules
        try:
            import improver.cli  # noqa: F401
        finally:
            pkgutil.iter_modules = real
    cli = sys.modules["improver.cli"]
    table = getattr(cli, "SUBCOMMANDS_TABLE", None)
    if table is None or not hasattr(cli, "SUBCOMMANDS_DISPATCHER"):
        raise Unsupported("improver.cli has no command table")
    if not any(str(k).replace("_", "-") == "sim-hook" for k in table):
        import importlib

        if SIMCMDS not in list(cli.__path__):
            cli.__path__.append(SIMCMDS)
        for n in NAMES:
            m = importlib.import_module("improver.cli." + n.replace("-", "_"))
            table[n.replace("-", "_")] = cli.clizefy(m.process)
        cli.SUBCOMMANDS_DISPATCHER = cli.clizefy(table, description="sim")
    return cli


def show(x):
    """Provenance of an input: the tag path it came from."""
    if x is None:
        return "None"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(show(v) for v in x) + "]"
    if isinstance(x, dict):
        return "{" + ",".join("%s:%s" % (k, x[k]) for k in sorted(x)) + "}"
    a = getattr(x, "attributes", None)
    if a is not None and "prov" in a:
        return str(a["prov"])
    return str(x)


def begin(cmd, tag, inputs):
    LOG.append(("start", cmd, tag, tuple(show(x) for x in inputs)))
    RECEIVED[tag] = list(inputs)
    if tag in FAIL:
        raise FAIL[tag]


def end(cmd, tag, result):
    LOG.append(("end", cmd, tag, show(result)))
    RETURNED[tag] = result
    return result


def cube(tag, prov, n=2, value=0.0):
    import datetime as dt

    import numpy as np
    from improver.synthetic_data.set_up_test_cubes import set_up_variable_cube

    d = (np.arange(n * n, dtype=np.float32).reshape(n, n) + np.float32(value)).astype(np.float32)
    c = set_up_variable_cube(d, name="air_temperature", units="K", time=dt.datetime(2024, 1, 2, 6), frt=dt.datetime(2024, 1, 2, 0))
    c.attributes["prov"] = prov
    c.attributes["tag"] = tag
    return c


def combine(cmd, tag, cubes, scale):
    import numpy as np

    prov = "%s(%s;%s)" % (cmd, tag, ",".join(show(c) for c in cubes))
    total = np.zeros((2, 2), np.float32)
    for c in cubes:
        if c is not None:
            total = (total + c.data[:2, :2]).astype(np.float32)
    out = cube(tag, prov)
    out.data = (total * np.float32(scale)).astype(np.float32)
    return out
