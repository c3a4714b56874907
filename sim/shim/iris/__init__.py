"""A miniature, pure-Python stand-in for the subset of SciTools iris 3.0 that IMPROVER uses.

iris itself is not installed in this sandbox.  API corners this shim does not model raise
``iris.exceptions.ShimUnsupported``.
"""
import glob as _glob
import os as _os

import iris.exceptions  # noqa
import iris._constraints
from iris._constraints import AttributeConstraint, Constraint, NameConstraint

__version__ = "3.0.3"
SHIM = True


class _Future:
    def __init__(self):
        self.datum_support = False

    def context(self, **k):
        import contextlib

        return contextlib.nullcontext()


FUTURE = _Future()


def _files(uris):
    if isinstance(uris, (str, _os.PathLike)):
        uris = [uris]
    out, missing = [], []
    for u in uris:
        u = _os.path.expanduser(str(u))
        hits = sorted(_glob.glob(u)) if any(ch in u for ch in "*?[") else ([u] if _os.path.exists(u) else [])
        if not hits:
            missing.append(u)
        out.extend(hits)
    if missing:
        raise OSError("One or more of the files specified did not exist:\n" + "\n".join(
            "    * \"%s\" didn't match any files" % m for m in missing))
    return out


def _raw(uris, callback=None):
    from iris.fileformats import netcdf

    cubes = []
    for f in _files(uris):
        cubes.extend(netcdf.load_cubes(f))
    return cubes


def load_raw(uris, constraints=None, callback=None):
    from iris.cube import CubeList

    return CubeList(_raw(uris)).extract(constraints)


def load(uris, constraints=None, callback=None):
    from iris.cube import CubeList

    out = CubeList()
    raw = _raw(uris)
    for c in iris._constraints.list_of_constraints(constraints):
        hits = CubeList([x for x in (c.extract(r) for r in raw) if x is not None])
        out.extend(hits.merge(unique=False))
    return out


def load_cube(uris, constraint=None, callback=None):
    cubes = load(uris, constraint)
    if len(cubes) != 1:
        raise iris.exceptions.ConstraintMismatchError("failed to merge into a single cube: found %d cubes" % len(cubes)
                                                      if cubes else "no cubes found")
    return cubes[0]


def load_cubes(uris, constraints=None, callback=None):
    from iris.cube import CubeList

    cons = iris._constraints.list_of_constraints(constraints)
    return CubeList([load_cube(uris, c) for c in cons])


def save(source, target, saver=None, **kwargs):
    from iris.fileformats import netcdf

    if str(target).endswith(".nc"):
        netcdf.save(source, str(target), **kwargs)
    else:
        raise ValueError("Cannot save; no saver can be found")


import iris.coord_systems  # noqa
import iris.coords  # noqa
import iris.cube  # noqa
import iris.util  # noqa
import iris.analysis  # noqa
import iris.std_names  # noqa
import iris.fileformats  # noqa
import iris.fileformats.netcdf  # noqa
import iris.time  # noqa
import iris.analysis.maths  # noqa
