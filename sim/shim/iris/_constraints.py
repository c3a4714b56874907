"""Constraints (shim)."""
import numpy as np

from iris.exceptions import CoordinateNotFoundError, ShimUnsupported


class _Columns:
    """Per-dimension boolean columns; None means 'cube rejected'."""

    def __init__(self, ndim, shape):
        self.cols = [np.ones(n, dtype=bool) for n in shape]
        self.touched = [False] * len(shape)
        self.ok = True

    def all(self):
        return self.ok and all(c.any() for c in self.cols)


class Constraint:
    def __init__(self, name=None, cube_func=None, coord_values=None, **kwargs):
        if not (name is None or isinstance(name, str)):
            raise TypeError("name must be None or string, got %r" % name)
        if not (cube_func is None or callable(cube_func)):
            raise TypeError("cube_func must be None or callable, got %r" % cube_func)
        if not (coord_values is None or hasattr(coord_values, "items")):
            raise TypeError("coord_values must be None or a collections.Mapping, got %r" % coord_values)
        coord_values = dict(coord_values or {})
        dup = set(coord_values) & set(kwargs)
        if dup:
            raise ValueError("Duplicate coordinate conditions specified for: %s" % sorted(dup))
        self._name = name
        self._cube_func = cube_func
        self._coord_values = coord_values
        coord_values.update(kwargs)

    def __repr__(self):
        args = []
        if self._name is not None:
            args.append("name=%r" % self._name)
        if self._cube_func is not None:
            args.append("cube_func=%r" % self._cube_func)
        if self._coord_values:
            args.append("coord_values=%r" % self._coord_values)
        return "Constraint(%s)" % ", ".join(args)

    def _coordless_match(self, cube):
        if self._name:
            names = [cube.standard_name, cube.long_name, cube.var_name]
            if self._name not in names and cube.name() != self._name:
                return False
        if self._cube_func and not self._cube_func(cube):
            return False
        return True

    def _fill(self, cube, cols):
        if not self._coordless_match(cube):
            cols.ok = False
            return
        for name, want in self._coord_values.items():
            try:
                coord = cube.coord(name)
            except CoordinateNotFoundError:
                cols.ok = False
                return
            dims = cube.coord_dims(coord)
            if len(dims) > 1:
                from iris.exceptions import CoordinateMultiDimError

                raise CoordinateMultiDimError("Cannot apply constraints to multidimensional coordinates")
            if callable(want):
                match = np.array([bool(want(cell)) for cell in coord.cells()])
            elif hasattr(want, "__iter__") and not isinstance(want, (str, bytes)) and not hasattr(want, "point"):
                cells = coord.cells()
                match = np.array([any(_cell_is(cell, w) for w in want) for cell in cells])
            else:
                match = np.array([_cell_is(cell, want) for cell in coord.cells()])
            if not dims:
                if not match.all():
                    cols.ok = False
                    return
            else:
                cols.cols[dims[0]] &= match
                cols.touched[dims[0]] = True

    def extract(self, cube):
        cols = _Columns(cube.ndim, cube.shape)
        self._fill(cube, cols)
        if not cols.all():
            return None
        keys = []
        trivial = True
        for c, touched in zip(cols.cols, cols.touched):
            idx = np.nonzero(c)[0]
            if not touched:
                keys.append(slice(None))
            elif len(idx) == 1:
                keys.append(int(idx[0]))
                trivial = False
            else:
                step = np.diff(idx)
                if np.all(step == step[0]):
                    keys.append(slice(int(idx[0]), int(idx[-1]) + 1, int(step[0])))
                else:
                    keys.append(idx)
                trivial = False
        if trivial:
            return cube
        return cube[tuple(keys)]

    def __and__(self, other):
        return ConstraintCombination(self, other)

    def __rand__(self, other):
        return ConstraintCombination(other, self)


def _cell_is(cell, want):
    r = cell == want
    if r is NotImplemented:
        return False
    return bool(r)


class ConstraintCombination(Constraint):
    def __init__(self, lhs, rhs):
        self.lhs = as_constraint(lhs)
        self.rhs = as_constraint(rhs)

    def __repr__(self):
        return "ConstraintCombination(%r, %r)" % (self.lhs, self.rhs)

    def _coordless_match(self, cube):
        return self.lhs._coordless_match(cube) and self.rhs._coordless_match(cube)

    def _fill(self, cube, cols):
        self.lhs._fill(cube, cols)
        if cols.ok:
            self.rhs._fill(cube, cols)


class AttributeConstraint(Constraint):
    def __init__(self, **attributes):
        self._attributes = attributes
        super().__init__(cube_func=self._match)

    def _match(self, cube):
        for k, want in self._attributes.items():
            if k not in cube.attributes:
                return False
            have = cube.attributes[k]
            if callable(want):
                if not want(have):
                    return False
            elif have != want:
                return False
        return True

    def __repr__(self):
        return "AttributeConstraint(%r)" % self._attributes


class NameConstraint(Constraint):
    def __init__(self, standard_name="none", long_name="none", var_name="none", STASH="none"):
        self._want = {k: v for k, v in [("standard_name", standard_name), ("long_name", long_name), ("var_name", var_name)] if v != "none"}
        super().__init__(cube_func=self._match)

    def _match(self, cube):
        for k, v in self._want.items():
            have = getattr(cube, k)
            if callable(v):
                if not v(have):
                    return False
            elif have != v:
                return False
        return True


def as_constraint(thing):
    if isinstance(thing, Constraint):
        return thing
    if thing is None:
        return Constraint()
    if isinstance(thing, str):
        return Constraint(thing)
    raise TypeError("Constraint cannot be cast from {}.".format(type(thing)))


def list_of_constraints(constraints):
    if isinstance(constraints, (list, tuple)):
        return [as_constraint(c) for c in constraints]
    return [as_constraint(constraints)]
