"""iris.util (shim)."""
import numpy as np


def squeeze(cube):
    keys = tuple(0 if n == 1 else slice(None) for n in cube.shape)
    if all(isinstance(k, slice) for k in keys):
        return cube
    if not any(isinstance(k, slice) for k in keys):
        return cube[keys]
    return cube[keys]


def new_axis(src_cube, scalar_coord=None):
    from iris.coords import AuxCoord, DimCoord
    from iris.cube import Cube

    if scalar_coord is not None:
        scalar_coord = src_cube.coord(scalar_coord)
        if scalar_coord.shape != (1,) or src_cube.coord_dims(scalar_coord) != ():
            raise ValueError("{} is not a scalar coordinate.".format(scalar_coord.name()))
    data = src_cube.core_data()[None]
    new = Cube(data)
    new.metadata = src_cube.metadata
    for coord in src_cube.aux_coords:
        if scalar_coord is not None and scalar_coord == coord:
            dims = (0,)
        else:
            dims = tuple(d + 1 for d in src_cube.coord_dims(coord))
        if scalar_coord is not None and scalar_coord == coord:
            dim_coord = DimCoord.from_coord(coord)
            new.add_dim_coord(dim_coord, 0)
        else:
            new.add_aux_coord(coord.copy(), dims)
    for coord in src_cube.dim_coords:
        new.add_dim_coord(coord.copy(), src_cube.coord_dims(coord)[0] + 1)
    return new


def promote_aux_coord_to_dim_coord(cube, name_or_coord):
    from iris.coords import DimCoord

    coord = cube.coord(name_or_coord)
    if coord in cube.dim_coords:
        return
    dims = cube.coord_dims(coord)
    if len(dims) != 1:
        raise ValueError("Attempt to promote a coordinate ({}) which is associated with {} dimensions".format(
            coord.name(), len(dims)))
    try:
        dim_coord = DimCoord.from_coord(coord)
    except ValueError as exc:
        raise ValueError("Attempt to promote an AuxCoord ({}) fails when attempting to create a DimCoord from the "
                         "AuxCoord because: {}".format(coord.name(), exc))
    old = cube.coords(dim_coords=True, dimensions=dims[0])
    cube.remove_coord(coord)
    if old:
        demote_dim_coord_to_aux_coord(cube, old[0])
    cube.add_dim_coord(dim_coord, dims[0])


def demote_dim_coord_to_aux_coord(cube, name_or_coord):
    coord = cube.coord(name_or_coord)
    if coord not in cube.dim_coords:
        return
    dims = cube.coord_dims(coord)
    cube.remove_coord(coord)
    cube.add_aux_coord(coord, dims)


def broadcast_to_shape(array, shape, dim_map):
    if len(dim_map) != array.ndim:
        raise ValueError("dim_map must have an entry for every dimension of the input array")
    order = np.argsort(dim_map)
    arr = np.transpose(array, order) if array.ndim else array
    sorted_dims = sorted(dim_map)
    full = [1] * len(shape)
    for n, d in zip(arr.shape, sorted_dims):
        if n != shape[d] and n != 1:
            raise ValueError("shape and array are not compatible")
        full[d] = n
    if np.ma.isMaskedArray(arr):
        data = np.broadcast_to(arr.data.reshape(full), shape)
        mask = np.broadcast_to(np.ma.getmaskarray(arr).reshape(full), shape)
        return np.ma.masked_array(data, mask=mask)
    return np.broadcast_to(arr.reshape(full), shape)


def guess_coord_axis(coord):
    axis = None
    if coord.standard_name in ("longitude", "grid_longitude", "projection_x_coordinate"):
        axis = "X"
    elif coord.standard_name in ("latitude", "grid_latitude", "projection_y_coordinate"):
        axis = "Y"
    elif coord.units.is_convertible("hPa") or coord.attributes.get("positive") in ("up", "down"):
        axis = "Z"
    elif coord.units.is_time_reference():
        axis = "T"
    return axis


def equalise_attributes(cubes):
    removed = []
    keys = list(cubes[0].attributes.keys())
    keep = []
    for k in keys:
        if all(k in c.attributes and np.all(np.array_equal(c.attributes[k], cubes[0].attributes[k])) for c in cubes[1:]):
            keep.append(k)
    for c in cubes:
        for k in list(c.attributes.keys()):
            if k not in keep:
                removed.append(k)
                del c.attributes[k]
    return removed


def describe_diff(cube_a, cube_b, output_file=None):
    out = []
    if cube_a.metadata != cube_b.metadata:
        out.append("metadata differ")
    print("\n".join(out) or "Cubes are compatible", file=output_file)


def reverse(cube_or_array, coords_or_dims):
    if hasattr(cube_or_array, "coord_dims"):
        cube = cube_or_array
        if not isinstance(coords_or_dims, (list, tuple, set)):
            coords_or_dims = [coords_or_dims]
        dims = set()
        for c in coords_or_dims:
            if isinstance(c, (int, np.integer)):
                dims.add(int(c))
            else:
                dims.update(cube.coord_dims(cube.coord(c)))
        keys = tuple(slice(None, None, -1) if d in dims else slice(None) for d in range(cube.ndim))
        return cube[keys]
    dims = coords_or_dims if isinstance(coords_or_dims, (list, tuple, set)) else [coords_or_dims]
    return np.flip(cube_or_array, tuple(dims))


def monotonic(array, strict=False, return_direction=False):
    if array.ndim != 1 or len(array) <= 1:
        raise ValueError("The array to check must be 1 dimensional and have more than 1 element.")
    d = np.diff(array)
    sign = np.sign(d)
    nz = sign[sign != 0]
    direction = nz[0] if len(nz) else 1
    ok = bool(np.all(sign == direction)) if strict else bool(np.all((sign == direction) | (sign == 0)))
    return (ok, direction) if return_direction else ok


def array_equal(a, b, withnans=False):
    a, b = np.asanyarray(a), np.asanyarray(b)
    if a.shape != b.shape:
        return False
    eq = a == b
    if withnans and a.dtype.kind == "f" and b.dtype.kind == "f":
        eq = eq | (np.isnan(a) & np.isnan(b))
    return bool(np.all(eq))


def rolling_window(a, window=1, step=1, axis=-1):
    axis = axis % a.ndim
    num = (a.shape[axis] - window + step) // step
    shape = a.shape[:axis] + (num, window) + a.shape[axis + 1:]
    strides = a.strides[:axis] + (step * a.strides[axis], a.strides[axis]) + a.strides[axis + 1:]
    return np.lib.stride_tricks.as_strided(a, shape=shape, strides=strides)


def is_regular(coord):
    d = np.diff(coord.points)
    return bool(np.allclose(d, d[0]))


def unify_time_units(cubes):
    epochs = {}
    for cube in cubes:
        for coord in cube.coords():
            if coord.units.is_time_reference():
                epoch = epochs.setdefault(coord.units.calendar, coord.units.origin)
                import cf_units

                coord.convert_units(cf_units.Unit(epoch, coord.units.calendar))
