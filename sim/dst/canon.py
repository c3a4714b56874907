"""Canonical, comparable form of results (cubes, arrays, containers, exceptions)."""
import re

import numpy as np


def array(x):
    """('nd', dtype, shape, values, mask or None) with masked values blanked."""
    mask = None
    if np.ma.isMaskedArray(x):
        mask = np.array(np.ma.getmaskarray(x))
        data = np.array(np.ma.getdata(x))
        if mask.any():
            data[mask] = np.zeros((), data.dtype) if data.dtype.kind != "O" else None
        else:
            mask = None
            data = data
        return ("nd", str(data.dtype), data.shape, data, mask, True)
    a = np.array(x)
    return ("nd", str(a.dtype), a.shape, a, None, False)


def scalar(v):
    if isinstance(v, (np.generic,)):
        return ("np", str(v.dtype), v.item() if v.dtype.kind not in "mM" else str(v))
    return (type(v).__name__, v)


def attrs(d):
    return tuple((k, attr_value(d[k])) for k in sorted(d, key=str))


def attr_value(v):
    if isinstance(v, np.ndarray):
        return array(v)
    if isinstance(v, (np.str_, str)):
        return ("str", str(v))
    if isinstance(v, (list, tuple)):
        return ("seq", tuple(attr_value(x) for x in v))
    return scalar(v)


def coord(c):
    b = c.bounds
    return ("coord", type(c).__name__, c.standard_name, c.long_name, c.var_name, str(c.units), attrs(c.attributes),
            repr(c.coord_system) if c.coord_system is not None else None, bool(getattr(c, "circular", False)),
            bool(getattr(c, "climatological", False)), array(c.points), None if b is None else array(b))


def cube(c):
    cs = []
    for x in c.coords():
        is_dim = any(x is d for d in c.coords(dim_coords=True))
        cs.append((x.name(), is_dim, tuple(c.coord_dims(x)), coord(x)))
    cs.sort(key=lambda t: (t[0], t[2], str(t[3][1:6])))
    extra = []
    for kind in ("ancillary_variables", "cell_measures"):
        try:
            for x in getattr(c, kind)():
                extra.append((kind, x.name(), str(x.units), array(x.data)))
        except AttributeError:
            pass
    return ("cube", c.standard_name, c.long_name, c.var_name, str(c.units), attrs(c.attributes),
            tuple(str(m) for m in c.cell_methods), tuple(cs), tuple(extra), array(c.data))


def _msg(e):
    s = str(e)
    s = re.sub(r"0x[0-9a-f]+", "0x", s)
    s = re.sub(r"/tmp/\S+", "/tmp/", s)
    return s


def exc(e, message=True):
    return ("exc", type(e).__name__, _msg(e) if message else None)


def canon(x, depth=0):
    if depth > 12:
        return ("deep",)
    if x is None or isinstance(x, (bool, int, float, str, bytes, complex)):
        return (type(x).__name__, x)
    if isinstance(x, np.generic):
        return scalar(x)
    if isinstance(x, np.ndarray):
        return array(x)
    t = type(x)
    if hasattr(x, "coord_dims") and hasattr(x, "cell_methods"):
        return cube(x)
    if hasattr(x, "points") and hasattr(x, "bounds") and hasattr(x, "units"):
        return coord(x)
    if isinstance(x, dict):
        return ("dict", tuple((canon(k, depth + 1), canon(v, depth + 1)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))))
    if isinstance(x, (list, tuple)):
        return ("seq", t.__name__, tuple(canon(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((repr(v) for v in x))))
    if isinstance(x, BaseException):
        return exc(x)
    if t.__module__ in ("datetime", "pathlib", "cf_units", "cftime", "decimal"):
        return ("repr", repr(x))
    if callable(x) and hasattr(x, "__qualname__"):
        return ("fn", x.__module__, x.__qualname__)
    d = getattr(x, "__dict__", None)
    if d is not None and t.__module__.startswith("improver"):
        return ("obj", t.__name__, canon(d, depth + 1))
    return ("other", t.__module__, t.__qualname__, re.sub(r"0x[0-9a-f]+", "", repr(x))[:200])


def same_array(a, b, rtol, atol):
    x, y = a[3], b[3]
    if a[2] != b[2]:
        return "shape %s vs %s" % (a[2], b[2])
    ma, mb = a[4], b[4]
    if (ma is None) != (mb is None) or (ma is not None and not np.array_equal(ma, mb)):
        n = np.count_nonzero(np.zeros(a[2], bool) if ma is None else ma), np.count_nonzero(np.zeros(b[2], bool) if mb is None else mb)
        return "mask differs (%d vs %d masked of %d)" % (n[0], n[1], x.size)
    if a[1] != b[1]:
        return "dtype %s vs %s" % (a[1], b[1])
    if x.dtype.kind in "fc":
        if rtol == 0 and atol == 0:
            bad = ~((x == y) | ((x != x) & (y != y)))
        else:
            with np.errstate(all="ignore"):
                tol = atol + rtol * np.maximum(np.abs(x), np.abs(y))
                bad = ~((x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= tol))
    elif x.dtype.kind == "O":
        bad = np.array([repr(p) != repr(q) for p, q in zip(x.ravel(), y.ravel())], bool)
    else:
        bad = np.asarray(x != y)
    if np.any(bad):
        i = int(np.argmax(np.ravel(bad)))
        return "%d of %d values differ, first %r vs %r" % (np.count_nonzero(bad), x.size, np.ravel(x)[i], np.ravel(y)[i])
    return None


def diff(a, b, rtol=0.0, atol=0.0, path="result"):
    """First difference between two canonical forms, or None."""
    if type(a) is tuple and type(b) is tuple:
        if len(a) and len(b) and a[0] == "nd" and b[0] == "nd":
            d = same_array(a, b, rtol, atol)
            return None if d is None else "%s: %s" % (path, d)
        if len(a) and a[0] == "cube" and len(b) and b[0] == "cube":
            names = ("", "standard_name", "long_name", "var_name", "units", "attributes", "cell_methods", "coords", "extras", "data")
            for i in range(1, len(a)):
                d = diff(a[i], b[i], rtol, atol, "%s.%s" % (path, names[i]))
                if d:
                    return d
            return None
        if len(a) != len(b):
            return "%s: %s vs %s" % (path, short(a), short(b))
        for i, (p, q) in enumerate(zip(a, b)):
            d = diff(p, q, rtol, atol, "%s[%s]" % (path, a[0] if i and isinstance(a[0], str) and len(a[0]) < 30 else i))
            if d:
                return d
        return None
    if type(a) is not type(b):
        return "%s: %s vs %s" % (path, short(a), short(b))
    if isinstance(a, float):
        if a == b or (a != a and b != b) or (rtol and abs(a - b) <= atol + rtol * max(abs(a), abs(b))):
            return None
        return "%s: %r vs %r" % (path, a, b)
    if isinstance(a, np.ndarray):
        return None if np.array_equal(a, b) else "%s differs" % path
    return None if a == b else "%s: %s vs %s" % (path, short(a), short(b))


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:150] + "..."
