"""iris.analysis.cartography (shim)."""
from iris.exceptions import ShimUnsupported


def rotate_winds(*a, **k):
    raise ShimUnsupported("rotate_winds")


def area_weights(*a, **k):
    raise ShimUnsupported("area_weights")
