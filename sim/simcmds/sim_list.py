"""Synthetic command: make a cube list."""
from improver import cli


@cli.clizefy
@cli.with_output
def process(*cubes: cli.inputcube, tag: str):
    """Make a list.

    Args:
        cubes (list of iris.cube.Cube):
            inputs
        tag (str):
            label
    """
    from iris.cube import CubeList

    from dst import simlib

    simlib.begin("list", tag, cubes)
    out = []
    for i, c in enumerate(c for c in cubes if c is not None):
        c = c.copy()
        c.rename("cube_%d" % i)
        out.append(c)
    return simlib.end("list", tag, CubeList(out))
