"""Synthetic command: make a cube."""
from improver import cli


@cli.clizefy
@cli.with_output
def process(*, tag: str, n: int = 2, value: float = 0.0, name: str = "air_temperature"):
    """Make a cube.

    Args:
        tag (str):
            label
        n (int):
            size
        value (float):
            offset
        name (str):
            cube name
    """
    from dst import simlib

    simlib.begin("make", tag, [])
    c = simlib.cube(tag, "make(%s,%d,%s)" % (tag, n, value), n, value)
    c.rename(name)
    return simlib.end("make", tag, c)
