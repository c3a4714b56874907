"""Synthetic command: combine cubes."""
from improver import cli


@cli.clizefy
@cli.with_output
def process(*cubes: cli.inputcube, tag: str, scale: float = 1.0):
    """Combine cubes.

    Args:
        cubes (list of iris.cube.Cube):
            inputs
        tag (str):
            label
        scale (float):
            factor
    """
    from dst import simlib

    simlib.begin("join", tag, cubes)
    return simlib.end("join", tag, simlib.combine("join", tag, cubes, scale))
