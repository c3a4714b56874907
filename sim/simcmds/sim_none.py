"""Synthetic command: no result."""
from improver import cli


@cli.clizefy
@cli.with_output
def process(cube: cli.inputcube, *, tag: str):
    """No result.

    Args:
        cube (iris.cube.Cube):
            input
        tag (str):
            label
    """
    from dst import simlib

    simlib.begin("none", tag, [cube])
    return simlib.end("none", tag, None)
