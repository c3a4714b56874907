"""Synthetic command: paths and times."""
from improver import cli


@cli.clizefy
@cli.with_output
def process(cube: cli.inputcube, path: cli.inputpath, *, tag: str, when: cli.inputdatetime = None):
    """Paths and times.

    Args:
        cube (iris.cube.Cube):
            input
        path (pathlib.Path):
            path
        tag (str):
            label
        when (datetime):
            time
    """
    from dst import simlib

    simlib.begin("when", tag, [cube, path, when])
    return simlib.end("when", tag, simlib.combine("when", tag, [cube], 2.0))
