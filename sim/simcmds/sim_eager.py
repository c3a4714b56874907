"""Synthetic command: as sim-join, with inputs read at once."""
from improver import cli


@cli.clizefy
@cli.with_output
def process(first: cli.inputcube_nolazy, second: cli.inputcube_nolazy = None, *, tag: str):
    """Combine cubes.

    Args:
        first (iris.cube.Cube):
            input
        second (iris.cube.Cube):
            input
        tag (str):
            label
    """
    from dst import simlib

    simlib.begin("eager", tag, [first, second])
    return simlib.end("eager", tag, simlib.combine("eager", tag, [first, second], 1.0))
