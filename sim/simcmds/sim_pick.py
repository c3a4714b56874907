"""Synthetic command: one cube of a list."""
from improver import cli


@cli.clizefy
@cli.with_output
def process(cubes: cli.inputcubelist, *, tag: str, index: int = 0):
    """Pick a cube.

    Args:
        cubes (iris.cube.CubeList):
            inputs
        tag (str):
            label
        index (int):
            which
    """
    from dst import simlib

    simlib.begin("pick", tag, [cubes])
    c = sorted(cubes, key=lambda c: c.name())[index % len(cubes)]
    return simlib.end("pick", tag, simlib.combine("pick", tag, [c], 1.0))
