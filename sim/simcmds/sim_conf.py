"""Synthetic command: make a dictionary."""
from improver import cli


@cli.clizefy
def process(*, tag: str, value: int = 1):
    """Make a dictionary.

    Args:
        tag (str):
            label
        value (int):
            content
    """
    from dst import simlib

    simlib.begin("conf", tag, [])
    return simlib.end("conf", tag, {"made": tag, "value": value})
