"""Synthetic command: runs whatever the simulation asks."""
from improver import cli


@cli.clizefy
def process(*args: str, flag=False):
    """Run the simulation's hook.

    Args:
        args (list of str):
            passed on
        flag (bool):
            passed on
    """
    from dst import simlib

    return simlib.HOOK(*args, flag=flag)
