"""Synthetic command: cube with options of several kinds."""
from improver import cli


@cli.clizefy
@cli.with_output
def process(
    cube: cli.inputcube,
    *,
    tag: str,
    config: cli.inputjson = None,
    names: cli.comma_separated_list = None,
    weights: cli.comma_separated_list_of_float = None,
    flag=False,
):
    """Apply options.

    Args:
        cube (iris.cube.Cube):
            input
        tag (str):
            label
        config (dict):
            configuration
        names (list of str):
            names
        weights (list of float):
            numbers
        flag (bool):
            switch
    """
    from dst import simlib

    simlib.begin("apply", tag, [cube, config, names, weights, flag])
    scale = (config or {}).get("value", 1) + len(names or []) + sum(weights or []) + bool(flag)
    c = simlib.combine("apply", tag, [cube], scale)
    c.attributes["prov"] = "apply(%s;%s)" % (tag, ",".join(simlib.show(x) for x in [cube, config, names, weights, flag]))
    return simlib.end("apply", tag, c)
