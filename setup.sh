#!/bin/bash
# nothing to build: checks that the interpreter, the stand-ins and the corpus load
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
export PYTHONPATH="$here/sim/shim:$here/sim:/repo" PYTHONDONTWRITEBYTECODE=1 TZ=UTC
cd "$here" && exec /opt/venv/bin/python -c "
import iris, netCDF4, numpy, dst.run, improver
print('simulator ready')"
