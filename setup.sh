#!/bin/bash
# nothing to build: the checks import /repo's working tree; this only confirms that the interpreter can
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -c "import sys; sys.path[:0]=['harness','/repo']; import engine, oracle, lib, atomtoolkit.atom"
