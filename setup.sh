#!/bin/sh
# nothing to build: the checks read /repo's source on every run; only test that the tools are there
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
import vf.engine, vf.universe
print('functions in /repo:', len(vf.universe.all_functions()))"
