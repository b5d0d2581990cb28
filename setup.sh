#!/bin/sh
# Nothing to build: check that the interpreter, the library and the simulator can be loaded.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=$(command -v python3)
PYTHONPATH=/repo:. exec "$PY" -B -c 'import spylls.hunspell, dst.cli, dst.props; print("ok", spylls.hunspell.__file__)'
