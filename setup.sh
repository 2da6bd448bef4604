#!/bin/sh
# Nothing to build: the checks import the working tree of /repo directly.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec /opt/venv/bin/python -W ignore -c '
import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, timeboard, pandas
print("hypothesis", hypothesis.__version__, "timeboard", timeboard.__file__,
      "pandas", pandas.__version__)'
