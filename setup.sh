#!/bin/bash
# Nothing to build: the checks import /repo/src live.  Verifies the interpreter and the stand-ins load.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$PWD/stubs:$PWD/pypath" /opt/venv39/bin/python -W ignore -c \
  "import numpy, scipy, pandas, vmc.core, apache_beam, vmc_env; print('ready')"
