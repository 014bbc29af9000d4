#!/bin/bash
# Nothing to build: checks import waymax from /repo. Confirms that this works.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. \
  /opt/venv/bin/python -W ignore -c 'import waymax, wmc.core; print(waymax.__file__)' 2>/dev/null
