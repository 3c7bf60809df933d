#!/bin/bash
# Nothing to compile: the checks run the Python sources of /repo directly. Sanity-check the environment.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:$PWD /opt/venv/bin/python -B -c "import kasa, mc.core, mc.net; print('ready', kasa.__file__)"
