#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]  -- runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 TZ=UTC PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=${KASA_REPO:-/repo}:$PWD PYTHONUNBUFFERED=1
exec /opt/venv/bin/python -B -W ignore -m mc.run "$1" --tier "${2:-quick}" "${@:3}"
