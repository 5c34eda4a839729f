#!/bin/bash
# run.sh PROPERTY [--replay FILE] [--only FAMILY]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 TZ=UTC
exec /opt/venv/bin/python -W ignore -m mc.run "$@"
