#!/bin/bash
# Nothing to build: the checks are Python and import the package from /repo.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '.')
from mc import env; env.install()
import pgp; print('package imported from', pgp.__file__)"
