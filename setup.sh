#!/bin/bash
# Nothing has to be built: the code under test is imported from /repo on every run.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -c "
from symx import bootstrap
bootstrap.common()
bootstrap.import_target()
import sys; sys.path.append(bootstrap.VT)
import z3; print('z3', z3.get_version_string())
"
