#!/bin/bash
# nothing to build: checks that the interpreter, the package and the solver are there
here="$(cd "$(dirname "$0")" && pwd)"; cd /tmp; PYTHONPATH="${VERIF_REPO:-/repo}:$here" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import vf.sym as s; print('z3', s.z3.get_version_string())"
