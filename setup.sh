#!/bin/bash
# Nothing to build: the checks are Python run by the interpreter that has melodist's dependencies.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec /opt/venv/bin/python -c "import numpy, pandas, scipy, mc.core, mc.common"
