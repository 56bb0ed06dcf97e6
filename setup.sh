#!/bin/bash
# offline: nothing to build but the working directories; verifies the imports
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
/opt/venv/bin/python -W ignore -c "import menpofit, mon.core, mon.gen, mon.zoo; print('menpofit from', menpofit.__file__)"
