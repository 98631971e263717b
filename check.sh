#!/bin/bash
# usage: check.sh PROPERTY [TIER]   (VERIF_SEED and VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
exec /opt/venv/bin/python -B sim/driver.py check "$1"
