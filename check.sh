#!/bin/bash
# usage: check.sh C01   (environment: VERIF_SEED, VERIF_TIER)
cd "$(dirname "$0")" || exit 2
id="$1"
export PYTHONPATH="$PWD/lib" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
exec /opt/venv/bin/python -m "vp.checks.$(echo "$id" | tr 'A-Z' 'a-z')"
