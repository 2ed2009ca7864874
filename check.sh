#!/bin/bash
# Usage: check.sh PROP   (env: VERIF_SEED, VERIF_TIER)
cd "$(dirname "$0")" || exit 5
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore -m vf.run "$1"
