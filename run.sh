#!/bin/bash
# usage: run.sh <property> [quick|thorough] ; the tier given by VERIF_TIER wins only if unset here.
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m vk.run "$1"
