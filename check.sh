#!/bin/sh
# ./check.sh ID [quick|thorough]   (run in /verif)
cd "$(dirname "$0")" || exit 2
export HYPOTHESIS_NO_PLUGINS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore -m tbv "$1" "${2:-${VERIF_TIER:-quick}}"
