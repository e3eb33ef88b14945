#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3 tool/lvc/check.py "$1" "${2:-${VERIF_TIER:-quick}}"
