#!/bin/sh
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
VERIF_TIER="${2:-${VERIF_TIER:-quick}}"; export VERIF_TIER
exec python3 lib/ptv.py check "$1"
