#!/bin/bash
# run_check.sh PROPERTY [quick|thorough]   -- explore one property on the code in /repo
# exit 0: held on everything explored; exit 1 + VIOLATION line: broken.
cd "$(dirname "$0")" || exit 2
tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$tier"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONHOME
exec /opt/venv/bin/python -B -m mc.run "$1"
