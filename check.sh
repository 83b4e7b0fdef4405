#!/bin/sh
# usage: ./check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec python3-vt -m irv.check "$@"
