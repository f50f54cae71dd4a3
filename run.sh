#!/bin/sh
# run.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 3
[ -n "$2" ] && VERIF_TIER="$2" && export VERIF_TIER
exec python3 -B checks/"$1".py
